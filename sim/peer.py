"""Child process: serves hosts over its standard streams, one forked process for every run."""

import gc
import json
import os
import sys

from sim import env

env.setup_path()


def readline(fd):
    buf = b""
    while not buf.endswith(b"\n"):
        b = os.read(fd, 1 << 16)
        if not b:
            return None
        buf += b
    return buf


def writeall(fd, data):
    while data:
        data = data[os.write(fd, data):]


def serve(inp, out, req):
    from sim import host

    hosts = {}
    while True:
        if req[0] == "end":
            writeall(out, b'["ok"]\n')
            return
        try:
            if req[0] == "reset":
                env.reset(*req[1:])
                r = ["ok"]
            elif req[0] == "new":
                hosts[req[1]] = host.Host(req[1])
                r = ["ok"]
            elif req[0] == "crash":
                hosts[req[1]].crash()
                r = ["ok"]
            else:
                o = hosts[req[1]].call(req[2], *req[3], **req[4])
                r = ["ok", o.kind, o.value, o.detail]
        except Exception as e:
            import traceback

            r = ["harness", "".join(traceback.format_exc())]
        writeall(out, (json.dumps(r) + "\n").encode())
        line = readline(inp)
        if line is None:
            return
        req = json.loads(line)


def main():
    inp, out = os.dup(0), os.dup(1)
    os.dup2(os.open("/dev/null", os.O_WRONLY), 1)  # whatever the library prints
    env.install()
    from sim import host  # loads the library

    gc.disable()
    gc.freeze()
    while True:
        line = readline(inp)
        if line is None:
            return
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                serve(inp, out, json.loads(line))
                code = 0
            finally:
                os._exit(code)
        os.waitpid(pid, 0)


if __name__ == "__main__":
    main()
