"""Wire formats: proofs and protocol messages as bytes, parts of them as Python values."""

import msgpack
from petlib.bn import Bn
from petlib.ec import EcGroup
from petlib.pack import encode, decode

from sim import ref


def enc(obj):
    return encode(obj).hex()


_curves = None


def check_curves(data):
    """petlib crashes the interpreter on unknown curves; an application must look first."""
    global _curves
    if _curves is None:
        _curves = EcGroup.list_curves()

    def hook(code, d):
        if code in (1, 2):
            nid = msgpack.unpackb(d)
            if (nid[0] if code == 2 else nid) not in _curves:
                raise ValueError("unknown curve")

    msgpack.unpackb(data, ext_hook=hook)


def sdecode(data):
    check_curves(data)
    return decode(data)


def dec(hexa):
    return sdecode(bytes.fromhex(hexa))


def parts(hexa):
    """[challenge, responses, precommitment, statement hash] of a serialized proof."""
    return [sdecode(x) for x in msgpack.unpackb(bytes.fromhex(hexa))]


def unparts(p):
    return msgpack.packb([encode(x) for x in p], use_bin_type=True).hex()


def plain(x):
    """Comparable form of a decoded value."""
    if x is None or isinstance(x, float):
        return ("v", repr(x))
    if isinstance(x, (int, Bn)):
        return int(x)
    if isinstance(x, bytes):
        return ("s", x)
    if isinstance(x, str):
        return ("s", x.encode("utf8", "surrogatepass"))
    if isinstance(x, dict):
        return ("d", tuple(sorted(((plain(k), plain(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    if hasattr(x, "export"):
        return ("p", type(x).__name__, x.export())
    return ("o", type(x).__name__, repr(x))


def canonical(tree, p):
    """What the parts of a proof mean for the statement (a normal tree); raises ref.Invalid."""
    node = ref.expand(tree, p[2])
    c = ref.toint(p[0])
    return (c, ref.canonical(node, c, p[1]), plain(p[2]))


def ints(x, out=None):
    """All integers in a decoded value, in order."""
    if out is None:
        out = []
    if isinstance(x, (int, Bn)):
        out.append(int(x))
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            ints(x[k], out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            ints(y, out)
    return out


def points(x, out=None):
    """All points in a decoded value, in order."""
    if out is None:
        out = []
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            points(x[k], out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            points(y, out)
    elif hasattr(x, "export"):
        out.append(x)
    return out


def shape(x):
    """Types and nesting of a decoded value (lists and tuples alike)."""
    if x is None:
        return "0"
    if isinstance(x, bool):
        return "b"
    if isinstance(x, Bn):
        return "n-" if int(x) < 0 else "n"
    if isinstance(x, int):
        return "i-" if x < 0 else "i"
    if isinstance(x, (bytes, str)):
        return "s%d" % len(x)
    if isinstance(x, dict):
        return "{" + ",".join("%s:%s" % (k if isinstance(k, str) else k.decode("latin1") if isinstance(k, bytes) else k, shape(x[k]))
                              for k in sorted(x, key=str)) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(shape(y) for y in x) + "]"
    if hasattr(x, "export"):
        return "P:%s" % type(x).__name__
    return type(x).__name__
