"""Alterations of decoded proofs and protocol messages."""

from petlib.bn import Bn
from petlib.ec import EcPt

from sim import ref


def paths(x, pre=()):
    """All positions in a decoded value."""
    yield pre, x
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            for r in paths(y, pre + (i,)):
                yield r
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            for r in paths(x[k], pre + (k,)):
                yield r


def get(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, v):
    """Copy of `x` with `v` at `path`."""
    if not path:
        return v
    k, rest = path[0], path[1:]
    if isinstance(x, dict):
        out = dict(x)
        out[k] = put(x[k], rest, v)
        return out
    out = list(x)
    out[k] = put(x[k], rest, v)
    return out if isinstance(x, list) else tuple(out)


def is_int(x):
    return isinstance(x, (int, Bn)) and not isinstance(x, bool)


def is_point(x):
    return hasattr(x, "export")


def point_groups(tree_gids):
    return [ref.group(g) for g in tree_gids]


def alter(ch, ctx, parts, other=None, top=None):
    """(name, altered parts).  `other`: decoded parts to splice from; `top`: positions to prefer."""
    cand = [(p, x) for p, x in paths(parts) if p]
    if top is not None:
        pref = [(p, x) for p, x in cand if p[0] in top]
        cand = pref or cand
    # every class of values gets its share
    kinds = {}
    for p, x in cand:
        k = "int" if is_int(x) else "point" if is_point(x) else "list" if isinstance(x, (list, tuple)) else \
            "dict" if isinstance(x, dict) else "bytes" if isinstance(x, (bytes, str)) else "none"
        kinds.setdefault(k, []).append((p, x))
    k = ch.weighted([(k, {"int": 6, "point": 4, "list": 4, "dict": 2, "bytes": 2, "none": 1}[k]) for k in sorted(kinds)])
    p, x = ch.pick(kinds[k])
    rng = ctx.rng
    if other is not None and ch.chance(20):
        try:
            v = get(other, p)
            return "splice-" + k, put(parts, p, v)
        except (KeyError, IndexError, TypeError):
            pass
    if ch.chance(8):
        v = ch.pick([None, 0, 1, "", b"", [], {}, True, "x", -1, [[]]])
        return "retype-" + k, put(parts, p, v)
    if k == "int":
        n = int(x)
        ops = ["inc", "dec", "neg", "zero", "random", "swap", "add-2^128", "sub-2^128", "bit", "double", "one"]
        op = ch.pick(ops)
        if op == "swap":
            q, y = ch.pick(kinds["int"])
            return "int-swap", put(put(parts, p, y), q, x)
        v = {"inc": n + 1, "dec": n - 1, "neg": -n, "zero": 0, "random": rng.randrange(1 << 224), "add-2^128": n + ref.CH,
             "sub-2^128": n - ref.CH, "bit": n ^ (1 << ch.draw(max(1, n.bit_length()))) if n >= 0 else n + 2,
             "double": 2 * n + 1, "one": 1}[op]
        return "int-" + op, put(parts, p, ref.bn(v))
    if k == "point":
        op = ch.pick(["neg", "double", "add", "inf", "swap", "other-group"])
        if op == "swap":
            q, y = ch.pick(kinds["point"])
            return "point-swap", put(put(parts, p, y), q, x)
        if op == "other-group":
            gid = ch.pick(["ec713", "ec415", "ec409", "ec714"])
            return "point-other-group", put(parts, p, ref.group(gid).mul(rng.randrange(1, 1 << 100), ref.group(gid).gen))
        grp = x.group
        if op == "neg":
            v = (grp.order() - 1) * x
        elif op == "double":
            v = x + x
        elif op == "add":
            v = x + (grp.generator())
        else:
            v = grp.infinite()
        return "point-" + op, put(parts, p, v)
    if k == "list":
        y = list(x)
        op = ch.pick(["delete", "duplicate", "append", "swap", "empty", "reverse", "wrap", "unwrap", "rotate", "clear-one"])
        if op == "delete" and y:
            y.pop(ch.draw(len(y)))
        elif op == "duplicate" and y:
            i = ch.draw(len(y))
            y.insert(i, y[i])
        elif op == "append":
            y.append(ch.pick([ref.bn(0), None, ref.bn(1)] + y[:1]))
        elif op == "swap" and len(y) > 1:
            i, j = ch.draw(len(y)), ch.draw(len(y))
            y[i], y[j] = y[j], y[i]
        elif op == "empty":
            y = []
        elif op == "reverse":
            y.reverse()
        elif op == "wrap":
            y = [y]
        elif op == "unwrap" and y:
            return "list-unwrap", put(parts, p, y[0])
        elif op == "rotate" and y:
            y = y[1:] + y[:1]
        elif op == "clear-one" and y:
            y[ch.draw(len(y))] = None
        return "list-" + op, put(parts, p, y)
    if k == "dict":
        y = dict(x)
        op = ch.pick(["delete", "rename", "extra"])
        key = ch.pick(sorted(y, key=repr)) if y else None
        if op == "delete" and y:
            del y[key]
        elif op == "rename" and y:
            y["zz"] = y.pop(key)
        else:
            y["zz"] = ref.bn(1)
        return "dict-" + op, put(parts, p, y)
    if k == "bytes":
        b = x if isinstance(x, bytes) else x.encode()
        op = ch.pick(["flip", "cut", "grow", "empty", "random", "text"])
        if op == "flip" and b:
            i = ch.draw(len(b))
            b = b[:i] + bytes([b[i] ^ (1 << ch.draw(8))]) + b[i + 1:]
        elif op == "cut" and b:
            b = b[: ch.draw(len(b))]
        elif op == "grow":
            # At either end, with what a comparison of numbers, of texts or of
            # prefixes would pass over.
            more = ch.pick([b"\0", b"\0\0", b" ", b"\n", b[:1], b, bytes([rng.randrange(256)])])
            b = more + b if ch.draw(2) else b + more
        elif op == "empty":
            b = b""
        elif op == "text":
            return "bytes-text", put(parts, p, b.hex())
        else:
            b = bytes(rng.randrange(256) for _ in b)
        return "bytes-" + op, put(parts, p, b)
    v = ch.pick([[], ref.bn(0), [None], {}, b""])
    return "none-replaced", put(parts, p, v)
