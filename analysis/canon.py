"""Reference forms: saving and loading value terms."""
import gzip, json
import terms as tm
from terms import T, _mk, walk


def _enc(x, ids):
    if type(x) is T:
        return ids[x]
    if type(x) is tuple:
        return ["t"] + [_enc(y, ids) for y in x]
    if x is None:
        return ["n"]
    if x is True or x is False:
        return ["b", int(x)]
    if type(x) is int:
        return ["i", str(x)]
    if type(x) is float:
        return ["f", repr(x)]
    if type(x) is str:
        return ["s", x]
    if type(x) is frozenset:
        return ["fs"] + [_enc(y, ids) for y in sorted(x)]
    raise TypeError(repr(type(x)))


def save(named, path):
    """named: {name: term}; nodes are written in creation order, which the loader reproduces"""
    seen = set()
    nodes = []
    for t in named.values():
        nodes += list(walk(t, seen))
    nodes.sort(key=lambda t: t.id)
    ids = {t: i for i, t in enumerate(nodes)}
    out = {"nodes": [[t.op] + [_enc(x, ids) for x in t.a] for t in nodes],
           "fs": {str(i): 1 for i, t in enumerate(nodes) if t.op == "sym"},
           "roots": {n: ids[t] for n, t in named.items()}}
    raw = json.dumps(out, separators=(",", ":")).encode()
    with open(path, "wb") as f:
        f.write(gzip.compress(raw, 9, mtime=0))


def _dec(x, ns):
    if type(x) is int:
        return ns[x]
    k = x[0]
    if k == "t":
        return tuple(_dec(y, ns) for y in x[1:])
    if k == "n":
        return None
    if k == "b":
        return bool(x[1])
    if k == "i":
        return int(x[1])
    if k == "f":
        return float(x[1])
    if k == "s":
        return x[1]
    if k == "fs":
        return frozenset(_dec(y, ns) for y in x[1:])
    raise TypeError(k)


def load(path):
    """must run before the analysis, so that terms keep their relative order"""
    d = json.loads(gzip.decompress(open(path, "rb").read()))
    ns = []
    for n in d["nodes"]:
        op = n[0]
        a = tuple(_dec(x, ns) for x in n[1:])
        if op == "b":
            t = tm.bvar(a[0]) if len(a) == 1 else tm.avar(a[0])
        else:
            bind = None
            if op in ("for", "sum", "any", "first"):
                bind = (a[1],)
            elif op == "lam":
                bind = a[0]
            elif op == "foldv":
                bind = a[2]
            t = _mk(op, a, bind=bind)
        ns.append(t)
    return {n: ns[i] for n, i in d["roots"].items()}
