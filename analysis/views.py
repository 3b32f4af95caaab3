"""The pieces of the library that the rules look at.

A view runs the interpreter from a root function and may cut it at a stage boundary.  Stage functions are recognised
by what they take and return, not by name, so that moving code around does not move the boundary.
"""
import re
import terms as tm
from terms import *
from interp import Interp, St, Prog
import models, prove

ENT = r"map::quake::types::entity::Entity"
GEO = r"geo_builder::entity::geometry::Geometry"


class Stop(Exception):
    pass


class Stage:
    """stop or replace the outermost call of a function with the given return and argument types"""

    def __init__(self, ret, arg=None, noarg=None, act=None, pure=False):
        self.pure = pure
        self.ret, self.arg, self.noarg = re.compile(ret), arg and re.compile(arg), noarg and re.compile(noarg)
        self.act = act
        self.memo = {}
        self.depth = 0
        self.hits = []

    def match(self, prog, body):
        r = self.memo.get(body.key)
        if r is None:
            ts = prog.types
            ret = ts[body.locals[0]]
            args = [ts[body.locals[i + 1]] for i in range(body.argc)]
            clo = any(prove_deref(ts, body.locals[i + 1])["k"] == "closure" for i in range(min(1, body.argc)))
            r = (not clo and bool(self.ret.search(ret["name"])) and
                 (self.arg is None or any(self.arg.search(a["name"]) for a in args)) and
                 not (self.noarg is not None and any(self.noarg.search(a["name"]) for a in args)))
            if r and self.pure and reaches_more(prog, body.key, self.pure):
                r = False        # a function around the stage
            self.memo[body.key] = r
        return r

    def enter(self, I_, key, args, st):
        if self.depth:
            return NotImplemented
        return self.act(self, I_, key, args, st)


def prove_deref(ts, i):
    while ts[i]["k"] == "ref":
        i = ts[i]["to"]
    return ts[i]


def tyname(t):
    n = t["name"].replace("mut ", "").lstrip("&")
    m = re.match(r"std::vec::Vec<(.*)>$", n)
    if n in ("std::string::String", "std::path::PathBuf", "std::path::Path"):
        return "str"
    return "[%s]" % m.group(1) if m else n


def typed(name, ty, prog, *args):
    t = app("inp", S(name), *args)
    prove.INTYPES[t] = ty
    y = prog.types[prove.deref(ty)]
    if y["k"] in ("uint", "char"):
        UNSIGNED.add(t)
    return t


def tokens_fn():
    return dict(ret=r"Result<std::vec::Vec<map::quake::tokenizer::Token>", noarg=r"Token", pure="tokens")


def parse_fn():
    return dict(ret=r"Vec<" + ENT + ">", noarg=ENT, pure="parsed")


def face_fn():
    return dict(ret=r"^std::result::Result<map::quake::types::brush_plane::BrushPlane,", arg=r"^&str$|String$")


def geo_fn():
    return dict(ret=r"^" + GEO + "$", arg=r"^&" + ENT + "$", pure="geometry")


def facegeo_fn():
    return dict(ret=r"^geo_builder::brush_plane::geometry::Geometry$", arg=r"^&map::quake::types::brush_plane::BrushPlane$")


def finder(spec):
    s = Stage(**spec)

    def find(prog):
        return [k for k in prog.d["bodies"] if prog.body(k).local and s.match(prog, prog.body(k))]
    return find


class Result:
    def __init__(self, name):
        self.name = name
        self.terms = {}
        self.I = None
        self.missing = None      # a public function that is gone
        self.coarse = False      # the stage boundary was not found
        self.types = {}


def root_named(prog, path=None, pred=None):
    for r in prog.roots:
        if path is not None and r["path"] == path or pred is not None and pred(r):
            return r
    return None


def inputs(prog, b, bytype=False):
    out, used = [], {}
    for i in range(b.argc):
        ty = b.locals[i + 1]
        if bytype:
            n = tyname(prog.types[ty])
            used[n] = used.get(n, 0) + 1
            n = "%s#%d" % (n, used[n])
        else:
            n = "a%d" % i
        out.append(typed(n, ty, prog))
    return out


def execute(res, prog, key, stages=(), bytype=False, depth=1, general=0):
    I_ = Interp(prog, models.M)
    I_.generalise = general
    I_.reclimit = depth
    I_.stages = list(stages)
    res.I = I_
    b = prog.body(key)
    st = St({}, TRUE, {})
    try:
        args = inputs(prog, b, bytype)
        v = I_.exec_body(key, args, st)
        res.terms["result"] = v if v is not None else BOT
        for i, a in enumerate(args):
            if I_.is_mut(b.locals[i + 1]) and a.op == "ptr":
                res.terms["arg%d" % i] = models.val(I_, st, a)
    except Stop:
        pass
    return res


# ---------------------------------------------------------------- views
def plain(path, general=0):
    def f(prog, name):
        res = Result(name)
        r = root_named(prog, path)
        if r is None:
            res.missing = path
            return res
        return execute(res, prog, r["key"], general=general)
    return f


def pairs_fn():
    return dict(ret=r"\(" + ENT + ", " + GEO + r"\)", arg=r"\(" + ENT + ", " + GEO + r"\)", pure="pairs")


def scene_fn():
    return dict(ret=r"^std::vec::Vec<scene_tree::.*SceneTreeNode>$", arg=r"\(" + ENT + ", " + GEO + r"\)", pure="scene")


MAIN = {"tokens": tokens_fn, "parsed": parse_fn, "geometry": geo_fn, "pairs": pairs_fn, "scene": scene_fn}


def cutter(tag, ok):
    def f(s, I_, key, args, st):
        ok.add(tag)
        b = I_.prog.body(key)
        vs = sorted((tyname(I_.prog.types[b.locals[i + 1]]), i) for i in range(b.argc))
        vs = [app("a", S(n), models.val(I_, st, args[i])) for n, i in vs] 
        return typed(tag, b.locals[0], I_.prog, *vs)
    return f


def view_glue(prog, name):
    """run, with its four stages cut out"""
    res = Result(name)
    r = root_named(prog, "run")
    if r is None:
        res.missing = "run"
        return res
    ok = set()
    execute(res, prog, r["key"], [Stage(act=cutter(t, ok), **f()) for t, f in MAIN.items()])
    if len(ok) != 5:
        res.coarse = True
        res.terms = {}
    return res


def by_type(spec, cuts=(), depth=1):
    def f(prog, name):
        res = Result(name)
        ks = outermost(prog, finder(spec())(prog))
        if len(ks) != 1:
            res.coarse = True
            return res
        ok = set()
        execute(res, prog, ks[0], [Stage(act=cutter(t, ok), **c()) for t, c in cuts], bytype=True, depth=depth)
        if len(ok) != len(cuts):
            res.coarse = True
            res.terms = {}
        return res
    return f


def callees(prog, x):
    for bl in prog.body(x).j["blocks"]:
        t = bl["term"] if bl else None
        if t and t["t"] == "call":
            yield t.get("fn") or {}


def reaches_more(prog, key, own):
    """does a function read files, or go through another stage as well?"""
    others = [Stage(**dict(f(), pure=False)) for n, f in MAIN.items() if n != own]
    seen, todo = {key}, [key]
    while todo:
        for f in callees(prog, todo.pop()):
            if re.search(r"\bstd::fs::|\bFile::|\bfs::(read|write)", f.get("def") or ""):
                return True
            c = f.get("inst")
            if c and c not in seen and c in prog.d["bodies"]:
                b = prog.body(c)
                if b.local and any(o.match(prog, b) for o in others):
                    return True
                seen.add(c)
                todo.append(c)
    return False


def outermost(prog, ks):
    """those not called by another of them"""
    if len(ks) < 2:
        return ks
    inner = set()
    for k in ks:
        seen, todo = set(), [k]
        while todo:
            x = todo.pop()
            for bl in prog.body(x).j["blocks"]:
                t = bl["term"] if bl else None
                c = t and t["t"] == "call" and (t.get("fn") or {}).get("inst")
                if c and c not in seen and c in prog.d["bodies"]:
                    seen.add(c)
                    if c in ks:
                        inner.add(c)
                    todo.append(c)
    return [k for k in ks if k not in inner]


def view_method(self, name_, trait=None):
    def f(prog, name):
        res = Result(name)
        r = root_named(prog, pred=lambda r: r["name"] == name_ and r["self"] == self and (trait is None or trait in (r.get("trait") or "")))
        if r is None:
            res.missing = "%s::%s" % (self, name_)
            return res
        return execute(res, prog, r["key"])
    return f


VIEWS = {
    "run": plain("run", general=1),
    "tokens": by_type(tokens_fn),
    "parse": by_type(parse_fn, [("face", face_fn)]),
    "face": by_type(face_fn),
    "glue": view_glue,
    "geo": by_type(geo_fn, [("facegeo", facegeo_fn)]),
    "facegeo": by_type(facegeo_fn),
    "layers": by_type(pairs_fn),
    "scene": by_type(scene_fn, depth=3),
    "diff": plain("run_diff"),
    "wad": plain("wad::read_textures"),
    "palette": plain("wad::palette::read_palette"),
    "rgb": plain("wad::TextureIndexed::into_rgb"),
    "rgb_tex": plain("wad::TextureRGB::from_indexed"),
    "rgb_data": plain("wad::mip_data::MipDataRGB::from_indexed"),
    "rgb_into": plain("wad::mip_data::MipDataIndexed::into_rgb"),
    "fgd": view_method("game_data::forge::game_data::GameData", "to_string"),
    "save": view_method("game_data::forge::game_data::GameData", "save"),
}

if __name__ == "__main__":
    import sys, time
    sys.setrecursionlimit(200000)
    P = Prog("/tmp/q.json")
    for n in sys.argv[1:]:
        t = time.time()
        r = VIEWS[n](P, n)
        bad = [o for o in r.I.obls if not o.ok] if r.I else []
        print(n, "%.1fs" % (time.time() - t), r.missing, {k: size(v) for k, v in r.terms.items()}, r.I and r.I.unknown,
              len(r.I.obls), "obls", len(bad), "open", [(o.kind, o.sp[0].split('/')[-2:], o.sp[1]) for o in bad[:6]])
        for k, v in r.terms.items():
            for x in walk(v, set()):
                if x.op == "opq":
                    print("   opq", k, show(x, 3)[:100])
                    break
