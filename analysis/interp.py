"""Gated value-flow analysis of the crate's MIR.

Every function is evaluated once, all its paths merged at joins (values become decision diagrams over the
conditions that select them); loops and iterator adapters are summarised in closed form (comprehensions,
sums, folds); `&mut` is tracked as a location, `&` as the value it refers to.  Panicking edges become
obligations which are discharged from the dominating conditions.
"""
import json
from terms import *
import terms as tm
import prove

U = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
SI = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


class Body:
    __slots__ = ("key", "j", "path", "local", "argc", "spread", "locals", "blocks", "succ", "rpo", "rpon", "loops",
                 "live", "taken", "inloop", "span")


def simp(name):
    """alloc::vec::Vec::<T, A>::push -> Vec::push"""
    out, d, cur, segs = [], 0, "", []
    i = 0
    while i < len(name):
        c = name[i]
        if c in "<":
            d += 1
        if d == 0 and name.startswith("::", i):
            segs.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        if c == ">" and name[i - 1] != "-":
            d -= 1
        i += 1
    segs.append(cur)
    segs = [s for s in segs if s and not s.startswith("<impl") and not (s.startswith("<") and s.endswith(">") and " as " not in s)]
    segs = [s.split("<")[0] if not s.startswith("<") else s for s in segs]
    segs = [s for s in segs if s]
    return "::".join(segs[-2:])


class Prog:
    def __init__(self, path):
        self.d = json.load(open(path))
        self.types = self.d["types"]
        self.roots = self.d["roots"]
        self._bodies = {}
        for t in self.types:
            if t["k"] == "adt" and "variants" in t:
                p = t["path"]
                if p not in ADTS:
                    ADTS[p] = [(v["name"], int(v["discr"]) if v["discr"] is not None else None, [f[0] for f in v["fields"]])
                               for v in t["variants"]]
                    for vi, v in enumerate(t["variants"]):
                        for fi, f in enumerate(v["fields"]):
                            if self.types[f[1]]["k"] == "uint" or self.types[f[1]]["k"] == "char":
                                UFIELDS.add((p, vi, fi))
        prove.set_prog(self)
        ADTS.setdefault(OPT, [("None", 0, []), ("Some", 1, ["0"])])
        ADTS.setdefault(RES, [("Ok", 0, ["0"]), ("Err", 1, ["0"])])

    def ty(self, i):
        return self.types[i]

    def body(self, key):
        b = self._bodies.get(key)
        if b is None and key in self.d["bodies"]:
            b = self._mkbody(key, self.d["bodies"][key])
            self._bodies[key] = b
        return b

    def _mkbody(self, key, j):
        b = Body()
        b.key, b.j, b.path, b.local, b.argc, b.spread, b.locals = key, j, j["path"], j["local"], j["argc"], j["spread"], j["locals"]
        b.blocks = j["blocks"]
        b.span = j["span"]
        n = len(b.blocks)
        b.succ = [[] for _ in range(n)]
        for i, bl in enumerate(b.blocks):
            if bl is None:
                continue
            t = bl["term"]
            k = t["t"]
            s = []
            if k == "switch":
                s = [c[1] for c in t["cases"]] + ([t["else"]] if t["else"] is not None else [])
            elif k in ("goto", "drop", "call", "assert"):
                if t.get("to") is not None:
                    s = [t["to"]]
            seen = []
            for x in s:
                if x not in seen and b.blocks[x] is not None:
                    seen.append(x)
            b.succ[i] = seen
        # reverse postorder
        order, seen = [], set()
        st = [(0, iter(b.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(b.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        b.rpo = order[::-1]
        b.rpon = {x: i for i, x in enumerate(b.rpo)}
        # dominators
        preds = {x: [] for x in b.rpo}
        for x in b.rpo:
            for y in b.succ[x]:
                preds[y].append(x)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in b.rpo[1:]:
                ps = [p for p in preds[x] if p in idom]
                v = ps[0]
                for p in ps[1:]:
                    a, c = p, v
                    while a != c:
                        while b.rpon[a] > b.rpon[c]:
                            a = idom[a]
                        while b.rpon[c] > b.rpon[a]:
                            c = idom[c]
                    v = a
                if idom.get(x) != v:
                    idom[x] = v
                    ch = True

        def dom(a, c):
            while True:
                if a == c:
                    return True
                if c == 0:
                    return False
                c = idom[c]
        b.loops = {}
        for x in b.rpo:
            for y in b.succ[x]:
                if b.rpon[y] <= b.rpon[x]:
                    assert dom(y, x), "irreducible"
                    s = b.loops.setdefault(y, {y})
                    work = [x]
                    while work:
                        z = work.pop()
                        if z not in s:
                            s.add(z)
                            work.extend(preds[z])
        # liveness of locals (address-taken locals are always live)
        taken = set()
        use, dfn = {}, {}
        for x in b.rpo:
            u, dset = set(), set()

            def rd(p):
                if p["p"][0] not in dset:
                    u.add(p["p"][0])
                for e in p["p"][1:]:
                    if e[0] == "[]" and e[1] not in dset:
                        u.add(e[1])

            def op(o):
                if o.get("o") in ("copy", "move"):
                    rd(o["pl"])
            bl = b.blocks[x]
            for s in bl["st"]:
                rv = s.get("rv")
                if rv:
                    for kk in ("x", "a", "b"):
                        if isinstance(rv.get(kk), dict):
                            op(rv[kk])
                    for o in rv.get("xs", ()):
                        op(o)
                    if "pl" in rv:
                        rd(rv["pl"])
                        if rv["r"] in ("ref", "rawptr") and rv.get("mut", True) and not any(e[0] == "*" for e in rv["pl"]["p"][1:]):
                            taken.add(rv["pl"]["p"][0])
                if "pl" in s:
                    if len(s["pl"]["p"]) == 1:
                        dset.add(s["pl"]["p"][0])
                    else:
                        rd(s["pl"])
            t = bl["term"]
            if isinstance(t.get("x"), dict):
                op(t["x"])
            for o in t.get("args", ()):
                op(o)
            for o in t.get("ops", ()):
                if isinstance(o, dict):
                    op(o)
            if isinstance(t.get("fnop"), dict):
                op(t["fnop"])
            if t["t"] == "return":
                u.add(0)
            if "dst" in t:
                if len(t["dst"]["p"]) == 1:
                    dset.add(t["dst"]["p"][0])
                else:
                    rd(t["dst"])
            use[x], dfn[x] = u, dset
        live = {x: set() for x in b.rpo}
        ch = True
        while ch:
            ch = False
            for x in reversed(b.rpo):
                o = set()
                for y in b.succ[x]:
                    o |= live[y]
                nl = use[x] | (o - dfn[x])
                if nl != live[x]:
                    live[x] = nl
                    ch = True
        b.live, b.taken = live, taken
        return b


def cell(n):
    return tm._mk("cell", (n,))


def st_f(path, v, i):
    return tm._mk("sf", (path, v, i))


def st_p(i):
    return tm._mk("sp", (i,))


def st_u(i):
    return tm._mk("su", (i,))


def st_i(i):
    return tm._mk("si", (i,))


def ptr(c, *steps):
    return tm._mk("ptr", (c,) + steps)


def it(seq, pos=ZERO):
    return tm._mk("iter", (seq, pos))


def undef():
    return tm._mk("opq", ("undef",))


def opq(name, *args):
    return tm._mk("opq", (name,) + args)


_frames = [0]


class St:
    __slots__ = ("mem", "pc", "facts")

    def __init__(self, mem, pc, facts):
        self.mem, self.pc, self.facts = mem, pc, facts

    def copy(self):
        return St(dict(self.mem), self.pc, dict(self.facts))

    def become(self, o):
        self.mem, self.pc, self.facts = o.mem, o.pc, o.facts

    def learn(self, cond):
        for a, k in when_true(cond):
            self.facts[a] = k


class Obl:
    __slots__ = ("kind", "sp", "fn", "stack", "ok", "cond", "why", "facts", "pcs", "fns", "loc")


class Interp:
    def __init__(self, prog, models):
        self.prog = prog
        self.models = models
        self.stack = []       # body keys
        self.pcs = []         # enclosing path conditions
        self.obls = []
        self.events = []
        self.rec = 0          # >0: not recording
        self.loops = []
        self.consts = {}
        self.site = None
        self.calls = 0
        self.stages = []
        self.visited = set()
        self.reclimit = 1
        self.generalise = 0   # recursive calls to go on into, with arbitrary values for what changes
        self.argstack = []
        self.cut = {}
        self.unknown = {}
        self.reccalls = []
        self.nomuted = []
        self.splits = 0

    # ------------------------------------------------------------ recording
    def event(self, kind, *data):
        if not self.rec:
            self.events.append((kind, data, self.site, tuple(self.stack)))

    def oblige(self, st, kind, cond, why=""):
        """cond must hold here"""
        c = self.simp(cond, st)
        if c is TRUE:
            ok = True
        elif self.rec:
            ok = None
        else:
            ok = prove.holds(c, st.facts, self.pcs + [st.pc])
        if not self.rec:
            o = Obl()
            o.kind, o.sp, o.stack, o.ok, o.cond, o.why = kind, self.site, tuple(self.stack), ok, c, why
            o.facts, o.pcs = dict(st.facts), list(self.pcs) + [st.pc]
            self.obls.append(o)
        if c is FALSE or c is BOT:
            return False
        if c is not TRUE:
            st.learn(c)
        return True

    def simp(self, t, st):
        return passume(t, st.facts)

    # ------------------------------------------------------------ state splitting / merging
    def refine(self, st, cond):
        c = self.simp(cond, st)
        if c is FALSE or c is BOT:
            return None
        s = st.copy()
        if c is not TRUE:
            s.pc = AND(st.pc, c)
            if s.pc is FALSE:
                return None
            s.learn(c)
        return s

    def merge(self, sts):
        sts = [s for s in sts if s is not None and s.pc is not FALSE]
        if not sts:
            return None
        a = sts[0]
        for b in sts[1:]:
            a = self.merge2(a, b)
        return a

    def merge2(self, a, b):
        pc = OR(a.pc, b.pc)
        cond = None
        mem = {}
        bm = b.mem
        for k, x in a.mem.items():
            y = bm.get(k)
            if y is None:
                continue
            if x is y:
                mem[k] = x
            else:
                if cond is None:
                    cond = restrict(a.pc, OR(a.pc, b.pc)) if a.pc is not TRUE else NOT(b.pc)
                mem[k] = ite(cond, x, y)
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k, self) == v}
        return St(mem, pc, facts)

    VAL = -1

    def branch(self, st, cond, ft, ff):
        """evaluate ft/ff under cond / not cond; merges states; returns value or None when dead"""
        s1 = self.refine(st, cond)
        s2 = self.refine(st, NOT(cond))
        outs = []
        for s, f in ((s1, ft), (s2, ff)):
            if s is None:
                continue
            v = f(s)
            if v is None:
                continue
            s.mem[self.VAL] = v
            outs.append(s)
        m = self.merge(outs)
        if m is None:
            return None
        v = m.mem.pop(self.VAL)
        st.become(m)
        return v

    def case(self, st, x, path, fs):
        """fs: variant -> f(st, *fields)"""
        x = self.simp(x, st)
        vs = ADTS[path]
        order = sorted(fs)

        def go(st, i):
            v = order[i]
            nf = len(vs[v][2])

            def run(s):
                y = self.simp(x, s)
                return fs[v](s, *[fld(y, path, v, j) for j in range(nf)])
            if i == len(order) - 1 and len(order) == len(vs):
                return run(st)
            return self.branch(st, is_variant(x, path, v), run,
                               (lambda s: go(s, i + 1)) if i + 1 < len(order) else (lambda s: None))
        return go(st, 0)

    # ------------------------------------------------------------ memory
    def alloc(self, st, v):
        _frames[0] += 1
        n = _frames[0] << 12
        st.mem[n] = v
        return ptr(cell(n))

    def load_ptr(self, st, p):
        if p.op == "sw":
            return lift(lambda q: self.load_ptr(st, q), p)
        if p is BOT:
            return BOT
        if p.op != "ptr":
            return p          # opaque reference: the value itself
        v = st.mem.get(p.a[0].a[0])
        if v is None:
            return opq("dangling")
        for s in p.a[1:]:
            v = self.step(v, s)
        return v

    def step(self, v, s):
        if s.op == "sf":
            return fld(v, *s.a)
        if s.op == "sp":
            return proj(v, s.a[0])
        if s.op == "su":
            return self.upvar(v, s.a[0])
        return at(v, s.a[0])

    def upvar(self, v, i):
        if v.op == "sw":
            return lift(lambda x: self.upvar(x, i), v)
        if v.op == "clo":
            return v.a[1 + i]
        if v is BOT:
            return BOT
        return tm._mk("prj", (v, i))

    def put(self, v, steps, val):
        if not steps:
            return val
        if v.op == "sw" and v.a[0].op != "x":
            return lift(lambda x: self.put(x, steps, val), v)
        if v is BOT:
            return BOT
        s = steps[0]
        new = self.put(self.step(v, s), steps[1:], val)
        if s.op == "sf":
            path, var, i = s.a
            vs = ADTS.get(path)
            n = len(vs[var][2]) if vs else i + 1
            if v.op == "adt" and v.a[1] != var:
                return BOT
            fs = [fld(v, path, var, j) for j in range(n)]
            fs[i] = new
            return adt(path, var, *fs)
        if s.op == "sp":
            n = max(s.a[0] + 1, len(v.a) if v.op == "tup" else 2)
            fs = [proj(v, j) for j in range(n)]
            fs[s.a[0]] = new
            return tup(*fs)
        if s.op == "su":
            if v.op == "clo":
                a = list(v.a)
                a[1 + s.a[0]] = new
                return tm._mk("clo", tuple(a))
            return opq("clo")
        return upd(v, s.a[0], new)

    def store_ptr(self, st, p, steps, val):
        p = self.simp(p, st)
        if p.op == "sw":
            for path, leaf in leaves(p):
                if leaf is BOT:
                    continue
                c = TRUE
                for a, k in path:
                    others = {}
                    if k is None:
                        node = p
                        ks = [kk for kk, _ in self._node(p, path, a).a[1]]
                        c = AND(c, SW(a, {kk: FALSE for kk in ks}, TRUE))
                    else:
                        node = self._node(p, path, a)
                        c = AND(c, SW(a, {**{kk: FALSE for kk, _ in node.a[1]}, k: TRUE}, FALSE if node.a[2] is not None else None))
                if leaf.op != "ptr":
                    continue
                n = leaf.a[0].a[0]
                old = st.mem.get(n, undef())
                new = self.put(old, list(leaf.a[1:]) + list(steps), val)
                st.mem[n] = ite(c, new, old)
            return
        if p.op != "ptr":
            self.event("opaque-write", p)
            if p.op == "opq" and p.a and p.a[0] in ("entryref", "mapentry"):
                self.store_ptr(st, p.a[1], [], opq("havoc:entry", self.load_ptr(st, p.a[1])))
            return
        n = p.a[0].a[0]
        old = st.mem.get(n, undef())
        st.mem[n] = self.put(old, list(p.a[1:]) + list(steps), val)

    def _node(self, t, path, atom):
        for a, k in path:
            if t.a[0] is atom:
                return t
            t = cof(t, a, k)
        return t

    # ------------------------------------------------------------ places
    def proj_types(self, body, place):
        """type id before each projection"""
        ty = body.locals[place["p"][0]]
        out = []
        variant = 0
        for e in place["p"][1:]:
            out.append((ty, variant))
            t = self.prog.types[ty]
            if e[0] == "*":
                ty = t["to"] if "to" in t else (t["args"][0] if t.get("args") else ty)
                variant = 0
            elif e[0] == ".":
                ty = e[2]
                variant = 0
            elif e[0] == "as":
                variant = e[1]
            elif e[0] in ("[]", "[c]"):
                ty = t["of"] if "of" in t else ty
            elif e[0] == "[..]":
                pass
        return out, ty

    def is_mut(self, ty):
        t = self.prog.types[ty]
        return (t["k"] == "ref" and t["mut"]) or t["k"] == "ptr"

    def is_box(self, ty):
        t = self.prog.types[ty]
        return t["k"] == "adt" and t["path"] == "alloc::boxed::Box"

    def to_step(self, st, fr, body, e, tyv):
        ty, variant = tyv
        t = self.prog.types[ty]
        if e[0] == ".":
            if t["k"] == "adt":
                if t["path"] in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
                                 "core::mem::maybe_dangling::MaybeDangling"):
                    return None
                return st_f(t["path"], variant, e[1])
            if t["k"] == "closure":
                return st_u(e[1])
            return st_p(e[1])
        if e[0] == "[]":
            return st_i(self.local(st, fr, e[1]))
        if e[0] == "[c]":
            if e[3] if len(e) > 3 else False:
                return ("fromend", e[1])
            return st_i(I(e[1]))
        return None

    def local(self, st, fr, n):
        v = st.mem.get(fr + n)
        if v is None:
            return undef()
        if v.op == "sw":
            v = self.simp(v, st)
        return v

    def read(self, st, fr, body, place):
        p = place["p"]
        v = self.local(st, fr, p[0])
        if len(p) == 1:
            return v
        tys, _ = self.proj_types(body, place)
        for e, tyv in zip(p[1:], tys):
            if e[0] == "*":
                if self.is_mut(tyv[0]):
                    v = self.load_ptr(st, v)
                elif v.op in ("ptr", "sw") and self.is_box(tyv[0]):
                    v = self.load_ptr(st, v)
                continue
            if e[0] == "as":
                continue
            if e[0] == "[..]":
                lo, hi, fe = e[1], e[2], e[3]
                v = slice_(v, I(lo), sub(length(v), I(hi)) if fe else I(hi))
                continue
            if v.op == "ptr" and self.is_box(tyv[0]):
                continue
            s = self.to_step(st, fr, body, e, tyv)
            if s is None:
                continue
            if type(s) is tuple:
                v = at(v, sub(length(v), I(s[1])))
            else:
                v = self.step(v, s)
        if v.op == "sw":
            v = self.simp(v, st)
        return v

    def locate(self, st, fr, body, place):
        """(pointer, steps) of a place"""
        p = place["p"]
        base = ptr(cell(fr + p[0]))
        steps = []
        if len(p) == 1:
            return base, steps
        tys, _ = self.proj_types(body, place)
        v = self.local(st, fr, p[0])
        for e, tyv in zip(p[1:], tys):
            if e[0] == "*":
                if self.is_mut(tyv[0]) or v.op == "ptr":
                    base = self.load_at(st, base, steps)
                    steps = []
                    base = self.simp(base, st)
                else:
                    base = self.load_at(st, base, steps)
                    base = base if base.op == "ptr" else opq("shared")
                    steps = []
                continue
            if e[0] in ("as", "[..]"):
                continue
            if self.is_box(tyv[0]):
                continue
            s = self.to_step(st, fr, body, e, tyv)
            if s is None:
                continue
            if type(s) is tuple:
                s = st_i(sub(length(self.load_at(st, base, steps)), I(s[1])))
            steps.append(s)
        return base, steps

    def load_at(self, st, base, steps):
        v = self.load_ptr(st, base)
        for s in steps:
            v = self.step(v, s)
        return v

    def ext(self, base, steps):
        if not steps:
            return base
        if base.op == "sw":
            return lift(lambda b: self.ext(b, steps), base)
        if base.op == "ptr":
            return tm._mk("ptr", base.a + tuple(steps))
        v = base
        for s in steps:
            v = self.step(v, s)
        return v

    def write(self, st, fr, body, place, val):
        p = place["p"]
        if len(p) == 1:
            st.mem[fr + p[0]] = val
            return
        base, steps = self.locate(st, fr, body, place)
        self.store_ptr(st, base, steps, val)

    # ------------------------------------------------------------ operands / rvalues
    def const(self, st, k):
        c = k["c"]
        t = self.prog.types[k["t"]]
        if c == "int":
            v = int(k["v"])
            if t["k"] == "adt":   # fieldless
                for i, x in enumerate(t.get("variants", [])):
                    if x["discr"] is not None and int(x["discr"]) == v:
                        return adt(t["path"], i)
            return I(v)
        if c == "agg":
            fs = [self.const(st, x) for x in k["f"]]
            if t["k"] == "tuple":
                return tm.tup(*fs)
            if self.is_box(k["t"]) and len(fs) == 1:
                return fs[0]
            return adt(t["path"], k["v"], *fs)
        if c == "float":
            return Fl(k["v"])
        if c == "str":
            return S(k["v"])
        if c == "bytes":
            return tm._mk("cbytes", (tuple(k["v"]),)) if isinstance(k["v"], list) else tm._mk("cbytes", (k["v"],))
        if c in ("promoted", "named"):
            key = k.get("key", k.get("v"))
            if key in self.consts:
                return self.consts[key]
            if self.prog.body(key) is None:
                return opq("const " + str(key))
            self.rec += 1
            s = St({}, TRUE, {})
            v = self.exec_body(key, [], s)
            if v is not None and self.prog.types[k["t"]]["k"] == "ref" and v.op == "ptr":
                v = self.load_ptr(s, v)
            self.rec -= 1
            self.consts[key] = v if v is not None else BOT
            return self.consts[key]
        if c == "zst":
            if t["k"] == "fndef":
                return tm._mk("fn", (k["t"],))
            if t["k"] == "closure":
                return tm._mk("clo", (k["t"],))
            if t["k"] == "adt" and len(t.get("variants", [])) == 1:
                return adt(t["path"], 0, *[UNIT for _ in t["variants"][0]["fields"]])
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "array":
                return NIL
            return adt(t.get("path", t["name"]), 0) if t["k"] == "adt" and "variants" in t and len(t["variants"]) == 1 else UNIT
        if c == "static":
            self.event("static", k.get("v"))
            return opq("static " + str(k.get("v")))
        # other: unit-like variants such as Option::None constants
        if t["k"] == "adt" and isinstance(k.get("v"), dict) and "variant" in k["v"]:
            return adt(t["path"], k["v"]["variant"])
        return opq("const " + str(k.get("v")))

    def operand(self, st, fr, body, o):
        if o["o"] == "const":
            return self.const(st, o["k"])
        return self.read(st, fr, body, o["pl"])

    def rng(self, t):
        n = t.get("n") or t["name"]
        if n in U:
            return 0, (1 << U[n]) - 1
        if n in SI:
            return -(1 << (SI[n] - 1)), (1 << (SI[n] - 1)) - 1
        return None

    def in_range(self, v, t):
        r = self.rng(t)
        if r is None:
            return TRUE

        def f(x):
            if x is BOT:
                return BOT
            lo, hi = prove.bounds(x)
            if lo is not None and lo >= r[0] and hi is not None and hi <= r[1]:
                return TRUE
            c = TRUE
            if lo is None or lo < r[0]:
                c = AND(c, ge0(sub(x, I(r[0]))))
            if hi is None or hi > r[1]:
                c = AND(c, ge0(sub(I(r[1]), x)))
            return c
        return lift(f, v)

    def binop(self, op, a, b, t, st=None):
        k = t["k"]
        if k == "float":
            if op == "Add":
                return add(a, b)
            if op == "Sub":
                return sub(a, b)
            if op == "Mul":
                return mul(a, b)
            if op == "Div":
                return div(a, b)
            if op == "Lt":
                return flt(a, b)
            if op == "Gt":
                return flt(b, a)
            if op == "Le":
                return fle(a, b)
            if op == "Ge":
                return fle(b, a)
            if op == "Eq":
                return eq(a, b, True)
            if op == "Ne":
                return NOT(eq(a, b, True))
            return app("f" + op, a, b)
        if k == "bool":
            if op == "Eq":
                return ite(a, b, NOT(b))
            if op in ("Ne", "BitXor"):
                return ite(a, NOT(b), b)
            if op == "BitAnd":
                return AND(a, b)
            if op == "BitOr":
                return OR(a, b)
            return app(op, a, b)
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op == "Div":
            return idiv(a, b) if k != "int" or (nonneg(a) and nonneg(b)) else app("sdiv", a, b)
        if op == "Rem":
            return irem(a, b) if k != "int" or (nonneg(a) and nonneg(b)) else app("srem", a, b)
        if op == "Eq":
            if k in ("int", "uint", "char"):
                return ieq(a, b)
            return eq(a, b)
        if op == "Ne":
            if k in ("int", "uint", "char"):
                return NOT(ieq(a, b))
            return NOT(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Cmp":
            return app("icmp", a, b)
        if op in ("Shl", "ShlUnchecked"):
            if a.op == "int" and b.op == "int":
                return wrap(I(a.a[0] << b.a[0]), t)
            if b.op == "int":
                return app("wshl", mul(a, I(1 << b.a[0])), I(0)) if False else shl(a, b, t)
            return shl(a, b, t)
        if op in ("Shr", "ShrUnchecked"):
            if k == "uint" and b.op == "int":
                return idiv(a, I(1 << b.a[0]))
            return app("shr", a, b)
        if op == "BitAnd":
            return bitand(a, b)
        if op in ("BitOr", "BitXor"):
            x, y = (a, b) if a.id <= b.id else (b, a)
            if a.op == "int" and b.op == "int":
                return I(a.a[0] | b.a[0] if op == "BitOr" else a.a[0] ^ b.a[0])
            return app(op, x, y)
        return app(op, a, b)

    def rvalue(self, st, fr, body, rv):
        r = rv["r"]
        if r == "use":
            return self.operand(st, fr, body, rv["x"])
        if r == "ref" or r == "rawptr":
            tys, ty = self.proj_types(body, rv["pl"])
            if r == "ref" and not rv["mut"]:
                return self.read(st, fr, body, rv["pl"])
            if r == "rawptr" and not rv.get("mut", True):
                return self.read(st, fr, body, rv["pl"])
            base, steps = self.locate(st, fr, body, rv["pl"])
            return self.ext(base, steps)
        if r == "cast":
            x = self.operand(st, fr, body, rv["x"])
            return self.cast(st, rv["kind"], x, self.prog.types[rv["from"]], self.prog.types[rv["t"]])
        if r == "bin":
            a = self.operand(st, fr, body, rv["a"])
            b = self.operand(st, fr, body, rv["b"])
            t = self.prog.types[rv["at"]]
            op = rv["op"]
            if op.endswith("WithOverflow"):
                v = lift(lambda x, y: self.binop(op[:-12], x, y, t), a, b)
                if t["k"] == "uint" and op[:3] == "Sub":
                    # operands are in range already, so is a difference that is not negative
                    return tup(v, NOT(lift(lambda x: ge0(x) if x is not BOT else BOT, v)))
                return tup(v, NOT(self.in_range(v, t)))
            v = lift(lambda x, y: self.binop(op, x, y, t), a, b)
            if op == "BitAnd" and t["k"] in ("uint", "int") and v.op == "app":
                pass
            return v
        if r == "un":
            x = self.operand(st, fr, body, rv["x"])
            if rv["op"] == "Not":
                if self.prog.types[rv["t"]]["k"] == "bool":
                    return NOT(x)
                return app("bitnot", x)
            if rv["op"] == "Neg":
                return scale(x, -1) if x.op != "sw" else lift(lambda y: scale(y, -1), x)
            if rv["op"] == "PtrMetadata":
                return length(self.load_ptr(st, x) if x.op == "ptr" else x)
            return app(rv["op"], x)
        if r == "len":
            return length(self.read(st, fr, body, rv["pl"]))
        if r == "discr":
            v = self.read(st, fr, body, rv["pl"])
            t = self.prog.types[rv["pl"]["t"]]
            return self.simp(discr_of(v, t.get("path", t["name"])), st)
        if r == "agg":
            xs = [self.operand(st, fr, body, x) for x in rv["xs"]]
            t = self.prog.types[rv["t"]]
            k = rv["kind"]
            if k == "array":
                return lit(*xs)
            if k == "tuple":
                return tup(*xs)
            if k == "closure":
                return tm._mk("clo", (rv["t"],) + tuple(xs))
            if k == "adt":
                return adt(t["path"], rv.get("variant", 0), *xs)
            return opq("agg " + str(k))
        if r == "repeat":
            x = self.operand(st, fr, body, rv["x"])
            n = rv["n"]
            if n is not None and int(n) <= 4:
                return lit(*([x] * int(n)))
            return For(I(int(n)), fresh("ix"), lit(x))
        return opq("rvalue " + r)

    def cast(self, st, kind, x, f, t):
        if kind == "IntToInt":
            if t["k"] in ("uint", "int", "char"):
                if t["k"] == "char":
                    return x
                if f["k"] == "bool":
                    return ite(x, ONE, ZERO)
                return lift(lambda y: self.cast_int(st, y, f, t), x)
            return x
        if kind == "IntToFloat":
            return x
        if kind == "FloatToInt":
            return lift(lambda y: y if y.op == "int" and (self.rng(t)[0] <= y.a[0] <= self.rng(t)[1]) else app("trunc", S(t["name"]), y), x)
        if kind in ("FloatToFloat",):
            return x
        return x

    def cast_int(self, st, y, f, t):
        if y is BOT:
            return BOT
        r = self.rng(t)
        fr_ = self.rng(f)
        if fr_ and fr_[0] >= r[0] and fr_[1] <= r[1]:
            return y
        lo, hi = prove.bounds(y)
        if lo is not None and hi is not None and lo >= r[0] and hi <= r[1]:
            return y
        if prove.implied(ge0(sub(y, I(r[0]))), st.facts) and (prove.implied(ge0(sub(I(r[1]), y)), st.facts) or mem_bounded(y) and r[1] >= (1 << 63) - 1):
            return y
        v = app("wrap", S(t["name"]), y)
        if t["k"] == "uint":
            UNSIGNED.add(v)
        if not self.rec:
            self.events.append(("trunc", (y, t["name"], self.in_range(y, t)), self.site, tuple(self.stack)))
        return v

    # ------------------------------------------------------------ functions
    def exec_body(self, key, args, st):
        body = self.prog.body(key)
        if body.local and self.stages:
            for s in self.stages:
                if s.match(self.prog, body):
                    r = s.enter(self, key, args, st)
                    if r is not NotImplemented:
                        return r
        if self.stack.count(key) >= self.reclimit:
            v = app("rec", S(key), *args)
            if not self.rec:
                self.reccalls.append((key, args, list(self.pcs) + [st.pc], dict(st.facts), self.site))
                if self.generalise:
                    old = [a for k, a in zip(self.stack, self.argstack) if k == key][-1]
                    g = [self.general(body.locals[i + 1], o, a) for i, (o, a) in enumerate(zip(old, args))]
                    s = St(dict(st.mem), TRUE, dict(st.facts))
                    s.learn(st.pc)
                    self.generalise -= 1
                    self.reclimit += 1
                    self.pcs.append(st.pc)
                    site = self.site
                    self.exec_body(key, g, s)
                    self.site = site
                    self.pcs.pop()
                    self.reclimit -= 1
                    self.generalise += 1
            return v
        self.calls += 1
        if body.local:
            self.visited.add(body.path)
        _frames[0] += 1
        fr = _frames[0] << 12
        s = St(dict(st.mem), TRUE, dict(st.facts))
        s.learn(st.pc)
        for i, a in enumerate(args):
            s.mem[fr + i + 1] = a
        self.stack.append(key)
        self.argstack.append(args)
        self.pcs.append(st.pc)
        site = self.site
        latch, exits, rets = self.region(body, fr, 0, s, None, None)
        self.site = site
        self.pcs.pop()
        self.argstack.pop()
        self.stack.pop()
        m = self.merge(rets)
        if m is None:
            return None
        ret = m.mem.get(fr, UNIT)
        lo, hi = fr, fr + 4096
        st.mem = {k: v for k, v in m.mem.items() if not (lo <= k < hi)}
        for a, k in when_true(m.pc):
            st.facts[a] = k
        for a, k in m.facts.items():
            st.facts.setdefault(a, k)
        return self.simp(ret, st)

    def general(self, ty, old, new):
        """the argument of a recursive call: what it shares with the call it is made from, and anything else arbitrary"""
        if new is old:
            return new
        t = self.prog.types[prove.deref(ty)]
        if new.op == "tup" and t["k"] == "tuple" and old.op == "tup" and len(new.a) == len(old.a):
            return tup(*[self.general(e, o, n) for e, o, n in zip(t["args"], old.a, new.a)])
        if new.op == "clo" and old.op == "clo" and new.a[0] == old.a[0]:
            up = self.prog.types[new.a[0]].get("upvars", [])
            if len(up) == len(new.a) - 1:
                return tm._mk("clo", (new.a[0],) + tuple(self.general(u, o, n) for u, o, n in zip(up, old.a[1:], new.a[1:])))
        w = list(tm.walk(old, set()))
        if any(x.op in ("app", "opq") and x.a[0] == "inp" for x in w) and old not in set(tm.walk(new, set())):
            return new      # not accumulated: arbitrary as far as its own inputs are
        x = app("inp", fresh("g"))
        prove.INTYPES[x] = ty
        return x

    def region(self, body, fr, entry, st, blocks, header):
        """evaluate an acyclic region (inner loops collapsed); returns latch states, exits, return states"""
        pend = {entry: [st]}
        latch, exits, rets = [], [], []
        order = sorted((x for x in body.rpo if blocks is None or x in blocks), key=lambda x: body.rpon[x])
        for x in order:
            ss = pend.pop(x, None)
            if not ss:
                continue
            if len(ss) > 1:
                live = body.live[x] | body.taken
                for q in ss:
                    q.mem = {k: v for k, v in q.mem.items() if not (fr <= k < fr + 4096) or (k - fr) in live}
            s = self.merge(ss)
            if s is None:
                continue
            if x in body.loops and x != header:
                res = self.loop(body, fr, x, s)
            else:
                res = self.block(body, fr, x, s)
            for tgt, s2 in res:
                if tgt == "ret":
                    rets.append(s2)
                elif tgt == header and header is not None:
                    latch.append(s2)
                elif blocks is not None and tgt not in blocks:
                    exits.append((tgt, s2))
                else:
                    pend.setdefault(tgt, []).append(s2)
        return latch, exits, rets

    def block(self, body, fr, x, st):
        bl = body.blocks[x]
        for s in bl["st"]:
            if s["s"] == "=":
                if s.get("sp"):
                    self.site = s["sp"]
                    if body.local:
                        tm.SITE[0] = (s["sp"], body.path)
                v = self.rvalue(st, fr, body, s["rv"])
                self.write(st, fr, body, s["pl"], v)
        t = bl["term"]
        k = t["t"]
        if t.get("sp"):
            self.site = t["sp"]
            if body.local:
                tm.SITE[0] = (t["sp"], body.path)
        if k in ("goto", "drop"):
            return [(t["to"], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "diverge"):
            return []
        if k == "switch":
            return self.switch(body, fr, t, st)
        if k == "assert":
            c = self.operand(st, fr, body, t["x"])
            if not t["exp"]:
                c = NOT(c)
            why = t["msg"]
            if why == "other":
                return [(t["to"], st)]
            if why.startswith("overflow Add") and self.exempt_add(st, fr, body, t):
                if c is not TRUE:
                    st.learn(self.simp(c, st))
                return [(t["to"], st)]
            if not self.oblige(st, why, c):
                return []
            return [(t["to"], st)]
        if k == "call":
            return self.call(body, fr, t, st)
        raise Exception("terminator " + k)

    def exempt_add(self, st, fr, body, t):
        """sums of quantities bounded by memory (lengths, indices) plus small constants cannot overflow usize"""
        ops = t.get("ops") or []
        vs = [self.operand(st, fr, body, o) for o in ops if isinstance(o, dict)]
        return bool(vs) and all(all(mem_bounded(l) for l in leafset(v)) for v in vs)

    def switch(self, body, fr, t, st):
        v = self.simp(self.operand(st, fr, body, t["x"]), st)
        xt = self.prog.types[t["xt"]]
        conds = self.switch_conds(v, t["cases"], t["else"], xt)
        out = {}
        for c, tgt in conds:
            if c is FALSE or c is BOT or tgt is None or body.blocks[tgt] is None:
                continue
            out[tgt] = OR(out[tgt], c) if tgt in out else c
        res = []
        for tgt, c in out.items():
            s = self.refine(st, c)
            if s is not None:
                res.append((tgt, s))
        return res

    def switch_conds(self, v, cases, els, xt):
        if v.op == "sw" or v.op == "int" or v.op == "discr" or xt["k"] == "bool":
            def val(leaf, tgtset, default):
                if leaf is BOT:
                    return BOT
                if leaf.op == "int":
                    return TRUE if (leaf.a[0] in tgtset) != default else FALSE
                if leaf.op == "discr":
                    vs = ADTS.get(leaf.a[1])
                    if vs:
                        kids = {}
                        for i, q in enumerate(vs):
                            dv = q[1] if q[1] is not None else i
                            kids[dv] = TRUE if (dv in tgtset) != default else FALSE
                        return SW(leaf, kids, None)
                if xt["k"] == "bool":
                    kids = {0: TRUE if (0 in tgtset) != default else FALSE, 1: TRUE if (1 in tgtset) != default else FALSE}
                    return SW(leaf, kids, None)
                r = FALSE
                for k in tgtset:
                    r = OR(r, ieq(leaf, I(k)))
                return NOT(r) if default else r
            res = []
            allk = set(int(c[0]) for c in cases)
            for k, tgt in cases:
                res.append((lift(lambda l: val(l, {int(k)}, False), v), tgt))
            if els is not None:
                res.append((lift(lambda l: val(l, allk, True), v), els))
            return res
        res = []
        rest = TRUE
        for k, tgt in cases:
            c = ieq(v, I(int(k)))
            res.append((AND(rest, c), tgt))
            rest = AND(rest, NOT(c))
        if els is not None:
            res.append((rest, els))
        return res

    def call(self, body, fr, t, st):
        args = [self.operand(st, fr, body, o) for o in t["args"]]
        if "fn" in t:
            v = self.do_call(st, t["fn"], args, t)
        else:
            f = self.operand(st, fr, body, t["fnop"])
            v = self.call_value(st, f, args)
        if v is None or t.get("to") is None:
            if t.get("to") is None and v is not None:
                pass
            return []
        self.write(st, fr, body, t["dst"], v)
        return [(t["to"], st)]

    def do_call(self, st, fn, args, t=None):
        """t: the MIR terminator, for operand types; may be None for calls through values"""
        if "ctor" in fn:
            ty, v = fn["ctor"]
            return adt(self.prog.types[ty]["path"], v, *args)
        d = fn["def"]
        name = simp(d)
        m = self.models.get(name)
        inst = fn.get("inst")
        at_ = t["at"] if t else [None] * len(args)
        if d.startswith("core::ops::function::"):
            # closure / fn pointer call
            f = args[0]
            if f.op == "ptr" or f.op == "sw":
                return self.call_value(st, f, self.untuple(args[1]))
            if f.op in ("clo", "fn", "nomp", "choose"):
                return self.call_value(st, f, self.untuple(args[1]))
            if inst and self.prog.body(inst):
                b = self.prog.body(inst)
                if self.prog.types[b.locals[1]]["k"] in ("closure", "ref") and not b.spread:
                    return self.exec_body(inst, [f] + self.untuple(args[1]), st)
            self.unknown[d] = self.unknown.get(d, 0) + 1
            return opq("callfn", *args)
        if m is not None:
            r = m(self, st, args, fn, at_, t)
            if r is not NotImplemented:
                return r
        if inst and self.prog.body(inst):
            return self.exec_body(inst, args, st)
        if t is not None and t.get("to") is None or "panic" in d or "unwrap_failed" in d or "expect_failed" in d:
            self.oblige(st, "panic", FALSE, name)
            return None
        if fn.get("virtual"):
            r = self.devirt(st, fn, args)
            if r is not None:
                return r
        return self.unknown_call(st, d, args)

    def devirt(self, st, fn, args):
        return None

    def unknown_call(self, st, d, args):
        self.unknown[d] = self.unknown.get(d, 0) + 1
        self.event("unknown", d)
        for a in args:
            for leaf in leafset(a):
                if leaf.op == "ptr":
                    self.store_ptr(st, leaf, [], opq("havoc:" + d, self.load_ptr(st, leaf)))
                elif leaf.op != "adt" and getattr(self, "mapentries", False):
                    for x in tm.walk(leaf):
                        if x.op == "opq" and x.a and x.a[0] in ("entryref", "mapentry"):
                            self.store_ptr(st, x.a[1], [], opq("havoc:" + d, self.load_ptr(st, x.a[1])))
        return opq("ext:" + d, *args)

    def untuple(self, x):
        if x.op == "tup":
            return list(x.a)
        return [x]

    def call_value(self, st, f, args):
        f = self.simp(f, st)
        if f.op == "sw":
            def go(st, f):
                if f.op != "sw":
                    return self.call_value(st, f, args)
                kids = list(f.a[1])
                a = f.a[0]
                ks = [k for k, _ in kids]

                def rec(st, i):
                    if i == len(kids):
                        return go(st, f.a[2]) if f.a[2] is not None else None
                    k, x = kids[i]
                    if i == len(kids) - 1 and f.a[2] is None:
                        return go(st, x)
                    c = SW(a, {**{q: FALSE for q in ks}, k: TRUE}, FALSE if f.a[2] is not None else None)
                    return self.branch(st, c, lambda s: go(s, x), lambda s: rec(s, i + 1))
                return rec(st, 0)
            return go(st, f)
        if f is BOT:
            return None
        if f.op == "ptr":
            c = self.load_ptr(st, f)
            if c.op == "clo":
                b = self.prog.body(self.prog.types[c.a[0]]["inst"]) if self.prog.types[c.a[0]].get("inst") else None
                if b is not None and self.is_mut(b.locals[1]):
                    return self.exec_body(b.key, [f] + args, st)
            return self.call_value(st, c, args)
        if f.op == "clo":
            t = self.prog.types[f.a[0]]
            key = t.get("inst")
            b = self.prog.body(key) if key else None
            if b is None:
                return opq("callclo", f, *args)
            if self.is_mut(b.locals[1]):
                p = self.alloc(st, f)
                v = self.exec_body(key, [p] + args, st)
                st.mem.pop(p.a[0].a[0], None)
                return v
            return self.exec_body(key, [f] + args, st)
        if f.op == "fn":
            t = self.prog.types[f.a[0]]
            return self.do_call(st, t["fn"], args)
        if f.op == "nomp":
            return self.models["nom:call"](self, st, f, args)
        self.unknown["indirect call"] = self.unknown.get("indirect call", 0) + 1
        self.event("unknown", "indirect call")
        return opq("callfn", f, *args)

    # ------------------------------------------------------------ loops
    def loop(self, body, fr, header, st):
        blocks = body.loops[header]
        live = set(fr + x for x in (body.live[header] | body.taken))
        lo, hi = fr, fr + 4096
        st.mem = {k: v for k, v in st.mem.items() if not (lo <= k < hi) or k in live}
        inner = {k for k in body.loops if k in blocks and k != header}

        def step(s):
            l, e, r = self.region(body, fr, header, s, blocks, header)
            return l, [(t, q) for t, q in e] + [("ret", q) for q in r]

        def cellty(c):
            if lo <= c < hi:
                return self.prog.types[body.locals[c - lo]]
            return None
        res = self.solve(st, step, cellty, name=(body.path, body.j["blocks"][header]["term"].get("sp")))
        return res

    # --- generic loop summarisation
    def leaf_diff(self, h, l, e, path, out, c, ty):
        """h: value at header, l: value at latch, e: value at entry"""
        if h is l:
            return
        if h in self._mus:
            return
        if h.op == l.op == e.op and h.op in ("adt", "tup", "iter", "file", "clo", "vec", "map") and len(h.a) == len(l.a) == len(e.a):
            if all((type(x) is T) or x == y == z for x, y, z in zip(h.a, l.a, e.a)):
                for i, (x, y, z) in enumerate(zip(h.a, l.a, e.a)):
                    if type(x) is T:
                        u = False
                        if h.op == "adt":
                            u = (h.a[0], h.a[1], i - 2) in UFIELDS
                        if h.op in ("iter", "file"):
                            u = True
                        self.leaf_diff(x, y, z, path + (i,), out, c, {"k": "uint"} if u else None)
                return
        out.append((c, path, e, ty))

    def replace_at(self, v, path, new):
        if not path:
            return new
        a = list(v.a)
        a[path[0]] = self.replace_at(a[path[0]], path[1:], new)
        return tm._mk(v.op, tuple(a))

    def extract_at(self, v, path):
        for i in path:
            if v.op == "sw":
                # same constructor on every branch would have been merged; give up
                return None
            if i >= len(v.a) or type(v.a[i]) is not T:
                return None
            v = v.a[i]
        return v

    def solve(self, st, step, cellty=None, n=None, name=None, adapter=False):
        """Summarise a loop. step(s) -> (latch states, [(target, state)]). Returns [(target, state)].

        With n given (adapters), step(s) receives the index through self._k and there is no header test."""
        saved = getattr(self, "_mus", {})
        try:
            return self._solve(st, step, cellty, n, name, adapter)
        finally:
            self._mus = saved

    def _solve(self, st, step, cellty, n, name, adapter):
        mus = []      # (sym, cell, path, init)
        self._mus = {}
        rounds = 0
        symof = {}
        while True:
            rounds += 1
            h = self.header_state(st, mus)
            self.rec += 1
            self.pcs.append(st.pc)
            latches, exits = step(h.copy())
            self.pcs.pop()
            self.rec -= 1
            lm = self.merge(latches)
            if lm is None:
                break
            out = []
            for c, e in st.mem.items():
                if c < 0:
                    continue
                lv = lm.mem.get(c)
                if lv is None:
                    continue
                ty = cellty(c) if cellty else None
                self.leaf_diff(h.mem[c], lv, e, (), out, c, ty)
            if not out:
                break
            if rounds > 8:
                raise Exception("loop does not stabilise")
            for c, path, e, ty in out:
                # drop mus below this path, init comes from the entry value
                mus = [m for m in mus if not (m[1] == c and m[2][:len(path)] == path)]
                uns = ty is not None and ty["k"] in ("uint", "char")
                s = fresh("u:m" if uns else "m")
                mus.append((s, c, path, self.entry_at(st.mem[c], path)))
            self._mus = {m[0]: m for m in mus}
            # shape preservation
            for s, c, path, init in mus:
                tm.SHAPE.pop(s, None)
            if rounds >= 2 or True:
                self.shape(st, mus, step)
        if lm is None:
            # the body never comes back: a straight-line region
            l, e = self.final(st, step, st.copy())
            return e
        k = fresh("ix")
        h = self.header_state(st, mus)
        nexts = {}
        cc = lm.pc
        for s, c, path, init in mus:
            v = self.extract_at(lm.mem[c], path)
            if v is None:
                v = opq("mu")
            nexts[s] = restrict(v, cc)
        # -- induction variables
        sol = {}
        ind = {}
        syms = [m[0] for m in mus]
        inits = {m[0]: m[3] for m in mus}
        msyms = set(syms)

        def dep(t, ss):
            return any(depends(t, s) for s in ss)
        for s in syms:
            d = sub(nexts[s], s) if nexts[s].op in ("lin", "sym", "int") or is_arith(nexts[s]) else None
            if d is not None and d is not BOT and not dep(d, msyms) and d.op != "sw" and nexts[s].op != "vec" and self.invariant(d, h, st):
                if d.op == "int" or nonneg(d):
                    ind[s] = d
                    sol[s] = add(inits[s], mul(d, k))
        cck = subst(cc, sol)
        N = n
        if N is None:
            N = self.trip(cck, k, msyms, exits, sol)
        if N is not None and not adapter:
            u = self.upper(N)
            if u is not None and u <= 8:
                return self.unroll(st, step, u)
        if N is None:
            if not mus and not exits:
                return []
            if cck.op == "sw" and not adapter and n is None and self.splits < 6 and not depends(cck.a[0], k) and not dep(cck.a[0], msyms):
                # the number of rounds depends on a decision taken before: one loop for each case
                a = cck.a[0]
                keys = [x for x, _ in cck.a[1]]
                conds = [SW(a, {x: TRUE}, FALSE) for x in keys]
                if cck.a[2] is not None:
                    conds.append(NOT(OR(*conds)))
                res = []
                self.splits += 1
                try:
                    for c in conds:
                        s1 = self.refine(st, c)
                        if s1 is None:
                            continue
                        fs = dict(when_true(c))
                        for x, v in s1.mem.items():
                            if type(v) is T and v.op == "sw":
                                s1.mem[x] = passume(v, fs)
                        res += self._solve(s1, step, cellty, n, name, adapter)
                finally:
                    self.splits -= 1
                return res
            return self.havoc_loop(st, step, mus, nexts, cc, exits, ind, name)
        # -- other loop-carried values
        left = [s for s in syms if s not in sol]
        progress = True
        while left and progress:
            progress = False
            for s in list(left):
                nx = subst(nexts[s], sol)
                v = self.closed(s, nx, inits[s], k, N, [x for x in left if x is not s], msyms)
                if v is not None:
                    sol[s] = v
                    left.remove(s)
                    progress = True
        if left:
            inv = self.index_fields(left, inits, nexts, sol)
            if inv:
                import prove
                for l, e in inv.items():
                    w = l
                    while w.a[0].op == "fld":
                        w = w.a[0]
                    # an index is no less than 0
                    care = SW(discr_of(w.a[0], w.a[1]), {variant_discr(w.a[1], w.a[2]): ge0(e)}, TRUE)
                    for x in left:
                        nexts[x] = restrict(nexts[x], care)
                for x in left:
                    nexts[x] = prove.replace(nexts[x], inv)
            ss = fresh("ix")
            ls = list(left)
            nxs = [subst(subst(nexts[x], sol), {k: ss}) for x in ls]
            for j, x in enumerate(ls):
                f = foldv(j, k, ss, ls, [inits[y] for y in ls], nxs)
                sol[x] = f
            for l, e in inv.items():
                tm.INV[subst(l, sol)] = subst(e, sol)
        # closed forms may mention other mus: resolve
        for _ in range(len(syms) + 1):
            ch = False
            for s in syms:
                if dep(sol[s], msyms):
                    sol[s] = subst(sol[s], {x: sol[x] for x in syms if x is not s})
                    ch = True
            if not ch:
                break
        # -- exits
        early = FALSE
        if not adapter:
            nat = []
            for tgt, q in exits:
                pcq = subst(q.pc, sol)
                inloop = passume(pcq, self.bound_facts(k, N))
                early = OR(early, inloop)
            if tm.has_dd(early) is False and early is TRUE:
                pass
        else:
            for tgt, q in exits:
                early = OR(early, subst(q.pc, sol))
        # final, recording pass at iteration k
        s0 = self.header_state(st, [(m[0], m[1], m[2], sol[m[0]]) for m in mus], True)
        s0.facts = dict(st.facts)
        s0.learn(st.pc)
        s0.facts[tm._mk("ge0", (k,))] = 1
        rest = sub(N, k)
        if adapter:
            rest = sub(rest, ONE)
        c = ge0(rest)
        if c is not TRUE and c is not FALSE:
            s0.learn(c)
        j = fresh("ix")
        if early is not FALSE:
            ej = subst(early, {k: j})
            none_before = NOT(Any(k, j, ej))
            s0.learn(none_before)
        self.pcs.append(st.pc)
        self._k = k
        latches, exits = step(s0)
        self.pcs.pop()
        if not self.rec:
            self.loops.append(dict(name=name, k=k, N=N, mus=mus, nexts=nexts, sol=sol, early=early, exits=exits, cc=cc,
                                   stack=tuple(self.stack), latch=self.merge(latches)))
        res = []
        found = FALSE
        if early is not FALSE:
            ej = subst(early, {k: j})
            found = Any(N, j, ej)
            fst = First(N, j, ej)
        self._found = (found, fst if early is not FALSE else None)
        if adapter:
            m = self.merge(latches)
            fin = self.leave(st, m, mus, sol, k, N, adapter=True) if m is not None else None
            if fin is not None:
                res.append(("end", fin, k, m))
            for tgt, q in exits:
                q2 = self.leave_at(st, q, k, fst, found, subst(q.pc, {}))
                if q2 is not None:
                    res.append((tgt, q2, k, None))
            return res
        for tgt, q in exits:
            pcq = q.pc
            natural = passume(pcq, self.out_facts(k, N))
            inloop = passume(pcq, self.bound_facts(k, N))
            if natural is not FALSE and natural is not BOT and subst(natural, {k: N}) is not FALSE:
                cN = subst(natural, {k: N})
                q2 = self.leave_at(st, q, k, N, NOT(found), cN)
                if q2 is not None:
                    res.append((tgt, q2))
            if inloop is not FALSE and inloop is not BOT:
                q2 = self.leave_at(st, q, k, fst, found, inloop)
                if q2 is not None:
                    res.append((tgt, q2))
        return res

    def bound_facts(self, k, N):
        f = {tm._mk("ge0", (k,)): 1}
        c = lt(k, N)
        for a, v in when_true(c):
            f[a] = v
        return f

    def out_facts(self, k, N):
        f = {tm._mk("ge0", (k,)): 1}
        c = NOT(lt(k, N))
        for a, v in when_true(c):
            f[a] = v
        return f

    def leave_at(self, st, q, k, kv, cond, pcq):
        pcx = subst(pcq, {k: kv})
        c = AND(cond, pcx)
        s = St({}, AND(st.pc, c), dict(st.facts))
        if s.pc is FALSE or s.pc is BOT:
            return None
        s.learn(c)
        for cc, v in q.mem.items():
            s.mem[cc] = subst(v, {k: kv}) if depends(v, k) else v
        for a, v in q.facts.items():
            if not a.fs or not depends(a, k):
                s.facts.setdefault(a, v)
            else:
                for a2, v2 in when_true(sw_on(subst(a, {k: kv}), {v: TRUE}, FALSE)):
                    s.facts.setdefault(a2, v2)
        return s

    def leave(self, st, m, mus, sol, k, N, adapter=False):
        """state after an adapter loop has consumed all elements"""
        s = self.header_state(st, [(x[0], x[1], x[2], subst(sol[x[0]], {k: N})) for x in mus], True)
        return s

    def entry_at(self, v, path):
        for i in path:
            v = v.a[i]
        return v

    def header_state(self, st, mus, vals=False):
        s = St(dict(st.mem), TRUE, dict(st.facts))
        s.learn(st.pc)
        bycell = {}
        for m in mus:
            bycell.setdefault(m[1], []).append(m)
        for c, ms in bycell.items():
            v = st.mem[c]
            for m in ms:
                v = self.replace_at(v, m[2], m[3] if vals else m[0])
            s.mem[c] = v
        if mus and not vals:
            # facts about values that change are about the entry value: they remain true of those terms
            pass
        return s

    def shape(self, st, mus, step):
        """mark sequence-valued mus whose updates keep the shape of the entry value"""
        cand = [m for m in mus if self.seqish(m[3])]
        if not cand:
            return
        for m in cand:
            tm.SHAPE[m[0]] = m[3]
        while cand:
            h = self.header_state(st, mus)
            self.rec += 1
            self.pcs.append(st.pc)
            latches, _ = step(h)
            self.pcs.pop()
            self.rec -= 1
            lm = self.merge(latches)
            if lm is None:
                return
            bad = []
            for m in cand:
                v = self.extract_at(lm.mem[m[1]], m[2]) if m[1] in lm.mem else None
                if v is None or not self.same_shape(v, m[0]):
                    bad.append(m)
            if not bad:
                return
            for m in bad:
                tm.SHAPE.pop(m[0], None)
                cand.remove(m)

    def seqish(self, t):
        if t in tm.SHAPE or t.op in ("for", "lit", "cat", "upd", "sorted"):
            return True
        if t.op == "sw":
            return all(self.seqish(l) for l in leafset(t) if l is not BOT)
        r = tm.shape_root(t)
        return r is not t and self.seqish(r)

    def same_shape(self, v, s):
        """v is s with elements replaced, none of them by a sequence of another shape"""
        if v is s or v is BOT:
            return True
        if v.op == "sw":
            return all(self.same_shape(l, s) for l in leafset(v))
        if v.op == "upd":
            return self.same_shape(v.a[0], s) and self.elem_shape(v.a[2], s, v.a[1])
        if v in tm.SHAPE:
            return self.same_shape(tm.SHAPE[v], s)
        if v.op == "foldv" and v.a[5][v.a[0]]:
            return self.same_shape(v.a[3][v.a[0]], s)
        if v.op == "at" and s.op == "at" and v.a[1] is s.a[1]:
            return self.same_shape(v.a[0], s.a[0])
        return False

    def elem_shape(self, v, s, i):
        if v.op == "sw":
            return all(self.elem_shape(l, s, i) for l in leafset(v))
        old = at(tm.shape_root(s), i)
        if all(l.op in ("int", "flt", "lin", "adt", "tup", "vec", "bot") for l in leafset(old)):
            return True   # the elements are no sequences
        return self.same_shape(v, tm._mk("at", (s, i)))

    def invariant(self, d, h, st):
        return True

    def index_fields(self, left, inits, nexts, sol):
        """numbers kept in a carried control state that always are the index of the last element of a carried sequence:
        {field of the state: that index}, by induction over the rounds"""
        import prove
        nx = {s: subst(nexts[s], sol) for s in left}
        ctl, seqs = {}, []
        for s in left:
            ls = [l for l in leafset(nx[s]) + leafset(inits[s]) if l is not BOT and l is not s]
            if ls and all(l.op == "adt" and len(tm.ADTS[l.a[0]]) > 1 for l in ls):
                ctl[s] = ls
            elif ls and all(l.op in ("lit", "cat", "for", "upd", "foldv") for l in ls):
                seqs.append(s)
        if not ctl or not seqs:
            return {}

        def fields(a, at):
            for i, x in enumerate(a.a[2:]):
                t = fld(at, a.a[0], a.a[1], i)
                if x.op == "adt" and len(tm.ADTS[x.a[0]]) == 1:
                    yield from fields(x, t)
                elif x.op not in ("adt", "vec", "str"):
                    yield t, x
        lens = set()
        todo, seen = [nx[s] for s in left], set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "len" and any(t.a[0] is y or t.a[0].op == "fld" and depends(t.a[0], y) for y in seqs):
                lens.add(t.a[0])
            todo += tm.children(t)
        last = {y: sub(length(y), ONE) for y in seqs}
        exprs = set(last.values())
        for q in lens:
            if q.op == "fld" and q.a[0].op == "at" and q.a[0].a[0] in last:
                y = q.a[0].a[0]
                exprs.add(sub(length(fld(tm.at(y, last[y]), *q.a[1:])), ONE))
        cand = set()
        for x, ls in ctl.items():
            for a in ls:
                for t, _ in fields(a, x):
                    cand.update((x, t, e) for e in exprs)
        if not cand or len(cand) > 60:
            return {}
        order = sorted(cand, key=lambda c: (c[1].id, c[2].id))

        def follows(x, t, e, hyp):
            """the claim in the next round, given the claims hyp about this one"""
            m = {}
            for _, l, v in hyp:
                m.setdefault(l, v)
            nz = {s: prove.replace(nx[s], m) for s in left}
            for p, leaf in leaves(nz[x]):
                if leaf is BOT or leaf is x:
                    continue
                val = subst(t, {x: leaf})
                if val is BOT:
                    continue
                lits = prove.lits_of({a: k for a, k in p if k is not None})
                ny = {y: passume(nz[y], lits) for y in seqs}
                if not self.equal_under(val, subst(e, ny), lits):
                    return False
            # rounds that leave the state as it is
            for p, leaf in leaves(nz[x]):
                if leaf is x:
                    w = root(t, x)
                    lits = {a: k for a, k in p if k is not None}
                    d = discr_of(x, w[1])
                    v = variant_discr(w[1], w[2])
                    if lits.get(d, v) != v:
                        continue
                    lits[d] = v
                    lits = prove.lits_of(lits)
                    ny = {y: passume(nz[y], lits) for y in seqs}
                    if not self.equal_under(m.get(t, t), subst(e, ny), lits):
                        return False
            return True

        def root(t, x):
            while t.a[0] is not x:
                t = t.a[0]
            return t.a

        def starts(x, t, e):
            return all(subst(t, {x: l}) is BOT for l in leafset(inits[x]))
        live = [c for c in order if starts(*c)]
        changed = True
        while changed:
            changed = False
            for c in list(live):
                # one claim about each field at a time
                hyp = [c] + [d for d in live if d[1] is not c[1]]
                if not follows(*c, hyp):
                    live.remove(c)
                    changed = True
        out = {}
        for x, t, e in live:
            out.setdefault(t, e)
        return out

    def equal_under(self, v, w, lits):
        d = passume(sub(v, w), lits)
        return all(l is ZERO or l is BOT for l in leafset(d))

    def trip(self, cc, k, msyms, exits, sol):
        """iteration count bound forced by staying in the loop"""
        Ns = []
        for a, v in when_true(cc):
            if a.op == "ge0":
                e = a.a[0]
                c, d = tm._lin_parts(e)
                if v == 0:
                    c, d = -c - 1, {t: -x for t, x in d.items()}
                kk = d.get(k)
                if kk is None or kk >= 0 or kk != int(kk):
                    continue
                r = {t: x for t, x in d.items() if t is not k}
                if any(depends(t, s) for t in r for s in msyms | {k}):
                    continue
                L = tm.mk_lin(c, r)
                # k*kk + L >= 0  ->  k <= L / -kk
                if kk == -1:
                    Ns.append(monus(add(L, ONE), ZERO))
                else:
                    b = I(int(-kk))
                    Ns.append(idiv(monus(add(L, b), ZERO), b))
            elif a.op == "eq0" and v == 0:
                pass
        # length atoms appear as ge0(len - 1) for k = 0 based loops; handled above through k
        if not Ns:
            return None
        r = Ns[0]
        for x in Ns[1:]:
            r = imin(r, x)
        return r

    def closed(self, s, nx, init, k, N, others, msyms):
        """value of the loop-carried s at the start of iteration k, or None"""
        if any(depends(nx, o) for o in others):
            return None
        j = fresh("ix")

        def at_j(x):
            return subst(x, {k: j})
        if not depends(nx, s):
            # value of the previous iteration
            prev = subst(nx, {k: sub(k, ONE)})
            return ite(ge0(sub(k, ONE)), prev, init)
        # accumulation at the end of a sequence
        x = self.acc_tail(nx, s)
        if x is not None and not depends(x, s):
            return cat(init, For(k, j, at_j(x)))
        if nx.op == "lin" or (nx.op == "sw" and all(l is BOT or l is s or (l.op == "lin") for l in leafset(nx))):
            d = lift(lambda l: sub(l, s), nx)
            if not depends(d, s):
                return add(init, Sum(k, j, at_j(d)))
        if nx.op == "sw" and not any(depends(a, s) for a in dd_atoms(nx)):
            lv = [l for l in leafset(nx) if l is not BOT and l is not s]
            if len(lv) == 1 and not depends(lv[0], s) and not depends(lv[0], k):
                c = lift(lambda l: FALSE if l is s else (BOT if l is BOT else TRUE), nx)
                return ite(Any(k, j, at_j(c)), lv[0], init)
        # element-wise update
        e = self.elementwise(nx, s, k)
        if e is not None:
            f = e
            i = fresh("ix")
            L = length(init)
            body = ite(lt(i, k), subst(subst(f, {}), {}), at(init, i)) if False else None
            old = at(init, i)
            new = subst(f, {at(s, k): old, k: i}) if not has_raw(f, s, k) else None
            if new is not None and not depends(new, s):
                return For(L, i, lit(ite(lt(i, k), new, old)))
        return None

    def acc_tail(self, nx, s):
        """nx = s ++ x"""
        if nx is s:
            return NIL
        if nx.op == "cat" and nx.a[0] is s:
            return cat(*nx.a[1:])
        if nx.op == "sw":
            kids = {}
            for kk, v in nx.a[1]:
                x = self.acc_tail(v, s) if v is not BOT else BOT
                if x is None:
                    return None
                kids[kk] = x
            d = None
            if nx.a[2] is not None:
                d = self.acc_tail(nx.a[2], s) if nx.a[2] is not BOT else BOT
                if d is None:
                    return None
            return SW(nx.a[0], kids, d)
        return None

    def elementwise(self, nx, s, k):
        if nx.op == "upd" and nx.a[0] is s and nx.a[1] is k:
            return nx.a[2]
        if nx.op == "sw":
            kids = {}
            ls = leafset(nx)
            if not any(l.op == "upd" for l in ls):
                return None
            for kk, v in nx.a[1]:
                kids[kk] = BOT if v is BOT else at(s, k) if v is s else self.elementwise(v, s, k)
            d = nx.a[2]
            if d is not None:
                d = BOT if d is BOT else at(s, k) if d is s else self.elementwise(d, s, k)
                if d is None:
                    return None
            return None if None in kids.values() else SW(nx.a[0], kids, d)
        return None

    def upper(self, n):
        """a constant upper bound that is visible in the term"""
        if n.op == "int":
            return n.a[0]
        if n.op == "min":
            us = [u for u in map(self.upper, n.a) if u is not None]
            return min(us) if us else None
        return None

    def unroll(self, st, step, n):
        out = []
        cur = st.copy()
        pc0 = cur.pc
        for i in range(n + 1):
            s = St(dict(cur.mem), TRUE, dict(cur.facts))
            s.learn(cur.pc)
            self.pcs.append(cur.pc)
            latches, exits = step(s)
            self.pcs.pop()
            for tgt, q in exits:
                q.pc = AND(cur.pc, q.pc)
                if q.pc is not FALSE:
                    out.append((tgt, q))
            m = self.merge(latches)
            if m is None:
                return out
            m.pc = AND(cur.pc, m.pc)
            if m.pc is FALSE:
                return out
            cur = m
        raise Exception("unroll bound")

    def havoc_loop(self, st, step, mus, nexts, cc, exits, ind, name):
        """no trip count: carried values become unknowns with inductive facts"""
        vals = {}
        facts = {}
        for s, c, path, init in mus:
            vals[s] = s
        s0 = self.header_state(st, mus)
        inv = []
        # monotone integers: next <= s (or >= s) under cc, and unsigned
        for s, c, path, init in mus:
            nx = nexts[s]
            if not (is_arith(nx) or nx.op in ("sym", "sw", "lin")):
                continue
            lv = [l for l in leafset(nx) if l is not BOT]
            if all(is_arith(l) or l is s or l.op == "lin" for l in lv):
                ds = [sub(l, s) for l in lv]
                if all(prove.bounds(d)[1] is not None and prove.bounds(d)[1] <= 0 for d in ds):
                    inv.append(le(s, init))
                if all(nonneg(d) or (prove.bounds(d)[0] is not None and prove.bounds(d)[0] >= 0) for d in ds):
                    inv.append(le(init, s))
        for c in inv:
            s0.learn(c)
        # linear equalities between carried integers (e.g. all decrease together) and candidate bounds
        self.pcs.append(st.pc)
        latches, exits = step(s0.copy())
        self.pcs.pop()
        if not self.rec:
            self.loops.append(dict(name=name, k=None, N=None, mus=mus, nexts=nexts, sol=None, early=None, exits=exits, cc=cc,
                                   stack=tuple(self.stack), latch=self.merge(latches), inv=inv))
            self.events.append(("while", (name, mus, nexts, cc, inv), self.site, tuple(self.stack)))
        res = []
        for tgt, q in exits:
            q.pc = AND(st.pc, q.pc)
            res.append((tgt, q))
        return res

    def final(self, st, step, s):
        s.pc = TRUE
        self.pcs.append(st.pc)
        l, e = step(s)
        self.pcs.pop()
        for t, q in e:
            q.pc = AND(st.pc, q.pc)
        return l, e

    # ------------------------------------------------------------ sequences with (possibly) effectful element functions
    def each(self, st, seq, f, indexed=False):
        """concatenation over the elements x of seq of f(st, x[, i]); f may change the state and returns a
        sequence term or None (no element survives: the function never returns)"""
        return self._each(st, seq, f, ZERO if indexed else None)

    def _each(self, st, seq, f, off):
        if seq.op == "lz":
            seq = self.force(st, seq)
        seq = self.simp(seq, st)
        if seq is BOT:
            return None
        if seq.op == "lit":
            out = []
            for i, x in enumerate(seq.a):
                v = f(st, x, add(off, I(i)) if off is not None else None)
                if v is None:
                    return None
                out.append(v)
            return cat(*out)
        if seq.op == "cat":
            out = []
            for p in seq.a:
                v = self._each(st, p, f, off)
                if v is None:
                    return None
                out.append(v)
                if off is not None:
                    off = add(off, length(p))
            return cat(*out)
        if seq.op == "sw":
            a = seq.a[0]
            kids = list(seq.a[1])
            ks = [k for k, _ in kids]

            def rec(st, i):
                if i == len(kids):
                    return self._each(st, seq.a[2], f, off) if seq.a[2] is not None else None
                k, x = kids[i]
                if x is BOT:
                    return rec(st, i + 1)
                if i == len(kids) - 1 and seq.a[2] is None:
                    return self._each(st, x, f, off)
                c = SW(a, {**{q: FALSE for q in ks}, k: TRUE}, FALSE if seq.a[2] is not None else None)
                return self.branch(st, c, lambda s: self._each(s, x, f, off), lambda s: rec(s, i + 1))
            return rec(st, 0)
        if seq.op == "for" and off is None:
            n = seq.a[0]
            h, b = seq.a[1], seq.a[2]

            def body(s, k):
                return self._each(s, subst(b, {bvar(h): k}), f, None)
            return self.over(st, n, body)
        n = length(seq)

        def body(s, k):
            return f(s, at(seq, k), add(off, k) if off is not None else None)
        return self.over(st, n, body)

    def over(self, st, n, body):
        """for k in 0..n: body(st, k) -> sequence; returns the concatenation"""
        n = self.simp(n, st)
        if n.op == "sw":
            # distribute
            a = n.a[0]
            kids = list(n.a[1])
            ks = [k for k, _ in kids]

            def rec(st, i):
                if i == len(kids):
                    return self.over(st, n.a[2], body) if n.a[2] is not None else None
                k, x = kids[i]
                if x is BOT:
                    return rec(st, i + 1)
                if i == len(kids) - 1 and n.a[2] is None:
                    return self.over(st, x, body)
                c = SW(a, {**{q: FALSE for q in ks}, k: TRUE}, FALSE if n.a[2] is not None else None)
                return self.branch(st, c, lambda s: self.over(s, x, body), lambda s: rec(s, i + 1))
            return rec(st, 0)
        if n is ZERO:
            return NIL
        if n is ONE:
            return body(st, ZERO)
        k = fresh("ix")
        s = St(dict(st.mem), TRUE, dict(st.facts))
        s.learn(st.pc)
        c = lt(k, n)
        if c is not TRUE:
            s.learn(c)
        no, ne, nl, nr = len(self.obls), len(self.events), len(self.loops), len(self.reccalls)
        self.pcs.append(st.pc)
        v = body(s, k)
        self.pcs.pop()
        if v is None:
            # every element panics: only an empty sequence survives
            st.learn(NOT(ge0(sub(n, ONE))))
            return NIL
        changed = [cc for cc, x in st.mem.items() if s.mem.get(cc, x) is not x and cc >= 0]
        if not changed:
            return For(n, k, v)
        del self.obls[no:], self.events[ne:], self.loops[nl:], self.reccalls[nr:]
        if n.op == "int" and n.a[0] <= 8:
            out = []
            for i in range(n.a[0]):
                x = body(st, I(i))
                if x is None:
                    return None
                out.append(x)
            return cat(*out)
        # effectful: the loop solver with the produced piece in a pseudo cell
        _frames[0] += 1
        rc = _frames[0] << 12
        _frames[0] += 1
        kc = _frames[0] << 12

        def step(s):
            kk = s.mem[kc]
            v = body(s, kk)
            if v is None:
                return [], []
            s.mem[rc] = cat(s.mem[rc], v)
            s.mem[kc] = add(kk, ONE)
            return [s], []
        st.mem[rc] = NIL
        st.mem[kc] = ZERO
        res = self.solve(st, step, lambda c: {"k": "uint"} if c == kc else None, n=n, adapter=True)
        ends = [r for r in res if r[0] == "end"]
        if not ends:
            return None
        fin = ends[0][1]
        fin.pc = st.pc
        v = fin.mem.pop(rc)
        fin.mem.pop(kc)
        st.mem.pop(rc, None)
        st.become(fin)
        return v

    def force(self, st, seq):
        """evaluate a lazy adapter"""
        if seq.op == "sw":
            return lift(lambda s: self.force(st, s), seq)
        if seq.op == "cat" and any(p.op == "lz" for p in seq.a):
            return cat(*[self.force(st, p) for p in seq.a])
        if seq.op != "lz":
            return seq
        kind, src, f = seq.a
        src = self.force(st, src)
        return self.models["adapt:" + kind](self, st, src, f)


def passume(t, facts):
    """assume with arithmetic consequences of known comparisons"""
    if t.op != "sw" or not facts:
        return t
    a = t.a[0]
    k = facts.get(a)
    if k is None:
        k = prove.atom_value(a, facts)
    if k is not None:
        return passume(cof(t, a, k), facts)
    kids = {kk: passume(x, facts) for kk, x in t.a[1]}
    d = passume(t.a[2], facts) if t.a[2] is not None else None
    return SW(a, kids, d)


def Fl(v):
    try:
        f = float(v)
    except ValueError:
        return tm._mk("flt", (str(v),))
    if f != f or f in (float("inf"), float("-inf")):
        return tm._mk("flt", (str(v),))
    if f == int(f) and abs(f) < 1e15:
        return I(int(f))
    return tm._mk("flt", (repr(f),))


def flt(a, b):
    def f(x, y):
        if x.op == "int" and y.op == "int":
            return TRUE if x.a[0] < y.a[0] else FALSE
        return B(tm._mk("app", ("flt", x, y))) if x is not BOT and y is not BOT else BOT
    return lift(f, a, b)


def fle(a, b):
    def f(x, y):
        if x.op == "int" and y.op == "int":
            return TRUE if x.a[0] <= y.a[0] else FALSE
        if x is BOT or y is BOT:
            return BOT
        # x <= y: neither is NaN and not y < x
        return AND(*[NOT(B(app("isnan", z))) for z in (x, y) if z.op not in ("int", "flt")], NOT(flt(y, x)))
    return lift(f, a, b)


def shl(a, b, t):
    if a is ONE:
        v = app("pow2", b)
        return v
    return app("shl", S(t["name"]), a, b)


def bitand(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] & b.a[0])
    if a.op == "int" and a.a[0] >= 0 or b.op == "int" and b.a[0] >= 0:
        c, x = (a, b) if a.op == "int" else (b, a)
        m = c.a[0] + 1
        if m & (m - 1) == 0 and nonneg(x):
            return irem(x, I(m))
    x, y = (a, b) if a.id <= b.id else (b, a)
    v = app("and", x, y)
    if nonneg(a) or nonneg(b):
        UNSIGNED.add(v)
    return v


def wrap(x, t):
    return x


def has_raw(f, s, k):
    """does f use s other than through at(s,k)?"""
    a = at(s, k)
    z = subst(f, {a: ZERO})
    return depends(z, s)


def mem_bounded(v):
    if v.op == "int":
        return abs(v.a[0]) < (1 << 40)
    if v.op in ("len", "first"):
        return True
    if v.op == "sym":
        return v.a[0].startswith("ix") or v.a[0].startswith("u:m")
    if v.op == "lin":
        return all(mem_bounded(t) and abs(k) < (1 << 20) for t, k in v.a[1])
    if v.op in ("monus",):
        return mem_bounded(v.a[0])
    if v.op in ("min", "max", "idiv"):
        return all(mem_bounded(x) for x in v.a)
    if v.op == "sum":
        return all(mem_bounded(l) for l in leafset(v.a[2]))
    if v.op == "b":
        return True
    if v.op in ("at", "fld", "prj"):
        # an element of a table built in memory (indices, counts), not of caller or file data
        while v.op in ("at", "fld", "prj", "take", "skip"):
            v = v.a[0]
        return v.op in ("for", "cat", "foldv", "upd")
    return False


def display_impl(self, path):
    c = getattr(self, "_disp", None)
    if c is None:
        c = self._disp = {}
        for r in self.prog.roots:
            if r["name"] == "fmt" and (r.get("trait") or "").endswith("as core::fmt::Display>"):
                c[r["self"]] = r["key"]
    k = c.get(path)
    return k if k in self.prog.d["bodies"] else None


Interp.display_impl = display_impl

tm.ASSUME = passume
