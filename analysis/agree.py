"""Agreement of two value terms, restricted to what a property observes.

`want` decides which fields of a constructed value matter; a projection that could not be carried out turns into a
demand on the value it projects from.  Loop results are compared as simulations: the initial values agree, and
assuming the carried values agree, so do the next ones.
"""
import itertools
import terms as tm
from terms import *

ALL = ("all",)
NONE = ("none",)
W = ("want",)


def elem(D):
    if D is ALL or D is NONE or D is W:
        return D
    if D[0] == "elem":
        return D[1]
    return ALL


class Mismatch(Exception):
    pass


class Agree:
    def __init__(self, want=None, cut=None, errs=NONE, limit=3000000):
        self.errs = errs
        self.want = want or (lambda path, variant, name, i: W)
        self.cut = cut or (lambda a, b, D: False)
        self.memo = {}
        self.bad = None
        self.quiet = 0
        self.steps = 0
        self.limit = limit
        self.trail = []
        self.log = []
        self.facts = []          # decisions on the way here: (atom, value, environment of its side)
        self.excused = 0
        self.level = {}
        self.qmark = 0
        self.retries, self.maxretries = 0, 400
        self.work, self.maxwork = 0, 400000    # terms visited while refining
        self.closed = {}
        self.splits = 0          # cases on parts of sequences, one inside the other

    # ------------------------------------------------------------ entry
    def same(self, a, b, D=W):
        self.bad = None
        return self.eq(a, b, D, {}, {})

    def fail(self, a, b, D, why=""):
        if self.bad is None and len(self.facts) > self.qmark and self.vacuous():
            self.excused += 1
            return True
        if not self.quiet and self.bad is None:
            self.bad = (a, b, D, list(self.trail), why)
        return False

    # ------------------------------------------------------------ unreachable cases
    def close(self, t, e):
        """t with its bound names replaced: an index by a symbol common to both sides, a carried value by the loop so far"""
        if not any(x < 0 for x in t.fs):
            return t
        k = (t, self.env(t, e))
        r = self.closed.get(k)
        if r is None:
            m = {}
            for h, p in k[1]:
                if p[0] == "ix":
                    m[tm.bvar(h)] = m[tm.avar(h)] = self.ixsym(p)
                else:
                    _, a, i, outer, tag = p
                    o = dict(outer)
                    n = self.ixsym(("ix",) + tuple(tag[4]))
                    x = tm._mk("foldv", (i, n, a.a[2], tuple(self.close(y, o) for y in a.a[3]),
                                         tuple(self.close(y, o) for y in a.a[4]), a.a[5]), bind=a.a[2])
                    m[tm.bvar(h)] = m[tm.avar(h)] = x
            r = self.closed[k] = tm.subst(t, m)
        return r

    def ixsym(self, p):
        r = self.closed.get(p)
        if r is None:
            r = self.closed[p] = tm.fresh("ix")
        return r

    def refine(self, t, e, left):
        import prove
        m, lits = {}, {}
        back = {v: h for h, v in e.items() if v[0] == "ix"}
        for f in self.facts[self.qmark:]:
            if f[0] == "range":
                if f[4] is not left:
                    continue
                _, p, n, fe, _ = f
                h = p[1] if left else p[2]
                c = AND(tm.ge0(tm.bvar(h)), tm.lt(tm.bvar(h), n))
                for x, k in tm.when_true(c):
                    lits[x] = k
                continue
            a, k, fe, _ = f
            if any(x < 0 and fe.get(-x) != e.get(-x) for x in a.fs) or f[3] is not left and any(x < 0 for x in a.fs):
                # a decision of the other side, in the names of this one
                tr = {}
                for x in a.fs:
                    if x < 0:
                        h = back.get(fe.get(-x))
                        if h is None:
                            break
                        tr[tm.bvar(-x)] = tm.bvar(h)
                else:
                    a = tm.subst(a, tr)
                    if a.op not in ("int", "sw"):
                        lits.setdefault(a, k)
                continue
            if f[3] is not left:
                c = self.counterpart(a, t, left)
                if c is not a:
                    for x, v in tm.when_true(c if k else tm.NOT(c)):
                        lits.setdefault(x, v)
                    continue
            lits[a] = k
            if a.op == "eq0" and k == 1:
                c, d = tm._lin_parts(a.a[0])
                for x, q in d.items():
                    if q in (1, -1) and x.op in ("sum", "len", "b", "sym", "first") and x not in m:
                        v = tm.sub(x, tm.scale(a.a[0], q))
                        if x not in tm.walk(v, set()):
                            m[x] = v
                            break
        return self.simplify(t, lits, m) if lits else t

    def counterpart(self, a, t, left):
        """a decision of the other side about the numbers that occur in t"""
        if a.op not in ("ge0", "eq0"):
            return a
        k = (a, t, left)
        r = self.closed.get(k)
        if r is None:
            m = {}
            c, d = tm._lin_parts(a.a[0])
            for x in d:
                if x.op not in ("sum", "first") or x.fs and min(x.fs) < 0:
                    continue
                ys = self.numbers(t, x.op)
                if x in ys:
                    continue
                n = tm.size(x)
                for y in ys:
                    if abs(tm.size(y) - n) <= 2 + n // 16 and (self.q(y, x, ALL, {}, {}) if left else self.q(x, y, ALL, {}, {})):
                        m[x] = y
                        break
            r = a
            if m:
                e = I(c)
                for x, q in d.items():
                    e = tm.add(e, tm.scale(m.get(x, x), q))
                r = tm.ge0(e) if a.op == "ge0" else tm.eq0(e)
            self.closed[k] = r
        return r

    def numbers(self, t, op):
        """the closed numbers of this kind in t"""
        r = self.closed.get((t, op))
        if r is None:
            r = self.closed[t, op] = [x for x in tm.walk(t, set()) if x.op == op and not (x.fs and min(x.fs) < 0)]
        return r

    def simplify(self, t, lits, m):
        """t, knowing the values of some decisions and of some terms"""
        import prove

        def known(c):
            if c.op == "int":
                return c.a[0]
            if c.op == "sw":
                a = c.a[0]
                k = lits.get(a)
                if k is None:
                    k = prove.atom_value(a, lits)
                return None if k is None else known(tm.cof(c, a, k))

        none = {}
        for a, k in lits.items():
            if a.op == "any" and k == 0:
                none.setdefault(a.a[0], []).append(a)

        def f(x):
            self.work += 1
            r = m.get(x)
            if r is not None:
                return r
            if none and x.op in tm.BINDERS and x.a[0] in none and lits.get(x) is None:
                # no index of this range satisfies these conditions
                i = tm.fresh("ix")
                b = b0 = tm.subst(x.a[2], {tm.bvar(x.a[1]): i})
                for a in none[x.a[0]]:
                    b = tm.restrict(b, tm.NOT(tm.subst(a.a[2], {tm.bvar(a.a[1]): i})))
                if b is not b0:
                    return {"for": tm.For, "sum": tm.Sum, "any": tm.Any, "first": tm.First}[x.op](x.a[0], i, b)
            if x.op == "sw":
                k = lits.get(x.a[0])
                if k is None:
                    k = prove.atom_value(x.a[0], lits)
                return x if k is None else f(tm.cof(x, x.a[0], k))
            if x.op in ("min", "max"):
                p, q = x.a
                for p, q in ((p, q), (q, p)):
                    if known(tm.le(p, q)) == 1:
                        return p if x.op == "min" else q
            if x.op == "monus":
                if known(tm.ge0(tm.sub(x.a[0], tm.ONE))) == 0:
                    return ZERO
                return x.a[0] if known(tm.ge0(x.a[0])) == 1 else x
            return x
        return tm.rewrite(t, f)

    def vacuous(self):
        """do the decisions taken on the way here contradict each other?"""
        import prove, interp
        lits = {}

        def add(c):
            for a, k in tm.when_true(c):
                if lits.get(a, k) != k:
                    return True
                lits[a] = k
                v = prove.atom_value(a, {x: y for x, y in lits.items() if x is not a})
                if v is not None and v != k:
                    return True
            return False
        facts = self.facts[self.qmark:]
        for f in facts:
            if f[0] == "range":
                _, p, n, e, _ = f
                n = self.close(n, e)
                i = self.ixsym(p)
                if add(AND(tm.ge0(i), tm.lt(i, n))):
                    return True
                continue
            a, k, e, _ = f
            c = self.close(a, e)
            if c.op == "sw":
                if k in (0, 1) and a.op not in ("discr",):
                    if c is (TRUE if k == 0 else FALSE) or add(c if k else tm.NOT(c)):
                        return True
                continue
            if c.op == "int":
                if c.a[0] != k:
                    return True
                continue
            if add(SW(c, {k: TRUE}, FALSE)):
                return True
        for a, k in list(lits.items()):       # comparisons of numbers that may be NaN
            if k == 1 and (a.op == "feq" or a.op == "app" and a.a[0] == "flt"):
                x, y = a.a[-2:]
                no = [tm.app("isnan", x), tm.app("isnan", y), tm._mk("app", ("flt", y, x))]
                no.append(tm.eq(x, y, True) if a.op != "feq" else tm._mk("app", ("flt", x, y)))
                if any(lits.get(z) == 1 for z in no):
                    return True
        if prove.contradictory(lits):
            return True
        ixs = [(self.ixsym(f[1]), self.close(f[2], f[3])) for f in facts if f[0] == "range"]
        for a, v in list(lits.items()):
            if a.op == "any" and v == 0:
                for s, n in ixs:
                    if n is a.a[0]:
                        c = tm.subst(a.a[2], {tm.bvar(a.a[1]): s})
                        if interp.passume(c, lits) is TRUE:
                            return True
        if any(a.op == "any" and v == 0 for a, v in lits.items()):
            for a, v in lits.items():
                if a.op in ("any", "ge0", "eq0") and self.work < self.maxwork:
                    b = self.simplify(a, {x: y for x, y in lits.items() if x is not a}, {})
                    if b.op == "int" and b.a[0] != v:
                        return True
                    if b.op == "sw" and v in (0, 1):
                        c = interp.passume(b if v else tm.NOT(b), {x: y for x, y in lits.items() if x is not a})
                        if c is FALSE:
                            return True
        return False

    def key(self, a, b, D, e1, e2):
        k1 = tuple(e1.get(-x) for x in a.fs if x < 0) if a.fs else ()
        k2 = tuple(e2.get(-x) for x in b.fs if x < 0) if b.fs else ()
        return (a, b, D, k1, k2)

    def env(self, t, e):
        """the part of an environment that a term can see, as a value"""
        return tuple(sorted(((-x, e[-x]) for x in t.fs if x < 0 and -x in e), key=lambda p: p[0])) if t.fs else ()

    def eq(self, a, b, D, e1, e2):
        if D is NONE:
            return True
        if a is b and not any(x < 0 and e1.get(-x) != e2.get(-x) for x in a.fs):
            return True
        k = self.key(a, b, D, e1, e2)
        r = self.memo.get(k)
        if r is not None:
            if r is False and not self.quiet and self.bad is None:
                # recompute to find the spot
                del self.memo[k]
            else:
                return r
        self.steps += 1
        if self.steps > self.limit:
            raise Mismatch("too large to compare")
        self.memo[k] = True
        mark = len(self.log)
        self.log.append(k)
        exc = self.excused
        r = self._eq(a, b, D, e1, e2)
        if not r and len(self.facts) > self.qmark and self.retries < self.maxretries and self.work < self.maxwork:
            # the decisions taken on the way here may settle what is inside the two terms
            x, y = self.refine(a, e1, True), self.refine(b, e2, False)
            if x is not a or y is not b:
                self.retries += 1
                bad, self.bad = self.bad, None
                r = self.eq(x, y, D, e1, e2)
                if r:
                    self.excused += 1
                else:
                    self.bad = bad
        if r and self.excused != exc:
            for j in self.log[mark:]:        # holds only in this context
                self.memo.pop(j, None)
            del self.log[mark:]
        elif not r:
            for j in self.log[mark:]:
                self.memo.pop(j, None)
            del self.log[mark:]
            if len(self.facts) == self.qmark:
                self.memo[k] = False
        return r

    def q(self, a, b, D, e1, e2):
        """quiet comparison, whatever the context"""
        self.quiet += 1
        mark, self.qmark = self.qmark, len(self.facts)
        try:
            return self.eq(a, b, D, e1, e2)
        finally:
            self.quiet -= 1
            self.qmark = mark

    def at_path(self, s, f, *args):
        self.trail.append(s)
        try:
            return f(*args)
        finally:
            self.trail.pop()

    # ------------------------------------------------------------ core
    def _eq(self, a, b, D, e1, e2):
        if a is BOT or b is BOT:
            return True          # unreachable on one side: the other side's value is never observed
        if self.cut(a, b, D):
            return True
        if deeper(a) or deeper(b):
            return True          # past the depth to which recursive functions are unrolled
        if a.op == "sw" or b.op == "sw":
            return self.eq_sw(a, b, D, e1, e2)
        if "lin" in (a.op, b.op) and a.op != b.op or crossed(a) and crossed(b):
            return self.eq_lin(a, b, D, e1, e2)
        if a.op != b.op:
            return self.eq_shape(a, b, D, e1, e2)
        op = a.op
        if op == "b":
            return self.eq_b(a, b, D, e1, e2)
        if op == "adt":
            if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a) != len(b.a):
                return self.fail(a, b, D, "different variant")
            names = self.fields(a)
            for i in range(len(a.a) - 2):
                d = self.field(D, a, i, names[i])
                if d is not NONE and not self.at_path(names[i], self.eq, a.a[2 + i], b.a[2 + i], d, e1, e2):
                    return False
            return True
        if op == "tup":
            if len(a.a) != len(b.a):
                return self.fail(a, b, D)
            for i in range(len(a.a)):
                d = NONE if D[0] == "prj" and D[1] != i else (D[2] if D[0] == "prj" else (D if D is W else ALL))
                if not self.at_path(str(i), self.eq, a.a[i], b.a[i], d, e1, e2):
                    return False
            return True
        if op == "fld":
            if a.a[1:] == b.a[1:]:
                return self.eq(a.a[0], b.a[0], ("fld",) + tuple(a.a[1:]) + (D,), e1, e2)
            return self.fail(a, b, D, "different field")
        if op == "prj":
            if a.a[1] == b.a[1]:
                return self.eq(a.a[0], b.a[0], ("prj", a.a[1], D), e1, e2)
            return self.fail(a, b, D, "different field")
        if op == "at":
            return (self.at_path("index", self.eq, a.a[1], b.a[1], ALL, e1, e2) and
                    self.eq(a.a[0], b.a[0], ("elem", D), e1, e2)) or self.fail(a, b, D, "different element")
        if op == "len":
            return self.eq(a.a[0], b.a[0], ("elem", NONE), e1, e2)
        if op in ("lit", "cat"):
            return self.eq_seq(a, b, D, e1, e2)
        if op == "for":
            return self.at_path("count", self.eq, a.a[0], b.a[0], ALL, e1, e2) and self.eq_bind(a, b, D, e1, e2)
        if op in ("any", "sum", "first"):
            return self.at_path("count", self.eq, a.a[0], b.a[0], ALL, e1, e2) and self.eq_bind(a, b, ALL, e1, e2)
        if op == "foldv":
            return self.eq_fold(a, a.a[0], b, b.a[0], D, e1, e2)
        if op == "lam":
            if len(a.a[0]) != len(b.a[0]):
                return self.fail(a, b, D)
            f1, f2 = self.bind(a.a[0], b.a[0], e1, e2, ())
            return self.eq(a.a[1], b.a[1], ALL, f1, f2)
        if op == "lin":
            return self.eq_lin(a, b, D, e1, e2)
        if op == "mul":
            return self.multiset(a, b, [(x, 1) for x in a.a], [(x, 1) for x in b.a], e1, e2)
        if op in ("eq", "feq"):
            for p in (b.a, b.a[::-1]):
                if self.q(a.a[0], p[0], ALL, e1, e2) and self.q(a.a[1], p[1], ALL, e1, e2):
                    return True
            return self.fail(a, b, D, "different comparison")
        if op in ("min", "max") or op == "app" and a.a[0] == b.a[0] and a.a[0] in COMMUTES and len(a.a) == len(b.a) == 3:
            if op == "app":
                x, y = a.a[1:], b.a[1:]
                if self.q(x[0], y[0], ALL, e1, e2) and self.q(x[1], y[1], ALL, e1, e2):
                    return True
                return (self.q(x[0], y[1], ALL, e1, e2) and self.q(x[1], y[0], ALL, e1, e2)) or self.fail(a, b, D)
            for p in (b.a, b.a[::-1]):
                if self.q(a.a[0], p[0], ALL, e1, e2) and self.q(a.a[1], p[1], ALL, e1, e2):
                    return True
            return self.fail(a, b, D)
        if op in ("upd",):
            return (self.eq(a.a[0], b.a[0], D, e1, e2) and self.eq(a.a[1], b.a[1], ALL, e1, e2) and
                    self.eq(a.a[2], b.a[2], elem(D), e1, e2))
        if op in ("take", "skip"):
            return self.eq(a.a[1], b.a[1], ALL, e1, e2) and self.eq(a.a[0], b.a[0], D, e1, e2)
        if op == "discr":
            return self.eq(a.a[0], b.a[0], ("discr",), e1, e2)
        if len(a.a) != len(b.a):
            return self.fail(a, b, D)
        for x, y in zip(a.a, b.a):
            if not self.eq_arg(a, b, x, y, e1, e2):
                return False
        return True

    def eq_arg(self, a, b, x, y, e1, e2):
        if type(x) is T and type(y) is T:
            return self.eq(x, y, ALL, e1, e2)
        if type(x) is tuple and type(y) is tuple:
            return (len(x) == len(y) or self.fail(a, b, ALL)) and all(self.eq_arg(a, b, p, q, e1, e2) for p, q in zip(x, y))
        return x == y or self.fail(a, b, ALL)

    def fields(self, a):
        vs = tm.ADTS.get(a.a[0])
        if vs and a.a[1] < len(vs):
            n = vs[a.a[1]][2]
            if len(n) == len(a.a) - 2:
                return n
        return [str(i) for i in range(len(a.a) - 2)]

    def field(self, D, a, i, name):
        if D is ALL:
            return ALL
        if D is W:
            if a.a[0] == RES:
                return W if a.a[1] == 0 else self.errs
            return self.want(a.a[0], a.a[1], name, i)
        if D[0] == "fld":
            if D[1] == a.a[0] and D[2] == a.a[1]:
                return D[4] if D[3] == i else NONE
            return ALL
        if D[0] == "discr":
            return NONE
        return ALL

    def eq_b(self, a, b, D, e1, e2):
        p, q = e1.get(a.a[0]), e2.get(b.a[0])
        if p is None or q is None:
            return a is b or self.fail(a, b, D)
        if len(a.a) != len(b.a):
            return self.fail(a, b, D)
        if len(a.a) == 1:
            return p == q or self.fail(a, b, D, "different index")
        # carried values: (fold term, component, number of the binding, the environment outside)
        if p[0] != "acc" or q[0] != "acc":
            return p == q or self.fail(a, b, D)
        if p[4] != q[4]:
            return self.fail(a, b, D, "different loops")
        return self.eq_comp(p[1], p[2], q[1], q[2], D, dict(p[3]), dict(q[3]), p[4])

    def bind(self, hs, gs, e1, e2, folds):
        self.uid = getattr(self, "uid", 0) + 1
        f1, f2 = dict(e1), dict(e2)
        for h, g in zip(hs, gs):
            f1[h] = ("ix", h, g)
            f2[g] = ("ix", h, g)
        return f1, f2

    def eq_bind(self, a, b, D, e1, e2):
        f1, f2 = self.bind((a.a[1],), (b.a[1],), e1, e2, ())
        mark = len(self.facts)
        if a.op == "for" or a.op == "sum":
            p = ("ix", a.a[1], b.a[1])
            self.facts.append(("range", p, a.a[0], e1, True))
            self.facts.append(("range", p, b.a[0], e2, False))
        r = self.eq(a.a[2], b.a[2], D, f1, f2)
        del self.facts[mark:]
        return r

    def eq_fold(self, a, j, b, k, D, e1, e2):
        return (self.at_path("count", self.eq, a.a[1], b.a[1], ALL, e1, e2) and
                self.eq_comp(a, j, b, k, D, e1, e2, (a.a[1:5], b.a[1:5], self.env(a, e1), self.env(b, e2), (a.a[2][0], b.a[2][0]))))

    def eq_comp(self, a, j, b, k, D, e1, e2, tag):
        """component j of fold a simulates component k of fold b"""
        x, y = tm._mk("foldc", (j,) + a.a[1:]), tm._mk("foldc", (k,) + b.a[1:])
        m1, m2 = self.env(a, e1), self.env(b, e2)
        key = ("comp", x, y, D, m1, m2)
        ixp = ("ix", a.a[2][0], b.a[2][0])
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = True
        self.log.append(key)
        if not self.at_path("initial value", self.eq, a.a[3][j], b.a[3][k], D, e1, e2):
            return False
        f1, f2 = dict(e1), dict(e2)
        h, g = a.a[2], b.a[2]
        f1[h[0]] = ("ix", h[0], g[0])
        f2[g[0]] = ("ix", h[0], g[0])
        for i, s in enumerate(h[1:]):
            f1[s] = ("acc", a, i, m1, tag)
        for i, s in enumerate(g[1:]):
            f2[s] = ("acc", b, i, m2, tag)
        # another round of the same loop: what is known of this round says nothing about that one
        facts, qmark, inside = self.facts, self.qmark, ixp in self.level
        if inside:
            self.facts = facts[:self.level[ixp]]
            self.qmark = min(qmark, len(self.facts))
        else:
            self.level[ixp] = len(facts)
            self.facts = list(facts)
        self.facts.append(("range", ixp, a.a[1], e1, True))
        self.facts.append(("range", ixp, b.a[1], e2, False))
        r = self.at_path("next value", self.eq, a.a[4][j], b.a[4][k], D, f1, f2)
        self.facts, self.qmark = facts, qmark
        if not inside:
            del self.level[ixp]
        return r

    def eq_lin(self, a, b, D, e1, e2):
        c, x = tm._lin_parts(a)
        d, y = tm._lin_parts(b)
        if c != d or len(x) != len(y):
            return self.fail(a, b, D)
        return self.multiset(a, b, list(x.items()), list(y.items()), e1, e2)

    def multiset(self, a, b, xs, ys, e1, e2):
        ys = list(ys)
        if len(xs) != len(ys):
            return self.fail(a, b, ALL)
        for x, c in xs:
            for i, (y, d) in enumerate(ys):
                if crossed(x) and crossed(y):
                    if (c == d and self.q(x.a[1], y.a[1], ALL, e1, e2) and self.q(x.a[2], y.a[2], ALL, e1, e2) or
                            c == -d and self.q(x.a[1], y.a[2], ALL, e1, e2) and self.q(x.a[2], y.a[1], ALL, e1, e2)):
                        del ys[i]
                        break
                elif c == d and self.q(x, y, ALL, e1, e2):
                    del ys[i]
                    break
            else:
                return self.fail(a, b, ALL, "no counterpart for %s" % show(x, 3)[:80])
        return True

    def eq_seq(self, a, b, D, e1, e2):
        d = elem(D)
        p, q = seq_parts(a), seq_parts(b)
        if len(p) != len(q):
            c = self.undecided_part(p, q)
            if c is not None and self.splits < 12:
                self.splits += 1
                try:
                    return self.eq_cases(a, b, D, e1, e2, *c)
                finally:
                    self.splits -= 1
            return self.fail(a, b, D, "different number of parts")
        for i, (x, y) in enumerate(zip(p, q)):
            if x.op == "lit" and y.op == "lit":
                if len(x.a) != len(y.a):
                    return self.fail(x, y, D, "different number of elements")
                for u, v in zip(x.a, y.a):
                    if not self.at_path("[%d]" % i, self.eq, u, v, d, e1, e2):
                        return False
            elif not self.at_path("[%d..]" % i, self.eq, x, y, D, e1, e2):
                return False
        return True

    def undecided_part(self, p, q):
        """a part that is not yet the same part in every case, from the first place where the two sequences differ"""
        i = 0
        while i < min(len(p), len(q)) and p[i] is q[i] and not any(x < 0 for x in p[i].fs):
            i += 1
        for x, y in itertools.zip_longest(p[i:], q[i:]):
            if x is not None and x.op == "sw":
                return x, True
            if y is not None and y.op == "sw":
                return y, False
        return None

    def eq_shape(self, a, b, D, e1, e2):
        if ("lit" in (a.op, b.op) or "cat" in (a.op, b.op)) and a.op in ("lit", "cat", "for", "str") and b.op in ("lit", "cat", "for", "str"):
            p, q = seq_parts(a), seq_parts(b)
            if len(p) == len(q) and len(p) > 1 or self.undecided_part(p, q):
                return self.eq_seq(a, b, D, e1, e2)
        return self.fail(a, b, D, "different shape")

    # ------------------------------------------------------------ decisions
    def eq_sw(self, a, b, D, e1, e2):
        top = a if a.op == "sw" else b
        return self.eq_cases(a, b, D, e1, e2, top, top is a)

    def eq_cases(self, a, b, D, e1, e2, top, left):
        """one comparison for each value of the first decision of top, which is part of a (left) or of b"""
        atom = top.a[0]
        keys = [k for k, _ in top.a[1]]
        own, other = (a, b) if left else (b, a)
        for k in keys + ([None] if top.a[2] is not None else []):
            x = self.cofs(own, atom, k, keys, {})
            mark = len(self.facts)
            self.hits = {}
            # values of the matching node on the other side
            y = self.cofx(other, atom, k, left, e1, e2, keys)
            if k is not None:
                self.facts.append((atom, k, e1 if left else e2, left))
                for c, j in self.hits.items():
                    self.facts.append((c, j, e2 if left else e1, not left))
            ok = self.at_path("%s=%s" % (short(atom), k), self.eq, *((x, y) if left else (y, x)), D, e1, e2)
            del self.facts[mark:]
            if not ok:
                return False
        return True

    def match_atom(self, p, q, e1, e2):
        """0 no match, 1 same, -1 opposite (p from the left term, q from the right)"""
        if p.op != q.op:
            return 0
        if self.q(p, q, ALL, e1, e2):
            return 1
        if p.op == "ge0":
            n = tm.mk_lin(*neglin(q.a[0]))
            if self.q(p.a[0], n, ALL, e1, e2):
                return -1
        if p.op == "eq0":
            if self.q(p.a[0], scale(q.a[0], -1), ALL, e1, e2):
                return 1
        return 0

    def cofs(self, t, atom, k, keys, memo):
        """t where atom has value k (None: none of keys), through the sequences it is put together from"""
        r = memo.get(t)
        if r is not None:
            return r
        r = t
        if t.op == "cat":
            ps = [self.cofs(x, atom, k, keys, memo) for x in t.a]
            if any(x is not y for x, y in zip(ps, t.a)):
                r = tm.cat(*ps)
        elif t.op == "sw" and t.a[0] is atom:
            if k is None:
                d = t.a[2]
                rest = [x for j, x in t.a[1] if j not in keys]
                r = d if d is not None else (rest[0] if rest else BOT)
            else:
                r = dict(t.a[1]).get(k, t.a[2] if t.a[2] is not None else BOT)
            r = self.cofs(r, atom, k, keys, memo)
        elif t.op == "sw":
            kids = {j: self.cofs(x, atom, k, keys, memo) for j, x in t.a[1]}
            d = self.cofs(t.a[2], atom, k, keys, memo) if t.a[2] is not None else None
            if d is not t.a[2] or any(kids[j] is not x for j, x in t.a[1]):
                r = SW(t.a[0], kids, d)
        memo[t] = r
        return r

    def cofx(self, t, atom, k, left, e1, e2, keys):
        if t.op == "cat":
            ps = [self.cofx(x, atom, k, left, e1, e2, keys) for x in t.a]
            return t if all(x is y for x, y in zip(ps, t.a)) else tm.cat(*ps)
        if t.op != "sw":
            return t
        m = self.match_atom(atom, t.a[0], e1, e2) if left else self.match_atom(t.a[0], atom, e1, e2)
        if m:
            kk = k if m == 1 else (1 - k if k in (0, 1) else k)
            if kk is not None:
                self.hits[t.a[0]] = kk
            r = t.a[2] if t.a[2] is not None else BOT
            if kk is None:
                # a value listed by neither
                rest = [x for j, x in t.a[1] if j not in keys]
                if t.a[2] is None and rest:
                    r = rest[0]
            else:
                r = dict(t.a[1]).get(kk, r)
            # the same decision may come again inside the parts of a sequence
            return self.cofx(r, atom, k, left, e1, e2, keys) if split(r) else r
        kids = {j: self.cofx(x, atom, k, left, e1, e2, keys) for j, x in t.a[1]}
        d = self.cofx(t.a[2], atom, k, left, e1, e2, keys) if t.a[2] is not None else None
        if all(kids[j] is x for j, x in t.a[1]) and (d is t.a[2]):
            return t
        return SW(t.a[0], kids, d)


COMMUTES = ("dot", "fmul", "fadd")


def split(t):
    """does a sequence come below the first decisions of this term?"""
    if t.op == "sw":
        return any(split(x) for _, x in t.a[1]) or t.a[2] is not None and split(t.a[2])
    return t.op == "cat"


def crossed(t):
    return t.op == "app" and t.a[0] == "cross"


def deeper(t):
    while True:
        if t.op in ("fld", "prj", "at", "len", "discr"):
            t = t.a[0]
        elif t.op == "sw":
            t = t.a[0]
        else:
            return t.op == "app" and t.a[0] == "rec"


def neglin(e):
    c, d = tm._lin_parts(e)
    return -c - 1, {t: -k for t, k in d.items()}


def short(a):
    return show(a, 3)[:60]
