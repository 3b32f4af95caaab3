"""Bounds of integer terms and entailment of simple linear conditions (intervals + Fourier-Motzkin)."""
from fractions import Fraction
from terms import *
import terms as tm

WIDTH = {}      # (path, variant, field) -> (lo, hi)
TYRANGE = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
           "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
           "isize": (-2**63, 2**63 - 1), "char": (0, 0x10FFFF), "u128": (0, 2**128 - 1)}
MEM = 2**63 - 1
_b = {}
INTYPES = {}    # opaque input term -> type id
_prog = [None]
_ty = {}


def set_prog(p):
    _prog[0] = p
    _ty.clear()
    _b.clear()


def deref(i):
    ts = _prog[0].types
    while i is not None and ts[i]["k"] == "ref":
        i = ts[i]["to"]
    return i


def typeof(t):
    """type id of a projection of an opaque typed input, or None"""
    if _prog[0] is None:
        return None
    if t in _ty:
        return _ty[t]
    r = None
    ts = _prog[0].types
    if t in INTYPES:
        r = INTYPES[t]
    elif t.op in ("fld", "prj", "at"):
        b = typeof(t.a[0])
        b = deref(b)
        if b is not None:
            y = ts[b]
            if t.op == "fld" and y["k"] == "adt" and "variants" in y and t.a[2] < len(y["variants"]):
                fs = y["variants"][t.a[2]]["fields"]
                r = fs[t.a[3]][1] if t.a[3] < len(fs) else None
            elif t.op == "prj" and y["k"] == "tuple":
                r = y["args"][t.a[1]] if t.a[1] < len(y["args"]) else None
            elif t.op == "at":
                if "of" in y:
                    r = y["of"]
                elif y["k"] == "adt" and y.get("args"):
                    r = y["args"][0]
    _ty[t] = r
    return r


def tyrange(t):
    i = deref(typeof(t))
    if i is None:
        return None
    y = _prog[0].types[i]
    if y["k"] in ("int", "uint"):
        return TYRANGE.get(y["n"])
    if y["k"] == "char":
        return TYRANGE["char"]
    return None


def bounds(t):
    r = _b.get(t)
    if r is None:
        r = _bounds(t)
        _b[t] = r
    return r


def _mulb(a, b):
    if a is None or b is None:
        return None
    return a * b


def _bounds(t):
    op = t.op
    if op == "int":
        return t.a[0], t.a[0]
    if op == "lin":
        lo = hi = t.a[0]
        for x, k in t.a[1]:
            l, h = bounds(x)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi
    if op == "sw":
        lo = hi = None
        first = True
        for x in leafset(t):
            if x is BOT:
                continue
            l, h = bounds(x)
            if first:
                lo, hi, first = l, h, False
            else:
                lo = None if lo is None or l is None else min(lo, l)
                hi = None if hi is None or h is None else max(hi, h)
        return lo, hi
    if op == "app":
        n = t.a[0]
        if n == "byte":
            return 0, 255
        if n == "char":
            return 0, 0x10FFFF
        if n == "wrap":
            return TYRANGE.get(t.a[1].a[0], (None, None))
        if n == "trunc":
            return TYRANGE.get(t.a[1].a[0], (None, None))
        if n == "pow2":
            l, h = bounds(t.a[1])
            return 1, (1 << h) if h is not None and h < 4096 else None
        if n == "filelen":
            return 0, 2**63 - 1
        if n == "and":
            bs = [bounds(x) for x in t.a[1:]]
            hs = [h for l, h in bs if l is not None and l >= 0 and h is not None]
            return (0, min(hs)) if hs else (None, None)
    if op == "len":
        return 0, MEM
    if op == "first":
        return 0, MEM
    if op == "sym" and (t.a[0].startswith("ix") or t.a[0].startswith("u:")):
        return 0, None
    if op == "monus":
        l, h = bounds(t.a[0])
        return (max(l, 0) if l is not None else 0), (max(h, 0) if h is not None else None)
    if op == "mul":
        lo, hi = 1, 1
        for x in t.a:
            l, h = bounds(x)
            if l is None or l < 0:
                return None, None
            lo *= l
            hi = None if hi is None or h is None else hi * h
        return lo, hi
    if op == "idiv":
        l, h = bounds(t.a[0])
        if l is not None and l >= 0:
            if t.a[1].op == "int" and t.a[1].a[0] > 0:
                c = t.a[1].a[0]
                return l // c, (h // c if h is not None else None)
            return 0, h
        return None, None
    if op == "irem":
        l, h = bounds(t.a[0])
        if t.a[1].op == "int" and t.a[1].a[0] > 0 and l is not None and l >= 0:
            return 0, t.a[1].a[0] - 1
        return None, None
    if op in ("min", "max"):
        a, b = bounds(t.a[0]), bounds(t.a[1])
        f = min if op == "min" else max
        if op == "min":
            hi = [h for _, h in (a, b) if h is not None]
            lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
            return lo, (min(hi) if hi else None)
        lo = [l for l, _ in (a, b) if l is not None]
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
        return (max(lo) if lo else None), hi
    if op == "fld":
        r = WIDTH.get((t.a[1], t.a[2], t.a[3]))
        if r:
            return r
    if op == "sum":
        l, h = bounds(t.a[2])
        nl, nh = bounds(t.a[0])
        if l is not None and l >= 0:
            return 0, (h * nh if h is not None and nh is not None else None)
    if op in ("fld", "at", "prj") or t in INTYPES:
        r = tyrange(t)
        if r:
            return r
    if op in ("at", "fld", "prj"):
        r = elem_bounds(t)
        if r is not None:
            return r
    if nonneg_atom(t):
        return 0, None
    return None, None


def elements(t, out, depth=0, seen=None):
    """every term an element of sequence t can be (names bound inside stay as they are); False when unknown"""
    if seen is None:
        seen = set()
    if t in seen:
        return True
    seen.add(t)
    if t is BOT:
        return True
    if len(out) > 64 or depth > 40:
        return False
    if t.op == "sw":
        return all(elements(x, out, depth + 1, seen) for x in leafset(t))
    if t.op == "lit":
        out.extend(t.a)
        return True
    if t.op == "cat":
        return all(elements(x, out, depth + 1, seen) for x in t.a)
    if t.op == "for":
        return elements(t.a[2], out, depth + 1, seen)
    if t.op in ("take", "skip"):
        return elements(t.a[0], out, depth + 1, seen)
    if t.op == "upd":
        out.append(t.a[2])
        return elements(t.a[0], out, depth + 1, seen)
    if t.op == "at":
        xs = []
        return elements(t.a[0], xs, depth + 1) and all(elements(x, out, depth + 1, seen) for x in xs)
    if t.op in ("fld", "prj"):
        xs = []
        return values(t, xs, depth + 1) and all(x is not t and elements(x, out, depth + 1, seen) for x in xs)
    return False


def values(t, out, depth=0):
    """every term a projection chain can stand for"""
    if depth > 40 or len(out) > 64:
        return False
    if t.op == "sw":
        return all(values(x, out, depth + 1) for x in leafset(t))
    if t is BOT:
        return True
    if t.op == "at":
        xs = []
        if not elements(t.a[0], xs, depth + 1):
            return False
        return all(values(x, out, depth + 1) for x in xs)
    if t.op == "fld" or t.op == "prj":
        xs = []
        if not values(t.a[0], xs, depth + 1):
            return False
        for x in xs:
            y = fld(x, *t.a[1:]) if t.op == "fld" else proj(x, t.a[1])
            if y.op in ("fld", "prj") and y.a[0] is x:
                if x is t.a[0] or x.op in ("fld", "prj", "at"):
                    return False
                out.append(y)
            elif not values(y, out, depth + 1):
                return False
        return True
    out.append(t)
    return True


def elem_bounds(t):
    xs = []
    if not values(t, xs) or not xs:
        return None
    lo = hi = None
    for i, x in enumerate(xs):
        if x is t:
            return None
        l, h = bounds(x)
        if i == 0:
            lo, hi = l, h
        else:
            lo = None if lo is None or l is None else min(lo, l)
            hi = None if hi is None or h is None else max(hi, h)
    return lo, hi


# ---------------------------------------------------------------- linear facts
def linpart(e):
    c, d = tm._lin_parts(e)
    return c, d


def _key(d):
    return tuple(sorted((t.id, k) for t, k in d.items()))


_atomlin = {}


def atomlin(a):
    """(const, dict, key, negkey) of a ge0/eq0 atom"""
    r = _atomlin.get(a)
    if r is None:
        c, d = tm._lin_parts(a.a[0])
        r = (c, d, _key(d), _key({t: -k for t, k in d.items()}))
        _atomlin[a] = r
    return r


_match = {}


def atom_value(a, facts):
    """value forced on atom a by the facts, or None"""
    if a.op in ("ge0", "eq0"):
        c, d, key, neg = atomlin(a)
        lo = hi = None        # bounds on the linear part d
        nz = None
        for f, v in facts.items():
            if f.op not in ("ge0", "eq0"):
                continue
            fc, fd, fk, fn = atomlin(f)
            if fk == key:
                s = 1
            elif fn == key:
                s = -1
            else:
                continue
            # f: fc + s*D
            if f.op == "ge0":
                if v == 1:      # fc + s D >= 0
                    if s == 1:
                        lo = -fc if lo is None else max(lo, -fc)
                    else:
                        hi = fc if hi is None else min(hi, fc)
                else:           # fc + s D <= -1
                    if s == 1:
                        hi = -fc - 1 if hi is None else min(hi, -fc - 1)
                    else:
                        lo = fc + 1 if lo is None else max(lo, fc + 1)
            else:
                if v == 1:      # D = -fc*s
                    x = -fc * s
                    lo = x if lo is None else max(lo, x)
                    hi = x if hi is None else min(hi, x)
                else:
                    nz = -fc * s
        if lo is None and hi is None and nz is None:
            return None
        if nz is not None:
            if lo == nz:
                lo += 1
            if hi == nz:
                hi -= 1
        if a.op == "ge0":
            if lo is not None and c + lo >= 0:
                return 1
            if hi is not None and c + hi < 0:
                return 0
        else:
            if lo is not None and hi is not None and lo == hi == -c:
                return 1
            if lo is not None and c + lo > 0 or hi is not None and c + hi < 0:
                return 0
            if nz is not None and nz == -c:
                return 0
        return None
    if a.op == "eq" and (a.a[0].op == "str" or a.a[1].op == "str"):
        x, s = (a.a[1], a.a[0]) if a.a[0].op == "str" else (a.a[0], a.a[1])
        for f, v in facts.items():
            if v == 1 and f.op == "eq":
                if f.a[0] is x and f.a[1].op == "str" and f.a[1] is not s:
                    return 0
                if f.a[1] is x and f.a[0].op == "str" and f.a[0] is not s:
                    return 0
    return None


def lits_of(facts, pcs=()):
    out = dict(facts)
    for p in pcs:
        for a, k in when_true(p):
            out.setdefault(a, k)
    return out


def constraints(lits):
    """linear constraints (c, d) meaning c + sum d >= 0, closed under definitions of the atoms"""
    cs = []
    ne = []
    for a, v in lits.items():
        if a.op == "ge0":
            c, d, _, _ = atomlin(a)
            if v == 1:
                cs.append((c, d))
            elif v == 0:
                cs.append((-c - 1, {t: -k for t, k in d.items()}))
        elif a.op == "eq0":
            c, d, _, _ = atomlin(a)
            if v == 1:
                cs.append((c, d))
                cs.append((-c, {t: -k for t, k in d.items()}))
            else:
                ne.append((c, d))
    return cs, ne


def expand(cs):
    """definitional constraints for the atoms occurring"""
    seen = set()
    work = [t for _, d in cs for t in d]
    out = list(cs)
    while work:
        t = work.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        new = []

        def le_(a, b):   # a <= b
            c1, d1 = tm._lin_parts(a)
            c2, d2 = tm._lin_parts(b)
            d = dict(d2)
            for x, k in d1.items():
                d[x] = d.get(x, 0) - k
            new.append((c2 - c1, {x: k for x, k in d.items() if k}))
        lo, hi = bounds(t)
        if lo is not None:
            new.append((-lo, {t: 1}))
        if hi is not None:
            new.append((hi, {t: -1}))
        if t.op == "min":
            le_(t, t.a[0])
            le_(t, t.a[1])
        elif t.op == "max":
            le_(t.a[0], t)
            le_(t.a[1], t)
        elif t.op == "monus":
            le_(t.a[0], t)
        elif t.op == "first":
            le_(add(t, ONE), t.a[0])
        elif t.op == "idiv" and t.a[1].op == "int":
            c = t.a[1].a[0]
            le_(scale(t, c), t.a[0])
            le_(sub(t.a[0], I(c - 1)), scale(t, c))
        elif t.op == "irem" and t.a[1].op == "int":
            le_(t, t.a[0])
        elif t.op == "sum":
            l, h = bounds(t.a[2])
            if h is not None and h <= 1 and l is not None and l >= 0:
                le_(t, t.a[0])
        for c, d in new:
            out.append((c, d))
            for x in d:
                if x.id not in seen:
                    work.append(x)
    return out


def infeasible(cs, limit=4000):
    """Fourier-Motzkin: no rational solution of c + d >= 0"""
    sys_ = set()
    for c, d in cs:
        d = {t: Fraction(k) for t, k in d.items() if k}
        if not d:
            if c < 0:
                return True
            continue
        m = abs(next(iter(sorted(d.items(), key=lambda p: p[0].id)))[1])
        sys_.add((Fraction(c) / m, tuple(sorted(((t.id, k / m) for t, k in d.items())))))
    # keep tightest
    def tighten(S):
        best = {}
        for c, d in S:
            if d not in best or c < best[d]:
                best[d] = c
        return set((c, d) for d, c in best.items())
    sys_ = tighten(sys_)
    while sys_:
        vs = {}
        for c, d in sys_:
            for t, k in d:
                p = vs.setdefault(t, [0, 0])
                p[0 if k > 0 else 1] += 1
        v = min(vs, key=lambda t: vs[t][0] * vs[t][1] - vs[t][0] - vs[t][1])
        pos, neg, rest = [], [], set()
        for c, d in sys_:
            k = dict(d).get(v)
            if k is None:
                rest.add((c, d))
            elif k > 0:
                pos.append((c, d, k))
            else:
                neg.append((c, d, k))
        for c1, d1, k1 in pos:
            for c2, d2, k2 in neg:
                d = {}
                for t, k in d1:
                    d[t] = d.get(t, 0) + k / k1
                for t, k in d2:
                    d[t] = d.get(t, 0) + k / -k2
                c = c1 / k1 + c2 / -k2
                dd = tuple(sorted((t, k) for t, k in d.items() if k != 0))
                if not dd:
                    if c < 0:
                        return True
                    continue
                m = abs(dd[0][1])
                rest.add((c / m, tuple((t, k / m) for t, k in dd)))
        sys_ = tighten(rest)
        if len(sys_) > limit:
            return False
    return False


def contradictory(lits):
    cs, ne = constraints(lits)
    if not cs:
        return False
    cs = expand(cs)
    if infeasible(cs):
        return True
    for c, d in ne:
        # e != 0: both e >= 1 and e <= -1 must be infeasible
        if infeasible(cs + expand([(c - 1, d)])) and infeasible(cs + expand([(-c - 1, {t: -k for t, k in d.items()})])):
            return True
    return False


def instances(lits, terms_):
    """consequences of known 'for all' facts (any = 0) at the index terms in use"""
    out = {}
    idx = None
    for a, v in list(lits.items()):
        if a.op != "any" or v != 0:
            continue
        n, h, b = a.a
        if idx is None:
            idx = index_terms(terms_ + [x for x in lits if x.op != "any"])
        for j in idx:
            c = AND(ge0(j), lt(j, n))
            if c is not TRUE:
                c = passume_(c, lits)
            if c is not TRUE and not entails(lits, c):
                continue
            e = NOT(subst(b, {bvar(h): j}))
            for x, k in when_true(e):
                out[x] = k
    return out


def index_terms(ts):
    seen = set()
    out = []
    for t in ts:
        for x in walk(t, seen):
            if x.op in ("at",) and not any(f < 0 for f in x.a[1].fs):
                if x.a[1] not in out:
                    out.append(x.a[1])
    return out[:40]


def passume_(t, facts):
    import interp
    return interp.passume(t, facts)


def entails(lits, c):
    """linear entailment of a condition (small diagrams)"""
    c = passume_(c, lits)
    if c is TRUE:
        return True
    if c.op != "sw":
        return False
    n = 0
    for path, leaf in leaves(c):
        if leaf is TRUE or leaf is BOT:
            continue
        n += 1
        if n > 32:
            return False
        l2 = dict(lits)
        for a, k in path:
            if k is not None:
                l2[a] = k
        if not contradictory(l2):
            return False
    return True


def implied(c, facts):
    if c is TRUE:
        return True
    return entails(facts, c)


def holds(c, facts, pcs):
    """does c follow from the facts and path conditions?"""
    return holds_(c, facts, pcs) or inductive(c, facts, pcs)


def holds_(c, facts, pcs):
    if c is TRUE:
        return True
    lits = lits_of(facts, pcs)
    c = passume_(c, lits)
    if c is TRUE:
        return True
    for p in pcs:
        q = passume_(p, lits)
        if q is FALSE or q is BOT:
            return True
        r = restrict(c, q)
        if r is TRUE:
            return True
    if c is BOT:
        return True
    paths = [(p, l) for p, l in leaves(c)] if c.op == "sw" else [((), c)]
    bad = [p for p, l in paths if l is not TRUE and l is not BOT]
    if len(bad) > 48:
        return False
    for p in bad:
        l2 = dict(lits)
        for a, k in p:
            if k is not None:
                l2[a] = k
            else:
                l2.setdefault(a, "other")
        if contradictory(l2):
            continue
        inst = instances(l2, [a for a, _ in p])
        clash = False
        l3 = dict(l2)
        for a, k in inst.items():
            if a in l3 and l3[a] != k:
                clash = True
                break
            if a not in l3:
                av = atom_value(a, l2)
                if av is not None and av != k:
                    clash = True
                    break
            l3[a] = k
        if clash or (inst and contradictory(l3)):
            continue
        dead = False
        for q in pcs:
            z = passume_(q, l3)
            if z is FALSE:
                dead = True
                break
        if dead:
            continue
        if anys_clash(l3):
            continue
        return False
    return True


def anys_clash(lits):
    """an 'exists' known true whose witness contradicts the 'for all' facts"""
    pos = [a for a, v in lits.items() if a.op == "any" and v == 1]
    neg = [a for a, v in lits.items() if a.op == "any" and v == 0]
    for p in pos:
        s = fresh("ix")
        c = subst(p.a[2], {bvar(p.a[1]): s})
        l2 = dict(lits)
        del l2[p]
        for a, k in when_true(AND(lt(s, p.a[0]), c)):
            l2[a] = k
        for q in neg:
            if q.a[0] is p.a[0] or entails(l2, lt(s, q.a[0])):
                e = subst(q.a[2], {bvar(q.a[1]): s})
                r = passume_(e, l2)
                if r is TRUE or restrict(NOT(e), c) is FALSE:
                    return True
        if contradictory(l2):
            return True
    return False


def replace(t, m):
    """replace whole terms (not only symbols)"""
    memo = {}
    has = {}

    def mentions(t):
        r = has.get(t)
        if r is None:
            r = t in m or any(mentions(x) for x in children(t))
            has[t] = r
        return r

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if not mentions(t):
            return t
        r = memo.get(t)
        if r is None:
            r = tm._subst_node(t, go, {})
            memo[t] = r
        return r
    return go(t)


_of = {}


def outer_folds(t):
    """the loop results in t that are not inside another binder"""
    r = _of.get(t)
    if r is None:
        if t.op == "foldv":
            r = frozenset((t,))
        elif t.op in ("for", "sum", "any", "first", "lam"):
            r = frozenset()
        else:
            r = frozenset()
            for x in children(t):
                r |= outer_folds(x)
        _of[t] = r
    return r


_ind = {}


def inductive(c, facts, pcs):
    """c follows from an invariant of a loop: for every value of the loop's control state there is a set of
    control states in which c holds initially and is preserved by each transition into the set"""
    groups = {}
    for x in outer_folds(c):
        groups.setdefault(x.a[1:5], set()).add(x)
    for gk, xs in groups.items():
        n, hs, inits, bs = gk
        ctl = {}
        for a, v in facts.items():
            if a.op == "discr" and a.a[0].op == "foldv" and a.a[0].a[1:5] == gk and isinstance(v, int):
                ctl[a.a[0].a[0]] = (a, v)
        if not ctl:
            continue
        key = (c, gk, tuple(sorted((k, v[1]) for k, v in ctl.items())))
        r = _ind.get(key)
        if r is None:
            r = _inductive(c, gk, xs, ctl, facts)
            _ind[key] = r
        if r:
            return True
    return False


def _inductive(c, gk, xs, ctl, facts):
    n, hs, inits, bs = gk
    xi = fresh("ix")
    syms = [fresh("ac") for _ in inits]
    some_ = next(iter(xs))

    def nth(k):
        return tm._mk("foldv", (k,) + some_.a[1:])
    m = {}
    related = [a for a in facts if a.op in ("ge0", "eq0") and any(x.a[1:5] == gk for x in outer_folds(a))]
    for t in [c] + related:
        for x in outer_folds(t):
            if x.a[1:5] == gk:
                m[x] = syms[x.a[0]]
    goals = []
    for a in related:
        v = facts[a]
        if True:
            b = B(replace(a, m))
            goals.append(b if v == 1 else NOT(b))
    goals.append(replace(c, m))
    if goals[-1] is FALSE:
        return False
    sm = {bvar(hs[0]): xi}
    for k, s in enumerate(syms):
        sm[avar(hs[1 + k])] = s
    nexts = [subst(b, sm) for b in bs]
    im = dict(zip(syms, inits))
    for k, (a, v) in ctl.items():
        path = a.a[1]
        lemmas = []
        for g in goals:
            C = _states(g, k, path, syms, im, nexts, lemmas)
            lemmas.append((g, C))
        if v in lemmas[-1][1]:
            return True
    return False


def _states(g, k, path, syms, im, nexts, lemmas):
    """the greatest set of control states in which g is invariant"""
    allv = set(tm.variant_discr(path, i) for i in range(len(tm.ADTS[path])))
    C = set(allv)
    ginit = subst(g, im)
    ctlatom = discr_of(syms[k], path)
    if ginit is not TRUE:
        d0 = discr_of(im[syms[k]], path)
        if d0.op != "int":
            return set()
        C.discard(d0.a[0])
    changed = True
    while changed:
        changed = False
        for s in allv:
            lits = {ctlatom: s}
            pre = [passume_(h, lits) for h, D in lemmas if s in D]
            if s in C:
                pre.append(passume_(g, lits))
            nc = passume_(discr_of(nexts[k], path), lits)
            for p, leaf in leaves(nc):
                if leaf is BOT:
                    continue
                w = s if leaf is ctlatom else (leaf.a[0] if leaf.op == "int" else None)
                targets = set(C) if w is None else ({w} & C)
                if not targets:
                    continue
                l2 = dict(lits)
                for a2, k2 in p:
                    if k2 is not None:
                        l2[a2] = k2
                l2 = lits_of(l2, pre)
                g2 = subst(g, {sy: passume_(nx, l2) for sy, nx in zip(syms, nexts)})
                if not holds_(g2, l2, pre):
                    C -= targets
                    changed = True
                    break
            if changed:
                break
    return C
