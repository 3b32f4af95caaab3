"""Hash-consed value terms: affine integers, decision diagrams, sequences as comprehensions.

Binders are closed with height names (b_h), so alpha-equivalent terms are the same object.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "a", "id", "fs", "h", "key", "memo", "site")

    def __repr__(self):
        return show(self)


_table = {}
_ctr = [0]
_fresh = [0]
SITE = [None]      # where in the analysed source new terms come from
EMPTY = frozenset()


INNER = 1 << 40


def rank(fs):
    """decisions on what is fixed come before decisions on what varies, and those on outer before inner variables,
    so that closing a binder keeps their order"""
    if not fs:
        return 0
    m = max(fs)
    for f in fs:
        if f < 0 and INNER + f > m:
            m = INNER + f
    return m


def _mk(op, a, bind=None):
    k = (op, a)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.site = SITE[0]
    _ctr[0] += 1
    t.id = _ctr[0]
    fs = EMPTY
    h = 0
    for x in a:
        if type(x) is T:
            if x.fs:
                fs = fs | x.fs if fs else x.fs
            if x.h > h:
                h = x.h
        elif type(x) is tuple:
            for y in x:
                if type(y) is tuple:
                    for z in y:
                        if type(z) is T:
                            if z.fs:
                                fs = fs | z.fs if fs else z.fs
                            if z.h > h:
                                h = z.h
                elif type(y) is T:
                    if y.fs:
                        fs = fs | y.fs if fs else y.fs
                    if y.h > h:
                        h = y.h
    if bind is not None:
        fs = fs - frozenset(-b for b in bind)
        h = max(h, max(bind))
    t.fs = fs
    t.h = h
    t.key = (rank(fs), t.id)
    t.memo = None
    _table[k] = t
    return t


def fresh(name, ty=None):
    _fresh[0] += 1
    t = _mk("sym", (name, _fresh[0]))
    if not t.fs:
        t.fs = frozenset([_fresh[0]])
        t.key = (_fresh[0], t.id)
    return t


def bvar(h):
    t = _mk("b", (h,))
    if not t.fs:
        t.fs = frozenset([-h])
        t.key = (INNER - h, t.id)
    return t


def avar(h):
    """a bound accumulator: unlike an index, it may be anything"""
    t = _mk("b", (h, "acc"))
    if not t.fs:
        t.fs = frozenset([-h])
        t.key = (INNER - h, t.id)
    return t


def bound(hs, syms):
    m = {}
    for h, s in zip(hs, syms):
        m[bvar(h)] = s
        m[avar(h)] = s
    return m


def inp(name):
    return _mk("in", (name,))


def I(n):
    return _mk("int", (int(n),))


ZERO = I(0)
ONE = I(1)
TRUE = ONE
FALSE = ZERO
BOT = _mk("bot", ())
UNIT = _mk("tup", ())


def S(s):
    return _mk("str", (s,))


def F(x):
    f = float(x)
    if f == int(f) if f == f and abs(f) < 1e15 else False:
        return I(int(f))
    return _mk("flt", (repr(f),))


def is_int(t):
    return t.op == "int"


# ---------------------------------------------------------------- linear forms
def _lin_parts(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    if t.op == "flt":
        return 0, {t: 1}
    return 0, {t: 1}


def mk_lin(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return I(c) if c == int(c) else _mk("flt", (repr(c),))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk("lin", (c, tuple(items)))


def lift(f, *ts):
    """apply f to the leaves of the decision diagrams ts"""
    top = None
    for t in ts:
        if t.op == "sw" and (top is None or t.a[0].key < top.key):
            top = t.a[0]
    if top is None:
        return f(*ts)
    keys = set()
    hasdef = False
    for t in ts:
        if t.op == "sw" and t.a[0] is top:
            keys.update(k for k, _ in t.a[1])
            hasdef = hasdef or t.a[2] is not None
    kids = {}
    for k in sorted(keys):
        kids[k] = lift(f, *[cof(t, top, k) for t in ts])
    d = None
    if hasdef:
        d = lift(f, *[cof(t, top, None) for t in ts])
    return SW(top, kids, d)


def has_dd(*ts):
    return any(t.op == "sw" for t in ts)


def iszero(t):
    return t is ZERO or (t.op == "vec" and all(x is ZERO for x in t.a))


def add(a, b):
    if has_dd(a, b):
        return lift(add, a, b)
    if a is BOT or b is BOT:
        return BOT
    if iszero(a):
        return b
    if iszero(b):
        return a
    if a.op == "vec" and b.op == "vec" and len(a.a) == len(b.a):
        return vec(*[add(x, y) for x, y in zip(a.a, b.a)])
    ca, da = _lin_parts(a)
    cb, db = _lin_parts(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return mk_lin(ca + cb, da)


def scale(a, k):
    if has_dd(a):
        return lift(lambda x: scale(x, k), a)
    if a is BOT:
        return BOT
    if a.op == "vec":
        return vec(*[scale(x, k) for x in a.a])
    c, d = _lin_parts(a)
    return mk_lin(c * k, {t: v * k for t, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if has_dd(a, b):
        return lift(mul, a, b)
    if a is BOT or b is BOT:
        return BOT
    if a.op == "int":
        return scale(b, a.a[0])
    if b.op == "int":
        return scale(a, b.a[0])
    fs = []
    for x in (a, b):
        if x.op == "mul":
            fs.extend(x.a)
        else:
            fs.append(x)
    fs.sort(key=lambda t: t.id)
    return _mk("mul", tuple(fs))


def div(a, b):
    if has_dd(a, b):
        return lift(div, a, b)
    if a is BOT or b is BOT:
        return BOT
    if b is ONE:
        return a
    if a.op == "int" and b.op == "int" and b.a[0] != 0 and a.a[0] % b.a[0] == 0:
        return I(a.a[0] // b.a[0])
    if iszero(a):
        return a
    return _mk("div", (a, b))


def idiv(a, b):
    if has_dd(a, b):
        return lift(idiv, a, b)
    if a is BOT or b is BOT:
        return BOT
    if b is ONE:
        return a
    if a.op == "int" and b.op == "int" and b.a[0] > 0 and a.a[0] >= 0:
        return I(a.a[0] // b.a[0])
    if a.op == "idiv" and b.op == "int" and a.a[1].op == "int" and b.a[0] > 0 and a.a[1].a[0] > 0:
        return idiv(a.a[0], I(a.a[1].a[0] * b.a[0]))
    return _mk("idiv", (a, b))


def irem(a, b):
    if has_dd(a, b):
        return lift(irem, a, b)
    if a.op == "int" and b.op == "int" and b.a[0] > 0 and a.a[0] >= 0:
        return I(a.a[0] % b.a[0])
    return _mk("irem", (a, b))


def imin(a, b):
    if has_dd(a, b):
        return lift(imin, a, b)
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "first" and nonneg(sub(y, x.a[0])):
            return x     # an index below its range
    d = sub(a, b)
    if nonneg(d):
        return b
    if nonneg(scale(d, -1)):
        return a
    if b.id < a.id:
        a, b = b, a
    return _mk("min", (a, b))


def imax(a, b):
    if has_dd(a, b):
        return lift(imax, a, b)
    if a is b:
        return a
    d = sub(a, b)
    if nonneg(d):
        return a
    if nonneg(scale(d, -1)):
        return b
    if b is ZERO or a is ZERO:
        x = a if b is ZERO else b
        return monus(x, ZERO)
    if b.id < a.id:
        a, b = b, a
    return _mk("max", (a, b))


def monus(a, b):
    """max(a-b, 0)"""
    if has_dd(a, b):
        return lift(monus, a, b)
    d = sub(a, b)
    if nonneg(d):
        return d
    if nonneg(scale(d, -1)):
        return ZERO
    if d.op == "lin" and d.a[0] < 0 and len(d.a[1]) == 1 and d.a[1][0][1] == 1 and d.a[1][0][0].op == "monus":
        inner = d.a[1][0][0]
        return _mk("monus", (sub(inner.a[0], I(-d.a[0])),))
    return _mk("monus", (d,))


NONNEG = {"len", "monus", "sum", "first", "b_ix", "uint", "le", "byte", "filelen", "count", "at_u"}


def nonneg_atom(t):
    if t.op in ("len", "monus", "sum", "first", "le", "byte", "filelen", "bits", "mulast"):
        return True
    if t.op in ("min",):
        return nonneg(t.a[0]) and nonneg(t.a[1])
    if t.op in ("max",):
        return nonneg(t.a[0]) or nonneg(t.a[1])
    if t.op in ("mul", "idiv", "irem"):
        return all(nonneg(x) for x in t.a)
    if t.op == "sym":
        return t.a[0].startswith("ix") or t.a[0].startswith("u:")
    if t.op == "b":
        return len(t.a) == 1   # an index
    if t.op in ("fld", "at", "cast"):
        return t in UNSIGNED
    return t in UNSIGNED


UNSIGNED = set()


def nonneg(t):
    if t.op == "int":
        return t.a[0] >= 0
    if t.op == "lin":
        return t.a[0] >= 0 and all(k > 0 and nonneg_atom(x) for x, k in t.a[1])
    return nonneg_atom(t)


# ---------------------------------------------------------------- decision diagrams
def cof(t, atom, k):
    """cofactor of a decision diagram (top level only); k None = a value not listed"""
    if t.op != "sw":
        return t
    if t.a[0] is atom:
        for kk, x in t.a[1]:
            if kk == k:
                return x
        if t.a[2] is not None:
            return t.a[2]
        return BOT
    if t.a[0].key > atom.key:
        return t
    # atom may occur lower
    kids = {kk: cof(x, atom, k) for kk, x in t.a[1]}
    d = cof(t.a[2], atom, k) if t.a[2] is not None else None
    return SW(t.a[0], kids, d)


def seq_parts(t):
    if t.op == "lit":
        return [_mk("lit", (x,)) for x in t.a]
    if t.op == "cat":
        r = []
        for p in t.a:
            if p.op == "lit":
                r.extend(_mk("lit", (x,)) for x in p.a)
            else:
                r.append(p)
        return r
    if t.op == "str":
        return [t] if t.a[0] else []
    return [t]


ORDERING = "core::cmp::Ordering"


def ordering(x, kids, default):
    """a comparison's outcome passed on as it is, or reversed"""
    if x.op != "app" or x.a[0] not in ("total_cmp", "cmp"):
        return None
    vs = [kids.get(k, kids.get(k & 255, default)) for k in (-1, 0, 1)]
    if any(v is None or v.op != "adt" for v in vs):
        return None
    vs = [v.a[1] for v in vs]
    if vs == [0, 1, 2]:
        return x
    if vs == [2, 1, 0]:
        return _mk("app", (x.a[0], x.a[2], x.a[1]))
    return None


def SW(atom, kids, default=None):
    if atom.op == "sw":
        return lift(lambda a: SW(a, kids, default), atom) if False else sw_on(atom, kids, default)
    if atom.op == "int":
        v = atom.a[0]
        if v in kids:
            return kids[v]
        return default if default is not None else BOT
    if atom is BOT:
        return BOT
    ts = list(kids.values())
    if default is not None:
        ts.append(default)
    live = [t for t in ts if t is not BOT]
    if not live:
        return BOT
    f = live[0]
    if all(t is f for t in live):
        return f
    if f.op == "adt" and atom.op == "discr" and f.a[0] == atom.a[1] == ORDERING:
        x = ordering(atom.a[0], kids, default)
        if x is not None:
            return x
    top = None
    for t in ts:
        if t.op == "sw" and (top is None or t.a[0].key < top.key):
            top = t.a[0]
    if top is not None and top.key < atom.key:
        keys = set()
        hasdef = False
        for t in ts:
            if t.op == "sw" and t.a[0] is top:
                keys.update(k for k, _ in t.a[1])
                hasdef = hasdef or t.a[2] is not None
        nk = {}
        for k in sorted(keys):
            nk[k] = SW(atom, {kk: cof(x, top, k) for kk, x in kids.items()},
                       cof(default, top, k) if default is not None else None)
        d = None
        if hasdef:
            d = SW(atom, {kk: cof(x, top, None) for kk, x in kids.items()},
                   cof(default, top, None) if default is not None else None)
        return SW(top, nk, d)
    if top is atom:
        kids = {kk: cof(x, atom, kk) for kk, x in kids.items()}
        if default is not None:
            # keys known to the children but not to this node
            extra = set()
            if default.op == "sw" and default.a[0] is atom:
                for k, x in default.a[1]:
                    if k not in kids:
                        kids[k] = x
                default = default.a[2] if default.a[2] is not None else None
        return SW(atom, kids, default)
    if top is None:
        m = merge_leaves(atom, kids, default, live)
        if m is not None:
            return m
    if default is not None:
        kids = {k: t for k, t in kids.items() if t is not default}
        if not kids:
            return default
    return _mk("sw", (atom, tuple(sorted(kids.items(), key=lambda p: p[0])), default))


def merge_leaves(atom, kids, default, live):
    """push the choice into equal constructors"""
    f = live[0]
    if f.op in ("adt", "tup", "vec", "iter", "file", "clo", "map", "nomp", "darg"):
        if f.op == "adt":
            if not all(t.op == "adt" and t.a[0] == f.a[0] and t.a[1] == f.a[1] and len(t.a) == len(f.a) for t in live):
                return None
        elif not all(t.op == f.op and len(t.a) == len(f.a) for t in live):
            return None
        n = len(f.a)
        for i in range(n):
            if type(f.a[i]) is not T and any(t.a[i] != f.a[i] for t in live):
                return None
        if not any(type(x) is T for x in f.a):
            return None
        out = []
        for i in range(n):
            if type(f.a[i]) is not T:
                out.append(f.a[i])
            else:
                out.append(SW(atom, {k: (BOT if t is BOT else t.a[i]) for k, t in kids.items()},
                              None if default is None else (BOT if default is BOT else default.a[i])))
        return rebuild(f.op, tuple(out))
    if all(t.op in ("lit", "cat", "for", "str") or is_seq(t) for t in live) and any(t.op in ("lit", "cat") for t in live):
        ps = {k: (None if t is BOT else seq_parts(t)) for k, t in kids.items()}
        if default is not None:
            ps["*"] = None if default is BOT else seq_parts(default)
        lv = [p for p in ps.values() if p is not None]
        n = min(len(p) for p in lv)
        pre = 0
        while pre < n and all(p[pre] is lv[0][pre] for p in lv):
            pre += 1
        suf = 0
        while suf < n - pre and all(p[len(p) - 1 - suf] is lv[0][len(lv[0]) - 1 - suf] for p in lv):
            suf += 1
        if pre or suf:
            def mid(p):
                return BOT if p is None else cat(*p[pre:len(p) - suf])
            m = SW(atom, {k: mid(ps[k]) for k in kids}, mid(ps["*"]) if default is not None else None)
            return cat(*(lv[0][:pre] + [m] + (lv[0][len(lv[0]) - suf:] if suf else [])))
        if all(t.op == "lit" for t in live) and len(set(len(t.a) for t in live)) == 1 and len(f.a) > 0:
            out = []
            for i in range(len(f.a)):
                out.append(SW(atom, {k: (BOT if t is BOT else t.a[i]) for k, t in kids.items()},
                              None if default is None else (BOT if default is BOT else default.a[i])))
            return lit(*out)
    return None


def is_seq(t):
    return t.op in ("lit", "cat", "for", "str", "split", "lines", "words", "lower", "disp", "chars")


def sw_on(x, kids, default):
    """switch on a scrutinee that may itself be a decision diagram"""
    if x.op != "sw":
        return SW(x, kids, default)
    nk = {k: sw_on(t, kids, default) for k, t in x.a[1]}
    nd = sw_on(x.a[2], kids, default) if x.a[2] is not None else None
    return SW(x.a[0], nk, nd)


def ite(c, a, b):
    if a is b:
        return a
    return sw_on(c, {0: b, 1: a}, None)


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, B(c), FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, B(c))
    return r


_rm = {}


def restrict(f, care):
    """simplify f using care as a don't-care set complement"""
    if care is TRUE or f.op != "sw":
        return f
    if care is FALSE or care is BOT:
        return f
    k = (f, care)
    r = _rm.get(k)
    if r is not None:
        return r
    if care.op != "sw":
        return f
    ca, fa = care.a[0], f.a[0]
    if ca.key < fa.key:
        kids = [x for _, x in care.a[1]] + ([care.a[2]] if care.a[2] is not None else [])
        r = restrict(f, OR(*[x for x in kids if x is not BOT]))
    else:
        kids = {}
        for kk, x in f.a[1]:
            c = cof(care, fa, kk)
            kids[kk] = BOT if c is FALSE else restrict(x, c)
        d = None
        if f.a[2] is not None:
            c = cof(care, fa, None)
            # the default also covers keys listed only in care
            d = restrict(f.a[2], c) if c is not FALSE else f.a[2]
        r = SW(fa, kids, d)
    _rm[k] = r
    return r


def leaves(t):
    """(path, leaf) pairs of a decision diagram; path is a tuple of (atom, key or None)"""
    out = []

    def go(t, p):
        if t.op == "sw":
            for k, x in t.a[1]:
                go(x, p + ((t.a[0], k),))
            if t.a[2] is not None:
                go(t.a[2], p + ((t.a[0], None),))
        else:
            out.append((p, t))
    go(t, ())
    return out


def leafset(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == "sw":
        for _, x in t.a[1]:
            leafset(x, acc, seen)
        if t.a[2] is not None:
            leafset(t.a[2], acc, seen)
    else:
        acc.append(t)
    return acc


def dd_atoms(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t.id in seen or t.op != "sw":
        return acc
    seen.add(t.id)
    if t.a[0] not in acc:
        acc.append(t.a[0])
    for _, x in t.a[1]:
        dd_atoms(x, acc, seen)
    if t.a[2] is not None:
        dd_atoms(t.a[2], acc, seen)
    return acc


def assume(t, facts):
    """simplify the top-level diagram of t by known atom values"""
    if t.op != "sw" or not facts:
        return t
    a = t.a[0]
    k = facts.get(a)
    if k is not None:
        return assume(cof(t, a, k), facts)
    kids = {kk: assume(x, facts) for kk, x in t.a[1]}
    d = assume(t.a[2], facts) if t.a[2] is not None else None
    return SW(a, kids, d)


def when_true(c):
    """literals forced by condition c being true: [(atom,key)]"""
    out = []
    c = B(c)
    while c.op == "sw":
        ks = [(k, x) for k, x in c.a[1] if x is not FALSE and x is not BOT]
        if c.a[2] is not None and c.a[2] is not FALSE and c.a[2] is not BOT:
            ks.append((None, c.a[2]))
        if len(ks) != 1 or ks[0][0] is None:
            # look for literals common to all branches
            if len(ks) > 1 and c.a[2] is None:
                sets = [dict(when_true(x)) for _, x in ks]
                for a, k in sets[0].items():
                    if all(a in s and s[a] == k for s in sets[1:]):
                        out.append((a, k))
            break
        out.append((c.a[0], ks[0][0]))
        c = ks[0][1]
    return out


# ---------------------------------------------------------------- comparisons
def B(atom):
    """boolean atom as a condition"""
    if atom.op == "sw" or atom.op == "int" or atom is BOT:
        return atom
    return SW(atom, {0: FALSE, 1: TRUE})


def ge0(e):
    if has_dd(e):
        return lift(ge0, e)
    if e is BOT:
        return BOT
    if e.op == "int":
        return TRUE if e.a[0] >= 0 else FALSE
    if nonneg(e):
        return TRUE
    c, d = _lin_parts(e)
    if all(k < 0 and nonneg_atom(t) for t, k in d.items()) and c < 0:
        return FALSE
    # monus(x) >= k with k>=1  <=>  x >= k
    if len(d) == 1:
        (t, k), = d.items()
        if t.op == "monus" and k == 1 and c < 0:
            return ge0(add(t.a[0], I(c)))
        if t.op == "monus" and k == -1 and c >= 0:
            # c - monus(x) >= 0  <=> x <= c
            return ge0(sub(I(c), t.a[0]))
        if t.op == "min" and k == 1:
            return AND(ge0(add(t.a[0], I(c))), ge0(add(t.a[1], I(c))))
        if t.op == "min" and k == -1:
            return OR(ge0(sub(I(c), t.a[0])), ge0(sub(I(c), t.a[1])))
        if abs(k) > 1 and float(k) == int(k):
            import math
            c = math.floor(c / abs(k))
            k = 1 if k > 0 else -1
            d = {t: k}
    first = min(d, key=lambda t: t.id)
    if d[first] < 0:
        return SW(_mk("ge0", (mk_lin(-c - 1, {t: -k for t, k in d.items()}),)), {0: TRUE, 1: FALSE})
    return B(_mk("ge0", (mk_lin(c, d),)))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge0(sub(b, a))


def ieq(a, b):
    e = sub(a, b)
    return eq0(e)


def eq0(e):
    if has_dd(e):
        return lift(eq0, e)
    if e is BOT:
        return BOT
    if e.op == "int":
        return TRUE if e.a[0] == 0 else FALSE
    if nonneg(e):
        return NOT(ge0(sub(e, ONE)))
    if nonneg(scale(e, -1)):
        return NOT(ge0(sub(scale(e, -1), ONE)))
    c, d = _lin_parts(e)
    if c > 0 and all(k > 0 and nonneg_atom(t) for t, k in d.items()):
        return FALSE
    if c < 0 and all(k < 0 and nonneg_atom(t) for t, k in d.items()):
        return FALSE
    if len(d) == 1:
        (t, k), = d.items()
        if t.op == "monus" and c != 0:
            # a positive value of max(x, 0) is x's
            return eq0(add(scale(t.a[0], k), I(c)))
    first = min(d, key=lambda t: t.id)
    if d[first] < 0:
        e = scale(e, -1)
    return B(_mk("eq0", (e,)))


def eq(a, b, fl=False):
    """equality of opaque values; fl: may contain floats (not reflexive)"""
    if has_dd(a, b):
        return lift(lambda x, y: eq(x, y, fl), a, b)
    if a is BOT or b is BOT:
        return BOT
    if a is b and not fl:
        return TRUE
    if a.op == "adt" and b.op == "adt":
        if a.a[1] != b.a[1]:
            return FALSE
        return AND(*[eq(x, y, fl) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == "tup" and b.op == "tup":
        return AND(*[eq(x, y, fl) for x, y in zip(a.a, b.a)])
    if a.op == "str" and b.op == "str":
        return TRUE if a is b else FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a is b else FALSE
    if is_arith(a) or is_arith(b):
        if not fl:
            return ieq(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and x.a[0] in ADTS and len(ADTS[x.a[0]]) > 1:
            d = discr_of(y, x.a[0])
            k = variant_discr(x.a[0], x.a[1])
            fs = [eq(v, fld(y, x.a[0], x.a[1], i), fl) for i, v in enumerate(x.a[2:])]
            return ite(SW(d, {k: TRUE}, FALSE) if d.op != "sw" else sw_on(d, {k: TRUE}, FALSE), AND(*fs), FALSE)
    # string literals on literal sequences
    if a.op == "str" and b.op == "lit" or b.op == "str" and a.op == "lit":
        s, l = (a, b) if a.op == "str" else (b, a)
        if len(s.a[0]) != len(l.a):
            return FALSE
    for x, y in ((a, b), (b, a)):
        # sequences of known lengths: element by element
        if x.op == "lit" and len(x.a) <= 16 and y.op in ("lit", "for"):
            n = length(y)
            if n.op == "int":
                if n.a[0] != len(x.a):
                    return FALSE
                return AND(*[eq(v, at(y, I(i)), fl) for i, v in enumerate(x.a)])
    if a.id > b.id:
        a, b = b, a
    return B(_mk("feq" if fl else "eq", (a, b)))


def is_arith(t):
    return t.op in ("int", "lin", "len", "monus", "sum", "idiv", "irem", "first", "le", "byte", "mul")


def app(name, *args):
    if has_dd(*args):
        return lift(lambda *xs: app(name, *xs), *args)
    if any(x is BOT for x in args):
        return BOT
    return _mk("app", (name,) + args)


def opaque(name, *args):
    return _mk("opq", (name,) + args)


# ---------------------------------------------------------------- algebraic data
ADTS = {}      # path -> [(variant name, discr int, [field names])]
SOME, NONE, OK, ERR = 1, 0, 0, 1
OPT = "core::option::Option"
RES = "core::result::Result"


def variant_discr(path, v):
    vs = ADTS.get(path)
    if vs and vs[v][1] is not None:
        return vs[v][1]
    return v


def adt(path, v, *fields):
    # eta: all fields project the same opaque value
    vs = ADTS.get(path)
    if fields and fields[0].op == "fld" and vs and len(vs) == 1:
        x = fields[0].a[0]
        if all(f.op == "fld" and f.a[0] is x and f.a[1] == path and f.a[3] == i for i, f in enumerate(fields)):
            return x
    assert path != OPT or v != SOME or fields
    return _mk("adt", (path, v) + fields)


def some(x):
    return adt(OPT, SOME, x)


NONE_T = None


def none():
    return adt(OPT, NONE)


def ok(x):
    return adt(RES, OK, x)


def err(x):
    return adt(RES, ERR, x)


def fld(x, path, v, i):
    if x.op == "sw":
        return lift(lambda y: fld(y, path, v, i), x)
    if x.op == "adt":
        if x.a[1] != v or x.a[0] != path:
            return BOT
        return x.a[2 + i]
    if x is BOT:
        return BOT
    if x.op in ("opq",) and x.a[0] == "undef":
        return x
    r = _mk("fld", (x, path, v, i))
    if (path, v, i) in UFIELDS:
        UNSIGNED.add(r)
    return INV.get(r, r)


UFIELDS = set()
INV = {}       # fields of loop results that are known to be the index of the last element of another result


def discr_of(x, path):
    """discriminant term (decision atom or constants)"""
    if x.op == "sw":
        return lift(lambda y: discr_of(y, path), x)
    if x.op == "adt":
        return I(variant_discr(x.a[0], x.a[1]))
    if x is BOT:
        return BOT
    vs = ADTS.get(path)
    if vs and len(vs) == 1:
        return I(vs[0][1] if vs[0][1] is not None else 0)
    return _mk("discr", (x, path))


def is_variant(x, path, v):
    d = discr_of(x, path)
    k = variant_discr(path, v)
    vs = ADTS.get(path)
    if vs:
        kids = {variant_discr(path, i): (TRUE if i == v else FALSE) for i in range(len(vs))}
        return sw_on(d, kids, None)
    return sw_on(d, {k: TRUE}, FALSE)


def tup(*xs):
    return _mk("tup", tuple(xs))


def proj(x, i):
    if x.op == "sw":
        return lift(lambda y: proj(y, i), x)
    if x.op == "tup":
        return x.a[i] if i < len(x.a) else BOT
    if x is BOT:
        return BOT
    return _mk("prj", (x, i))


def vec(*xs):
    if xs and all(x.op == "sw" and x.a[0] is xs[0].a[0] for x in xs):
        # a choice between whole opaque vectors, taken apart and put together
        ks = {k for x in xs for k, _ in x.a[1]}
        kids = {k: vec(*[cof(x, xs[0].a[0], k) for x in xs]) for k in ks}
        d = None
        if any(x.a[2] is not None for x in xs):
            d = vec(*[cof(x, xs[0].a[0], None) for x in xs])
        if not any(y.op == "vec" for y in list(kids.values()) + ([d] if d is not None else [])):
            return SW(xs[0].a[0], kids, d)
    if xs and xs[0].op == "comp":
        v = xs[0].a[0]
        if all(x.op == "comp" and x.a[0] is v and x.a[1] == i for i, x in enumerate(xs)):
            return v
    return _mk("vec", tuple(xs))


def comp(v, i):
    if v.op == "sw":
        return lift(lambda y: comp(y, i), v)
    if v is BOT:
        return BOT
    if v.op == "vec":
        return v.a[i]
    if v is ZERO:
        return ZERO
    if v.op == "lin":
        r = ZERO
        for t, k in v.a[1]:
            r = add(r, scale(comp(t, i), k))
        return r
    return _mk("comp", (v, i))


# ---------------------------------------------------------------- sequences
def lit(*xs):
    return _mk("lit", tuple(xs))


NIL = lit()


def cat(*ps):
    out = []
    for p in ps:
        if p is BOT:
            return BOT
        if p.op == "cat":
            out.extend(p.a)
        elif p.op == "lit" and not p.a:
            continue
        elif p.op == "str" and p.a[0] == "":
            continue
        else:
            out.append(p)
    m = []
    for p in out:
        if m and p.op == "lit" and m[-1].op == "lit":
            m[-1] = lit(*(m[-1].a + p.a))
        elif m and p.op == "str" and m[-1].op == "str":
            m[-1] = S(m[-1].a[0] + p.a[0])
        else:
            m.append(p)
    if not m:
        return NIL
    if len(m) == 1:
        return m[0]
    return _mk("cat", tuple(m))


def close(syms, bodies):
    """rename fresh symbols to height names; returns (heights, bodies)"""
    h = max([b.h for b in bodies] + [0])
    hs = []
    m = {}
    for s in syms:
        h += 1
        hs.append(h)
        m[s] = bvar(h) if s.a[0].startswith(("ix", "u:")) else avar(h)
    return tuple(hs), rename(bodies, m)


def open_(hs, bodies, syms):
    m = bound(hs, syms)
    if all(s.op in ("sym", "b") for s in syms):
        return rename(bodies, m)
    return [subst(b, m) for b in bodies]


def ix(n=None):
    return fresh("ix")


def depends(t, s):
    (k,) = s.fs
    return k in t.fs


def float_out(body, s, f):
    """hoist decisions that do not depend on s out of a binder"""
    if body.op == "sw" and not depends(body.a[0], s):
        kids = {k: float_out(x, s, f) for k, x in body.a[1]}
        d = float_out(body.a[2], s, f) if body.a[2] is not None else None
        return SW(body.a[0], kids, d)
    return f(body)


def under(n, s, body):
    """simplify body knowing 0 <= s < n"""
    if ASSUME is None or body.op not in ("sw", "lit", "cat"):
        return body
    f = {}
    for a, k in when_true(lt(s, n)):
        f[a] = k
    if not f:
        return body
    f[_mk("ge0", (s,))] = 1

    def go(t, d):
        if t.op == "sw":
            t = ASSUME(t, f)
            if t.op == "sw":
                return t
        if d and t.op in ("lit", "cat", "adt", "tup") and depends(t, s):
            a = tuple(go(x, d - 1) if type(x) is T else x for x in t.a)
            if a != t.a:
                return rebuild(t.op, a)
        return t
    return go(body, 3)


ASSUME = None


def For(n, s, body):
    """concatenation of body (a sequence) for s in 0..n"""
    if n.op == "sw":
        return lift(lambda m: For(m, s, body), n)
    if body is NIL or n is ZERO:
        return NIL
    if n is ONE:
        return subst(body, {s: ZERO})
    if n.op == "min" and ONE in n.a:
        return ite(ge0(sub(n.a[1] if n.a[0] is ONE else n.a[0], ONE)), subst(body, {s: ZERO}), NIL)
    if n is BOT or body is BOT:
        return BOT
    body = under(n, s, body)
    fu = fusable(n, s, [body])
    if fu is not None:
        F, e, (b,) = fu
        if type(F) is tuple:
            return For(F[0], F[1], flatmap(F[2], lambda x: subst(b, {e: x})))
        return flatmap(F, lambda x: subst(b, {e: x}))
    return float_out(body, s, lambda b: _for(n, s, b))


def fusable(n, s, bodies):
    """a traversal of a filtered or nested sequence that only looks at the elements, or at sums and unions over those
    before: (sequence, element, bodies); with such prefixes the sequence is given as (count, index, elements at the index)"""
    if not (n.op == "sum" or n.op == "lin" and any(t.op == "sum" for t, _ in n.a[1])):
        return None
    F = None
    seen = set()
    pre = []
    todo = [b for b in bodies if depends(b, s)]
    while todo:
        x = todo.pop()
        if x.id in seen or not depends(x, s):
            continue
        seen.add(x.id)
        if x.op == "at" and x.a[1] is s and not depends(x.a[0], s):
            if F is None:
                F = x.a[0]
            elif F is not x.a[0]:
                return None
            continue
        if x.op in ("sum", "for", "any") and x.a[0] is s and min(x.fs) > 0:
            pre.append(x)
            continue
        if x is s:
            return None
        todo.extend(children(x))
    for x in pre:
        y = x.a[2]
        if F is None:
            for z in walk(y, set()):
                if z.op == "at" and z.a[1] is bvar(x.a[1]) and not depends(z.a[0], s):
                    F = z.a[0]
                    break
        if F is None:
            return None
    if F is None or F.op != "for" and (pre or not (F.op == "cat" and any(p.op == "for" for p in F.a))) or length(F) is not n:
        return None
    e = fresh("el")
    m = {at(F, s): e}
    t = None
    if pre:
        t = fresh("ix")
        P = For(t, z := fresh("ix"), subst(F.a[2], {bvar(F.a[1]): z}))
        for x in pre:
            z = fresh("ix")
            b = subst(x.a[2], {bvar(x.a[1]): z})
            b = subst(b, {at(F, z): e})
            if depends(b, z) or depends(b, s):
                return None
            g = {"sum": seq_sum, "for": flatmap, "any": seq_any}[x.op]
            m[x] = g(P, lambda y, b=b: subst(b, {e: y}))
    r = [subst(b, m) for b in bodies]
    if t is not None:
        if any(depends(b, s) for b in r):
            return None
        j = fresh("ix")
        b = subst(F.a[2], {bvar(F.a[1]): j})
        return (F.a[0], j, b), e, [subst(x, {t: j}) for x in r]
    return F, e, r


def _for(n, s, body):
    if body is NIL:
        return NIL
    if body is BOT:
        return BOT
    # eta
    if body.op == "lit" and len(body.a) == 1 and body.a[0].op == "at":
        at_ = body.a[0]
        if at_.a[1] is s and not depends(at_.a[0], s) and n is length(at_.a[0]):
            return at_.a[0]
    (h,), (b,) = close([s], [body])
    return _mk("for", (n, h, b), bind=(h,))


def open_for(t):
    s = fresh("ix")
    return t.a[0], s, rename([t.a[2]], {bvar(t.a[1]): s})[0]


def flatmap(t, f, indexed=False):
    """apply f (element -> sequence) to every element; f(element, index) if indexed"""
    if t is BOT:
        return BOT
    if t.op == "sw":
        return lift(lambda x: flatmap(x, f, indexed), t)
    if indexed and not indexable(t):
        n = length(t)
        s = fresh("ix")
        return For(n, s, f(at(t, s), s))
    if t.op == "lit":
        return cat(*[f(x, I(i)) if indexed else f(x) for i, x in enumerate(t.a)])
    if t.op == "cat":
        if indexed:
            off = ZERO
            out = []
            for p in t.a:
                o = off
                out.append(flatmap(p, lambda x, i, o=o: f(x, add(i, o)), True))
                off = add(off, length(p))
            return cat(*out)
        return cat(*[flatmap(p, f) for p in t.a])
    if t.op == "for":
        n, s, b = open_for(t)
        if indexed:
            return For(n, s, f(b.a[0], s))
        return For(n, s, flatmap(b, f))
    n = length(t)
    s = fresh("ix")
    x = at(t, s)
    return For(n, s, f(x, s) if indexed else f(x))


def indexable(t):
    if t.op == "lit":
        return True
    if t.op == "cat":
        return all(indexable(p) for p in t.a)
    if t.op == "for":
        return t.a[2].op == "lit" and len(t.a[2].a) == 1
    if t.op == "sw":
        return False
    return True


def smap(t, f):
    return flatmap(t, lambda x: lit(f(x)))


_len = {}


class _Shape(dict):
    def __setitem__(self, k, v):
        _len.clear()
        dict.__setitem__(self, k, v)

    def pop(self, k, d=None):
        if k in self:
            _len.clear()
        return dict.pop(self, k, d)


SHAPE = _Shape()


def shape_root(t):
    """an older sequence of the same shape (lengths at every level)"""
    if t in SHAPE:         # loop-carried value whose shape is that of its initial value
        return shape_root(SHAPE[t])
    if t.op == "foldv" and t.a[5][t.a[0]]:
        return shape_root(t.a[3][t.a[0]])
    if t.op == "at":
        r = shape_root(t.a[0])
        if r is not t.a[0] and r.op != "sw":
            return shape_root(at(r, t.a[1]))
    return t


def length(t):
    r = _len.get(t)
    if r is None:
        r = _length(t)
        _len[t] = r
    return r


def _length(t):
    if t.op == "sw":
        return lift(length, t)
    if t.op == "lit":
        return I(len(t.a))
    if t.op == "cat":
        r = ZERO
        for p in t.a:
            r = add(r, length(p))
        return r
    if t.op == "for":
        b = t.a[2]
        lb = length(b)
        if lb.op == "int":
            return scale(t.a[0], lb.a[0])
        n, s, b = open_for(t)
        return Sum(n, s, length(b))
    if t.op == "upd":
        return length(t.a[0])
    if t.op == "str":
        return I(len(t.a[0].encode()))
    if t.op == "sorted":
        return length(t.a[0])
    if t.op == "skip":
        return monus(length(t.a[0]), t.a[1])
    if t.op == "take":
        return imin(length(t.a[0]), t.a[1])
    r = shape_root(t)
    if r is not t:
        return length(r)
    if t is BOT:
        return BOT
    if t.op == "lower":
        pass
    if t.op == "at" and t.a[0].op == "upd":
        return length(at(t.a[0].a[0], t.a[1])) if t.a[0].a[1] is not t.a[1] else length(t.a[0].a[2])
    if t.op == "entries":
        return length(t.a[0]) if False else _mk("len", (t,))
    return _mk("len", (t,))


def const_upper(n):
    if n.op == "int":
        return n.a[0]
    if n.op == "min":
        us = [u for u in map(const_upper, n.a) if u is not None]
        return min(us) if us else None
    return None


def Sum(n, s, body):
    if n.op == "sw":
        return lift(lambda m: Sum(m, s, body), n)
    if body is ZERO or n is ZERO:
        return ZERO
    if n is ONE:
        return subst(body, {s: ZERO})
    fu = fusable(n, s, [body])
    if fu is not None:
        F, e, (b,) = fu
        if type(F) is tuple:
            return Sum(F[0], F[1], seq_sum(F[2], lambda x: subst(b, {e: x})))
        return seq_sum(F, lambda x: subst(b, {e: x}))
    u = const_upper(n)
    if u is not None and u <= 8:
        r = ZERO
        for k in range(u):
            r = add(r, ite(ge0(sub(n, I(k + 1))), subst(body, {s: I(k)}), ZERO))
        return r

    def go(b):
        if b is ZERO:
            return ZERO
        if not depends(b, s) and (b.op == "int" or n.op == "int"):
            return mul(n, b)
        if b.op == "lin":
            r = mul(n, I(b.a[0])) if b.a[0] else ZERO
            for t, k in b.a[1]:
                r = add(r, scale(Sum(n, s, t), k))
            return r
        (h,), (c,) = close([s], [b])
        return _mk("sum", (n, h, c), bind=(h,))
    return float_out(under(n, s, body), s, go)


def Any(n, s, cond):
    """exists s in 0..n with cond"""
    if n.op == "sw":
        return lift(lambda m: Any(m, s, cond), n)
    if n is ZERO or cond is FALSE:
        return FALSE
    if n is BOT or cond is BOT:
        return BOT
    if n is ONE:
        return subst(cond, {s: ZERO})
    if n.op == "min" and ONE in n.a:
        return ite(ge0(sub(n.a[1] if n.a[0] is ONE else n.a[0], ONE)), subst(cond, {s: ZERO}), FALSE)
    fu = fusable(n, s, [cond])
    if fu is not None:
        F, e, (b,) = fu
        if type(F) is tuple:
            return Any(F[0], F[1], seq_any(F[2], lambda x: subst(b, {e: x})))
        return seq_any(F, lambda x: subst(b, {e: x}))

    def go(c):
        if c is FALSE:
            return FALSE
        if c is TRUE:
            return ge0(sub(n, ONE))
        if c is BOT:
            return BOT
        (h,), (b,) = close([s], [c])
        return B(_mk("any", (n, h, b), bind=(h,)))
    return float_out(under(n, s, cond), s, go)


def First(n, s, cond):
    """least s in 0..n with cond (meaningful under Any)"""
    if n.op == "sw":
        return lift(lambda m: First(m, s, cond), n)
    if n is ONE or cond is TRUE or n.op == "min" and ONE in n.a:
        return ZERO

    def go(c):
        if c is TRUE:
            return ZERO
        if c is FALSE:
            return BOT
        (h,), (b,) = close([s], [c])
        return _mk("first", (n, h, b), bind=(h,))
    return float_out(cond, s, go)


def seq_any(t, p):
    if t.op == "sw":
        return lift(lambda x: seq_any(x, p), t)
    if t is BOT:
        return BOT
    if t.op == "lit":
        return OR(*[p(x) for x in t.a])
    if t.op == "cat":
        return OR(*[seq_any(x, p) for x in t.a])
    if t.op == "for":
        n, s, b = open_for(t)
        return Any(n, s, seq_any(b, p))
    s = fresh("ix")
    return Any(length(t), s, p(at(t, s)))


def seq_sum(t, p):
    if t.op == "sw":
        return lift(lambda x: seq_sum(x, p), t)
    if t is BOT:
        return BOT
    if t.op in ("lit", "cat"):
        r = ZERO
        for x in t.a:
            r = add(r, p(x) if t.op == "lit" else seq_sum(x, p))
        return r
    if t.op == "for":
        n, s, b = open_for(t)
        return Sum(n, s, seq_sum(b, p))
    s = fresh("ix")
    return Sum(length(t), s, p(at(t, s)))


def at(t, i):
    """element i (meaningful when in range)"""
    if has_dd(t, i):
        return lift(at, t, i)
    if t is BOT or i is BOT:
        return BOT
    if t.op == "lit":
        if i.op == "int":
            return t.a[i.a[0]] if 0 <= i.a[0] < len(t.a) else BOT
        if len(t.a) and all(x is t.a[0] for x in t.a):
            return t.a[0]
        if len(t.a) <= 4 and all(x.op == "int" for x in t.a) is False and False:
            pass
    if t.op == "cat":
        off = ZERO
        for p in t.a:
            n = length(p)
            rel = sub(i, off)
            c = ge0(rel)
            d = lt(rel, n)
            if c is TRUE and d is TRUE:
                return at(p, rel)
            if d is FALSE:
                off = add(off, n)
                continue
            # last part?
            if c is TRUE and p is t.a[-1]:
                return at(p, rel)
            break
    if t.op == "for":
        b = t.a[2]
        if b.op == "lit" and len(b.a) == 1:
            return subst(b.a[0], {bvar(t.a[1]): i})
    if t.op == "upd":
        c = ieq(t.a[1], i)
        if c is TRUE:
            return t.a[2]
        if c is FALSE:
            return at(t.a[0], i)
        return ite(c, t.a[2], at(t.a[0], i))
    if t.op == "mu" and False:
        pass
    r = _mk("at", (t, i))
    if t.op in ("bytes",):
        UNSIGNED.add(r)
    return r


def upd(t, i, v):
    if has_dd(t, i):
        return lift(lambda a, b: upd(a, b, v), t, i)
    if t is BOT or i is BOT:
        return BOT
    if t.op == "lit" and i.op == "int" and 0 <= i.a[0] < len(t.a):
        l = list(t.a)
        l[i.a[0]] = v
        return lit(*l)
    if t.op == "cat":
        off = ZERO
        for k, p in enumerate(t.a):
            n = length(p)
            rel = sub(i, off)
            if ge0(rel) is TRUE and lt(rel, n) is TRUE:
                return cat(*(t.a[:k] + (upd(p, rel, v),) + t.a[k + 1:]))
            off = add(off, n)
    if t.op == "upd" and t.a[1] is i:
        t = t.a[0]
    if v.op == "at" and v.a[0] is t and v.a[1] is i:
        return t
    return _mk("upd", (t, i, v))


def take(t, n):
    if has_dd(t, n):
        return lift(take, t, n)
    if t is BOT or n is BOT:
        return BOT
    if n is ZERO:
        return NIL
    L = length(t)
    if nonneg(sub(n, L)):
        return t
    if t.op == "lit" and n.op == "int":
        return lit(*t.a[:n.a[0]])
    if t.op == "cat" and n.op == "int":
        out = []
        k = n.a[0]
        for p in t.a:
            if k <= 0:
                break
            lp = length(p)
            if lp.op == "int":
                out.append(take(p, I(min(k, lp.a[0]))))
                k -= lp.a[0]
            else:
                out.append(take(cat(*t.a[t.a.index(p):]) if p is not t.a[-1] else p, I(k))
                           if p is t.a[-1] else _mk("take", (cat(*t.a[t.a.index(p):]), I(k))))
                k = 0
        return cat(*out)
    m = imin(L, n)
    if indexable(t):
        s = fresh("ix")
        return For(m, s, lit(at(t, s)))
    return _mk("take", (t, n))


def skip(t, n):
    if has_dd(t, n):
        return lift(skip, t, n)
    if t is BOT or n is BOT:
        return BOT
    if n is ZERO:
        return t
    if t.op == "lit" and n.op == "int":
        return lit(*t.a[n.a[0]:])
    L = length(t)
    if nonneg(sub(n, L)):
        return NIL
    if t.op == "cat":
        k = n
        for j, p in enumerate(t.a):
            lp = length(p)
            if nonneg(sub(k, lp)):
                k = sub(k, lp)
                if k is ZERO:
                    return cat(*t.a[j + 1:])
                continue
            if lp.op == "int" and k.op == "int":
                return cat(skip(p, k), *t.a[j + 1:])
            break
    if indexable(t):
        s = fresh("ix")
        return For(monus(L, n), s, lit(at(t, add(s, n))))
    return _mk("skip", (t, n))


def slice_(t, lo, hi):
    if hi is not None:
        if lo is ZERO or lo is None:
            return take(t, hi)
        if indexable(t) and t.op not in ("lit",):
            if not has_dd(lo, hi):
                s = fresh("ix")
                return For(monus(hi, lo), s, lit(at(t, add(s, lo))))
        return take(skip(t, lo), monus(hi, lo))
    return skip(t, lo)


# ---------------------------------------------------------------- substitution
def subst(t, m):
    if not m or not t.fs:
        return t
    ids = set()
    for k in m:
        ids |= k.fs
    memo = {}

    def go(t):
        if not t.fs or ids.isdisjoint(t.fs):
            return t
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        r = _subst_node(t, go, m)
        memo[t] = r
        return r
    return go(t)


def subst_in(t, m, extra, parent):
    """subst under a binder; what does not mention the bound names is shared with the outside"""
    own = set()
    for k in extra:
        own |= k.fs
    if own.isdisjoint(t.fs):
        return parent(t)
    mm = m | extra
    ids = set(own)
    for k in m:
        ids |= k.fs
    memo = {}

    def go(t):
        if not t.fs or ids.isdisjoint(t.fs):
            return t
        if own.isdisjoint(t.fs):
            return parent(t)
        r = extra.get(t)
        if r is not None:
            return r
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        r = _subst_node(t, go, mm)
        memo[t] = r
        return r
    return go(t)


BINDERS = ("for", "sum", "any", "first")


def rename(ts, m):
    """replace symbols by symbols: no simplification can arise, only the order of decisions changes"""
    ids = set()
    for k in m:
        ids |= k.fs
    memo = {}

    def go(t):
        if not t.fs or ids.isdisjoint(t.fs):
            return t
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in BINDERS:
            n, h, b = t.a
            r = _mk(op, (go(n), h, go(b)), bind=(h,))
        elif op == "lam":
            r = _mk("lam", (t.a[0], go(t.a[1])), bind=t.a[0])
        elif op == "foldv":
            k, n, hs, inits, bs, shp = t.a
            r = _mk("foldv", (k, go(n), hs, tuple([go(x) for x in inits]), tuple([go(x) for x in bs]), shp), bind=hs)
        elif op == "sw":
            atom = go(t.a[0])
            kids = {k: go(x) for k, x in t.a[1]}
            d = go(t.a[2]) if t.a[2] is not None else None
            r = sw_on(atom, kids, d) if atom.op in ("sw", "int", "bot") else reorder(atom, kids, d)
        elif op == "lin":
            d = {}
            for x, k in t.a[1]:
                y = go(x)
                d[y] = d.get(y, 0) + k
            r = mk_lin(t.a[0], d)
        elif op in RAW:
            r = _mk(op, tuple([go(x) if type(x) is T else x for x in t.a]))
            if t in UNSIGNED:
                UNSIGNED.add(r)
        else:
            r = rebuild(op, tuple([go(x) if type(x) is T else (tuple([go(y) if type(y) is T else y for y in x]) if type(x) is tuple else x) for x in t.a]))
        memo[t] = r
        return r
    return [go(t) for t in ts]


RAW = ("at", "fld", "prj", "comp", "adt", "tup", "vec", "lit", "cat", "len", "prop", "app", "take", "skip", "parse", "discr")


def reorder(atom, kids, d):
    for t in kids.values():
        if t.op == "sw" and t.a[0].key <= atom.key:
            return SW(atom, kids, d)
    if d is not None and d.op == "sw" and d.a[0].key <= atom.key:
        return SW(atom, kids, d)
    return _mk("sw", (atom, tuple(sorted(kids.items(), key=lambda p: p[0])), d))


def _subst_node(t, go, m):
    op = t.op
    if op in BINDERS:
        n, h, b = t.a
        s = fresh("ix")
        nn = go(n)
        # open with a fresh symbol, replace the outer symbols, close again
        nb = subst_in(b, m, {bvar(h): s}, go)
        f = {"for": For, "sum": Sum, "any": Any, "first": First}[op]
        return f(nn, s, nb)
    if op == "sw":
        return sw_on(go(t.a[0]), {k: go(x) for k, x in t.a[1]}, go(t.a[2]) if t.a[2] is not None else None)
    if op == "lin":
        r = I(t.a[0]) if t.a[0] == int(t.a[0]) else _mk("flt", (repr(t.a[0]),))
        for x, k in t.a[1]:
            r = add(r, scale(go(x), k))
        return r
    if op in ("lam", "foldv"):
        return _subst_binder_generic(t, go, m)
    args = tuple(go(x) if type(x) is T else (tuple(go(y) if type(y) is T else y for y in x) if type(x) is tuple else x) for x in t.a)
    return rebuild(op, args)


def lam(syms, body):
    hs, (b,) = close(list(syms), [body])
    return _mk("lam", (hs, b), bind=hs)


def lam_apply(l, *args):
    return open_(l.a[0], [l.a[1]], args)[0]


def foldv(k, n, s, mus, inits, nexts, shp=None):
    """value k of a simultaneous fold of (mus := nexts) over s in 0..n"""
    if n is ZERO:
        return inits[k]
    if shp is None:
        shp = tuple(m in SHAPE for m in mus)
    fu = fusable(n, s, nexts)
    if fu is not None and (type(fu[0]) is tuple or fu[0].op == "for"):
        F, e, nx = fu
        m, j, b = F if type(F) is tuple else open_for(F)
        r = [fold_leaves(b, e, x, mu) for x, mu in zip(nx, mus)]
        if not any(x is None for x in r):
            n, s, nexts = m, j, r
    hs, bs = close([s] + list(mus), list(nexts))
    return _mk("foldv", (k, n, hs, tuple(inits), tuple(bs), tuple(shp)), bind=hs)


def fold_leaves(b, e, nx, mu):
    """one step of a fold over the elements of b (at most one)"""
    if b is BOT:
        return BOT
    if b.op == "sw":
        return lift(lambda x: fold_leaves(x, e, nx, mu), b) if all(l is BOT or l.op == "lit" and len(l.a) < 2 for l in leafset(b)) else None
    if b.op != "lit" or len(b.a) > 1:
        return None
    return subst(nx, {e: b.a[0]}) if b.a else mu


def _subst_binder_generic(t, go, m):
    if t.op == "lam":
        hs, b = t.a
        syms = [fresh("l") for _ in hs]
        nb = subst_in(b, m, bound(hs, syms), go)
        return lam(syms, nb)
    k, n, hs, inits, bs, shp = t.a
    syms = [fresh("ix" if j == 0 else "acc") for j, _ in enumerate(hs)]
    mm = bound(hs, syms)
    nbs = [subst_in(b, m, mm, go) for b in bs]
    return foldv(k, go(n), syms[0], syms[1:], [go(x) for x in inits], nbs, shp)


def rebuild(op, a):
    f = REBUILD.get(op)
    if f:
        return f(*a)
    if any(type(x) is T and x.op == "sw" for x in a) and op not in ("adt", "tup", "lit", "cat", "ptr", "iter", "file", "clo", "map", "lz", "sorted", "opq", "upd", "bytes", "entries", "si", "cell", "nomp", "fargs", "darg"):
        idx = [i for i, x in enumerate(a) if type(x) is T]
        ts = [a[i] for i in idx]

        def g(*xs):
            b = list(a)
            for i, x in zip(idx, xs):
                b[i] = x
            return rebuild(op, tuple(b))
        return lift(g, *ts)
    if any(x is BOT for x in a) and op not in ("adt", "tup", "lit", "clo", "iter", "file", "map"):
        return BOT
    return _mk(op, a)


REBUILD = {
    "mul": lambda *x: _mulall(x), "div": div, "idiv": idiv, "irem": irem, "min": imin, "max": imax,
    "monus": lambda x: monus(x, ZERO), "ge0": ge0, "eq0": eq0, "eq": lambda a, b: eq(a, b),
    "feq": lambda a, b: eq(a, b, True), "app": app, "adt": lambda p, v, *f: adt(p, v, *f), "fld": fld,
    "discr": discr_of, "tup": tup, "prj": proj, "vec": vec, "comp": comp, "lit": lit, "cat": cat,
    "at": at, "upd": upd, "take": take, "skip": skip, "len": lambda s: length(s),
}


def rewrite(t, f):
    """bottom-up rewriting of a term; f returns the replacement of a node whose children are rewritten"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = f(_subst_node(t, go, {}) if t.op not in BINDERS and t.op not in ("lam", "foldv") else binder(t)) if t.a else f(t)
        return r

    def binder(t):
        if t.op in BINDERS:
            n, h, b = t.a
            s = fresh("ix")
            return {"for": For, "sum": Sum, "any": Any, "first": First}[t.op](go(n), s, go(subst(b, {bvar(h): s})))
        if t.op == "lam":
            hs, b = t.a
            ss = [fresh("l") for _ in hs]
            return lam(ss, go(subst(b, bound(hs, ss))))
        k, n, hs, inits, bs, shp = t.a
        ss = [fresh("ix" if j == 0 else "acc") for j, _ in enumerate(hs)]
        mm = bound(hs, ss)
        return foldv(k, go(n), ss[0], ss[1:], [go(x) for x in inits], [go(subst(x, mm)) for x in bs], shp)
    return go(t)


def _mulall(xs):
    r = xs[0]
    for x in xs[1:]:
        r = mul(r, x)
    return r


# ---------------------------------------------------------------- traversal / printing
def children(t):
    for x in t.a:
        if type(x) is T:
            yield x
        elif type(x) is tuple:
            for y in x:
                if type(y) is T:
                    yield y
                elif type(y) is tuple:
                    for z in y:
                        if type(z) is T:
                            yield z


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(children(x))


def size(t):
    return sum(1 for _ in walk(t))


def show(t, depth=12):
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.a
    if op == "sw" and a[2] is None and a[1] == ((0, FALSE), (1, TRUE)):
        return show(a[0], depth)
    if op == "sw" and a[2] is None and a[1] == ((0, TRUE), (1, FALSE)):
        return "!" + show(a[0], depth)
    sh = lambda x: show(x, d) if type(x) is T else str(x)
    if op == "int":
        return str(a[0])
    if op == "flt":
        return a[0]
    if op == "str":
        return repr(a[0])
    if op == "sym":
        return "%s%d" % (a[0], a[1])
    if op == "in":
        return "$" + a[0]
    if op == "b":
        return "b%d" % a[0]
    if op == "bot":
        return "⊥"
    if op == "lin":
        r = []
        for x, k in a[1]:
            r.append(("%s*" % k if k != 1 else "") + sh(x))
        if a[0]:
            r.append(str(a[0]))
        return "(" + " + ".join(r) + ")"
    if op == "sw":
        at_ = a[0]
        if at_.op == "discr":
            names = {}
            for i, v in enumerate(ADTS.get(at_.a[1], [])):
                names[v[1] if v[1] is not None else i] = v[0]
            r = ["%s: %s" % (names.get(k, k), sh(x)) for k, x in a[1]]
            at_s = sh(at_.a[0])
        else:
            r = ["%s: %s" % (k, sh(x)) for k, x in a[1]]
            at_s = sh(at_)
        if a[2] is not None:
            r.append("_: " + sh(a[2]))
        return "{%s ? %s}" % (at_s, ", ".join(r))
    if op == "adt":
        vs = ADTS.get(a[0])
        nm = a[0].split("::")[-1]
        if vs:
            v = vs[a[1]]
            if len(vs) > 1:
                nm = v[0]
            fn = v[2]
            if fn and not fn[0].isdigit():
                return "%s{%s}" % (nm, ", ".join("%s: %s" % (n, sh(x)) for n, x in zip(fn, a[2:])))
        return "%s(%s)" % (nm, ", ".join(map(sh, a[2:])))
    if op == "fld":
        vs = ADTS.get(a[1])
        if vs:
            v = vs[a[2]]
            return "%s.%s%s" % (sh(a[0]), (v[0] + ".") if len(vs) > 1 else "", v[2][a[3]] if a[3] < len(v[2]) else a[3])
        return "%s.%s.%s" % (sh(a[0]), a[2], a[3])
    if op == "for":
        return "[%s | b%d<%s]" % (sh(a[2]), a[1], sh(a[0]))
    if op in ("any", "first", "sum"):
        return "%s(b%d<%s: %s)" % (op, a[1], sh(a[0]), sh(a[2]))
    if op == "at":
        return "%s[%s]" % (sh(a[0]), sh(a[1]))
    if op == "lit":
        return "[" + ", ".join(map(sh, a)) + "]"
    if op == "cat":
        return "(" + " ++ ".join(map(sh, a)) + ")"
    if op == "tup":
        return "(" + ", ".join(map(sh, a)) + ")"
    if op == "app":
        return "%s(%s)" % (a[0].split("::")[-1] if "<" not in a[0] else a[0], ", ".join(map(sh, a[1:])))
    if op == "prj":
        return "%s.%d" % (sh(a[0]), a[1])
    if op == "discr":
        return "discr(%s)" % sh(a[0])
    return "%s(%s)" % (op, ", ".join(sh(x) if type(x) is not tuple else "<" + ",".join(map(sh, x)) + ">" for x in a))
