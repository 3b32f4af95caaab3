"""Meaning of the library functions the crate uses."""
from terms import *
import re
import terms as tm
import prove
from interp import (it, ptr, cell, st_i, st_f, st_p, opq, undef, flt, fle, simp, mem_bounded)

M = {}
ORD = "core::cmp::Ordering"
ADTS.setdefault(ORD, [("Less", -1, []), ("Equal", 0, []), ("Greater", 1, [])])


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def val(I_, st, x):
    """value behind a reference"""
    n = 0
    while n < 6:
        if x.op == "ptr":
            x = I_.load_ptr(st, x)
        elif x.op == "sw" and any(l.op == "ptr" for l in leafset(x)):
            x = lift(lambda l: I_.load_ptr(st, l) if l.op == "ptr" else l, x)
        else:
            break
        n += 1
    if x.op == "sw":
        x = I_.simp(x, st)
    return x


def simple(f):
    """pure function of dereferenced arguments"""
    def m(I_, st, args, fn, at_, t):
        return f(*[val(I_, st, a) for a in args])
    return m


def reg(names, f):
    for n in names.split():
        M[n] = simple(f)


OPTION = lambda c, x: ite(c, some(x), none())


def res_of(name, okf, *args):
    def f(*a):
        if any(x is BOT for x in a):
            return BOT
        r = tm._mk("app", (name,) + a)
        return SW(discr_of(r, RES), {0: ok(okf(r, *a)), 1: err(fld(r, RES, 1, 0))}, None)
    return lift(f, *args)


# ---------------------------------------------------------------- identity-like
reg("Deref::deref String::as_str String::as_ref Clone::clone ToOwned::to_owned Borrow::borrow AsRef::as_ref "
    "Vec::as_slice String::from_str slice::to_vec String::into_boxed_str Vec::into_boxed_slice hint::must_use "
    "Iterator::by_ref Iterator::cloned Iterator::copied Option::copied Option::cloned Cow::into_owned slice::as_ref "
    "ParallelIterator::copied ParallelIterator::cloned convert::identity Vec::from_slice Option::as_deref Option::as_ref "
    "String::into_string Box::new str::to_string PathBuf::as_path str::as_ref str::to_owned Path::new PathBuf::from "
    "IntoParallelIterator::into_par_iter IntoParallelRefIterator::par_iter Iterator::fuse Iterator::peekable Vec::leak "
    "ops::identity mem::drop_ Rc::new Arc::new Some::identity Result::as_ref Box::from slice::as_slice str::as_str "
    "array::as_slice Option::as_slice_ IndexedParallelIterator::with_min_len IndexedParallelIterator::with_max_len "
    "Result::copied Result::cloned Cow::from OsString::from OsStr::new", lambda x: x)


@model("DerefMut::deref_mut", "AsMut::as_mut", "Vec::as_mut_slice", "BorrowMut::borrow_mut", "Iterator::by_ref", "Vec::as_mut")
def _idptr(I_, st, args, fn, at_, t):
    return args[0]


@model("Option::as_deref", "Option::as_ref", "Option::as_deref_mut", "Option::as_mut", "Result::as_ref", "Result::as_mut")
def _opt_as_ref(I_, st, args, fn, at_, t):
    x = args[0]
    d = simp(fn["def"])
    if d.endswith("as_mut") or d.endswith("_mut"):
        if x.op == "ptr":
            v = I_.load_ptr(st, x)
            return OPTION(is_variant(v, OPT, 1), I_.ext(x, [st_f(OPT, 1, 0)]))
        return x
    return val(I_, st, x)


@model("Clone::clone")
def _clone(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    if inst and I_.prog.body(inst) and I_.prog.body(inst).local:
        # derived clones are identity; hand written ones are evaluated
        return I_.exec_body(inst, args, st)
    return val(I_, st, args[0])


@model("Into::into", "From::from", "TryFrom::try_from", "TryInto::try_into", "FromStr::from_str")
def _conv(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    d = simp(fn["def"])
    if inst and I_.prog.body(inst):
        return NotImplemented
    ty = I_.prog.types
    a = fn.get("args") or []
    if d in ("Into::into", "TryInto::try_into"):
        src, dst = (a + [None, None])[:2]
    else:
        dst, src = (a + [None, None])[:2]
    x = args[0]
    dt = ty[dst] if dst is not None else None
    sty = ty[src] if src is not None else None
    if d == "FromStr::from_str":
        return parse(I_, st, val(I_, st, x), dt)
    if dt is None:
        return opq("conv", x)
    if dt["k"] == "adt" and dt["local"] and sty is not None and src != dst:
        # Into through a local From impl
        for r in I_.prog.roots:
            if r["name"] == "from" and r.get("self") == dt["path"] and r["key"] in I_.prog.d["bodies"]:
                b = I_.prog.body(r["key"])
                if b.locals[1] == src:
                    return I_.exec_body(r["key"], args, st)
    if dt["k"] in ("int", "uint", "char") and sty["k"] in ("int", "uint", "char", "bool"):
        if d.startswith("Try"):
            c = I_.in_range(x, dt)
            return ite(c, ok(x), err(opq("tryfrom")))
        if sty["k"] == "bool":
            return ite(x, ONE, ZERO)
        return x
    if sty is not None and sty["k"] == "ref" and sty.get("mut") and x.op == "ptr":
        return val(I_, st, x)
    if dt["k"] == "adt" and dt["path"] == "alloc::boxed::Box":
        return x
    if dt["k"] == "adt" and dt["path"] == OPT and sty is not dt:
        return some(x)
    if d.startswith("Try"):
        return ok(x)
    return val(I_, st, x)


@model("Default::default")
def _default(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    if inst and I_.prog.body(inst):
        return NotImplemented
    tid = (fn.get("args") or [None])[0]
    return default_of(I_, tid)


def default_of(I_, tid):
    if tid is None:
        return opq("default")
    t = I_.prog.types[tid]
    k = t["k"]
    if k in ("int", "uint", "float", "bool", "char"):
        return ZERO
    if k == "tuple":
        return tup(*[default_of(I_, a) for a in t["args"]])
    if k == "ref":
        return default_of(I_, t["to"])
    if k == "str":
        return NIL
    if k == "array":
        return For(I(int(t["len"])), fresh("ix"), lit(default_of(I_, t["of"])))
    if k == "adt":
        p = t["path"]
        if p == OPT:
            return none()
        if p in ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::vec_deque::VecDeque"):
            return NIL
        if "HashMap" in p or "BTreeMap" in p or "HashSet" in p or "BTreeSet" in p:
            return newmap(p)
        if p.startswith("glam::"):
            n = {"Vec2": 2, "Vec3": 3, "Vec4": 4}.get(p.split("::")[-1])
            if n:
                return vec(*[ZERO] * n)
    return opq("default:" + t["name"])


# ---------------------------------------------------------------- strings
@model("String::new", "Vec::new", "String::with_capacity", "Vec::with_capacity", "VecDeque::new")
def _newseq(I_, st, args, fn, at_, t):
    if args:
        alloc_bound(I_, st, args[0])
    return NIL


def alloc_bound(I_, st, n):
    """an allocation must be bounded by what is in memory, by a file's length or by a constant"""
    n = I_.simp(n, st)
    if not I_.rec:
        I_.event("alloc", n)

    def okk(x):
        if x is BOT:
            return TRUE
        if x.op == "int" and x.a[0] < (1 << 40) or mem_bounded(x):
            return TRUE
        lo, hi = prove.bounds(x)
        if hi is not None and hi < (1 << 40):
            return TRUE
        return ge0(sub(I(2**63 - 1), x))
    I_.oblige(st, "alloc", lift(okk, n), "capacity")


def s_lower(s):
    def f(x):
        if x is BOT:
            return BOT
        if x.op == "str":
            return S(x.a[0].lower())
        if x.op == "app" and x.a[0] == "lower":
            return x
        return tm._mk("app", ("lower", x))
    return lift(f, s)


reg("str::to_lowercase", s_lower)
reg("str::to_ascii_lowercase", lambda s: lift(lambda x: app("asciilower", x), s))
reg("str::to_uppercase str::to_ascii_uppercase", lambda s: app("upper", s))


reg("str::is_ascii", lambda s: lift(lambda x: app("str_is_ascii", x), s))
reg("str::repeat", lambda s, n: lift(lambda *x: app("str_repeat", *x), s, n))
reg("String::from_utf8_lossy", lambda s: lift(lambda x: app("lossy", x), s))
reg("slice::starts_with slice::ends_with", lambda s, p: lift(lambda *x: app("seq_starts", *x), s, p))
M["slice::ends_with"] = simple(lambda s, p: lift(lambda *x: app("seq_ends", *x), s, p))


@model("str::make_ascii_lowercase")
def _mkasciilower(I_, st, args, fn, at_, t):
    I_.store_ptr(st, args[0], [], lift(lambda x: app("asciilower", x), I_.load_ptr(st, args[0])))
    return UNIT


def s_seq(kind):
    def g(x, *a):
        if x is BOT:
            return BOT
        if kind == "chars" and x.op == "str":
            return lit(*[I(ord(c)) for c in x.a[0]])
        if kind == "chars" and x.op in ("lit", "for", "cat") and False:
            return x
        return tm._mk("app", (kind, x) + a)
    return g


@model("str::lines", "str::split_whitespace", "str::chars", "str::bytes", "str::char_indices", "str::split_ascii_whitespace")
def _strseq(I_, st, args, fn, at_, t):
    k = {"lines": "lines", "split_whitespace": "words", "chars": "chars", "bytes": "bytesof", "char_indices": "cindices",
         "split_ascii_whitespace": "awords"}[simp(fn["def"]).split("::")[1]]
    return it(lift(s_seq(k), val(I_, st, args[0])))


@model("str::split", "str::splitn", "str::rsplit", "str::split_terminator", "str::matches")
def _split(I_, st, args, fn, at_, t):
    k = simp(fn["def"]).split("::")[1]
    xs = [val(I_, st, a) for a in args]
    xs[1:] = [norm_pat(x) for x in xs[1:]]
    return it(lift(lambda *a: tm._mk("app", (k,) + a), *xs))


def norm_pat(x):
    if x.op == "int":
        return S(chr(x.a[0]))
    return x


@model("str::as_bytes", "String::as_bytes", "String::into_bytes")
def _bytes(I_, st, args, fn, at_, t):
    return lift(s_seq("bytesof"), val(I_, st, args[0]))


for _n in ("trim", "trim_start", "trim_end", "starts_with", "ends_with", "contains", "find", "trim_matches", "strip_prefix",
           "strip_suffix", "split_once", "rsplit_once", "trim_end_matches", "trim_start_matches", "replace", "eq_ignore_ascii_case",
           "get", "is_char_boundary", "rfind", "split_at"):
    def _mk_(n):
        def m(I_, st, args, fn, at_, t):
            xs = [val(I_, st, a) for a in args]
            xs[1:] = [norm_pat(x) for x in xs[1:]]
            if n in ("strip_prefix", "strip_suffix", "split_once", "rsplit_once", "find", "rfind", "get"):
                def f(*a):
                    r = tm._mk("app", ("str_" + n,) + a)
                    return r
                return lift(f, *xs)
            if n == "contains" and "Range" in fn["def"]:
                return NotImplemented
            if n == "starts_with" and xs[1].op == "str" and xs[1].a[0]:
                return lift(lambda x: starts(x, xs[1].a[0]), xs[0])
            return lift(lambda *a: tm._mk("app", ("str_" + n,) + a), *xs)
        return m
    M["str::" + _n] = _mk_(_n)


def seqlen(x):
    return length(x)


def starts(x, p):
    """x starts with the literal text p, said of its characters"""
    if x is BOT:
        return BOT
    if x.op == "str":
        return TRUE if x.a[0].startswith(p) else FALSE
    if x.op in ("lit", "cat", "for"):
        return tm._mk("app", ("str_starts_with", x, S(p)))
    cs = s_seq("chars")(x)
    return AND(ge0(sub(length(cs), I(len(p)))), *[ieq(at(cs, I(i)), I(ord(c))) for i, c in enumerate(p)])


def s_empty(x):
    if x.op in ("app", "fld", "at", "in", "prj"):
        return NOT(ge0(sub(length(s_seq("chars")(x)), ONE)))
    return ieq(length(x), ZERO)


reg("String::len str::len Vec::len slice::len array::len VecDeque::len", lambda x: length(x))
reg("String::is_empty str::is_empty", lambda x: lift(s_empty, x))
reg("Vec::is_empty slice::is_empty VecDeque::is_empty", lambda x: ieq(length(x), ZERO))


def parse_type(dt):
    return dt["name"]


def parse(I_, st, s, dt):
    u = dt["k"] in ("uint", "char")

    def okf(r, *a):
        v = fld(r, RES, 0, 0)
        if u:
            UNSIGNED.add(v)
        return v
    name = dt["name"]
    if dt["k"] == "adt" and dt["path"] == "alloc::string::String":
        return ok(s)

    def f(x):
        if x.op == "str":       # a literal: its value is known when it is a plain number
            if name in ("f32", "f64") and re.match(r"[+-]?\d{1,7}(\.0*)?$", x.a[0]):
                if not (x.a[0].startswith("-") and float(x.a[0]) == 0):
                    return ok(I(int(float(x.a[0]))))
            if name in prove.TYRANGE and name not in ("char",) and re.match(r"\d{1,18}$", x.a[0]):
                lo, hi = prove.TYRANGE[name]
                if lo <= int(x.a[0]) <= hi:
                    return ok(I(int(x.a[0])))
        return res_of("parse", okf, S(name), x)
    return lift(f, s) if s.op == "sw" and any(l.op == "str" for l in leafset(s)) else f(s)


@model("str::parse")
def _parse(I_, st, args, fn, at_, t):
    return parse(I_, st, val(I_, st, args[0]), I_.prog.types[fn["args"][0]])


@model("String::push_str", "String::push")
def _push_str(I_, st, args, fn, at_, t):
    p = args[0]
    x = val(I_, st, args[1])
    if simp(fn["def"]).endswith("::push"):
        x = lift(lambda y: S(chr(y.a[0])) if y.op == "int" else app("charstr", y), x)
    old = I_.load_ptr(st, p)
    I_.store_ptr(st, p, [], scat(old, x))
    return UNIT


def scat(a, b):
    def f(x, y):
        return cat(x, y)
    return lift2(f, a, b)


def lift2(f, a, b):
    # keep diagrams inside the concatenation: cat handles them as opaque parts
    return f(a, b)


# ---------------------------------------------------------------- formatting
def fmt_type(I_, tid):
    t = I_.prog.types[tid]
    while t["k"] == "ref":
        t = I_.prog.types[t["to"]]
    return t


def display(I_, st, v, tid):
    t = fmt_type(I_, tid)
    v = val(I_, st, v)
    k = t["k"]
    if k == "str" or k == "adt" and t["path"] in ("alloc::string::String",):
        return v
    if k == "adt" and t["path"] in ("alloc::borrow::Cow", "alloc::boxed::Box") and v.op in ("str", "cat"):
        return v
    if k in ("int", "uint"):
        return lift(lambda x: S(str(x.a[0])) if x.op == "int" else (app("disp", S(t["name"]), x)), v)
    if k == "char":
        return lift(lambda x: S(chr(x.a[0])) if x.op == "int" else app("charstr", x), v)
    if k == "bool":
        return ite(v, S("true"), S("false"))
    if k == "adt" and t["local"]:
        key = I_.display_impl(t["path"])
        if key:
            c = I_.alloc(st, NIL)
            r = I_.exec_body(key, [v, c], st)
            if r is None:
                return None
            s = I_.load_ptr(st, c)
            st.mem.pop(c.a[0].a[0], None)
            return s
    return app("disp", S(t["name"]), v) if v.op != "sw" else lift(lambda x: app("disp", S(t["name"]), x), v)


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp", "Argument::new_lower_hex", "Argument::new_upper_hex",
       "Argument::new_octal", "Argument::new_binary")
def _arg(I_, st, args, fn, at_, t):
    d = simp(fn["def"])
    tid = at_[0] if at_ and at_[0] is not None else fn["args"][0]
    if d.endswith("display"):
        return tm._mk("darg", (args[0], tid))
    return tm._mk("darg", (app(d.split("new_")[1], val(I_, st, args[0])), -1))


@model("Arguments::from_str", "Arguments::new_const")
def _fstr(I_, st, args, fn, at_, t):
    return tm._mk("fargs", (args[0], NIL))


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_v1_formatted")
def _fnew(I_, st, args, fn, at_, t):
    return tm._mk("fargs", (args[0], val(I_, st, args[1])))


def template(bs):
    out = []
    i = 0
    n = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("s", bytes(bs[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            l = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("s", bytes(bs[i:i + l]).decode("utf8", "replace")))
            i += l
        else:
            spec = []
            if b & 1:
                spec.append(("flags", tuple(bs[i:i + 4])))
                i += 4
            if b & 2:
                spec.append(("width", bs[i] | bs[i + 1] << 8))
                i += 2
            if b & 4:
                spec.append(("prec", bs[i] | bs[i + 1] << 8))
                i += 2
            a = n
            if b & 8:
                a = bs[i] | bs[i + 1] << 8
                i += 2
            n = a + 1
            if b & 0x30:
                spec.append(("ind", b & 0x30))
            out.append(("a", a, tuple(spec)))
    return out


def format_args(I_, st, fa):
    if fa.op == "sw":
        return lift(lambda x: format_args(I_, st, x), fa)
    if fa.op != "fargs":
        return opq("format", fa)
    tpl, args = fa.a
    if tpl.op == "str":
        return tpl
    if tpl.op != "cbytes":
        return opq("format", fa)
    bs = tpl.a[0]
    if isinstance(bs, str):
        bs = tuple(bs.encode("latin1"))
    out = []
    for e in template(bs):
        if e[0] == "s":
            out.append(S(e[1]))
        else:
            x = at(args, I(e[1]))
            if x.op != "darg":
                out.append(opq("fmtarg", x))
                continue
            if x.a[1] == -1:
                v = val(I_, st, x.a[0])
            else:
                v = display(I_, st, x.a[0], x.a[1])
                if v is None:
                    return None
            if e[2]:
                v = app("spec", S(repr(e[2])), v)
            out.append(v)
    return cat(*out)


@model("fmt::format")
def _format(I_, st, args, fn, at_, t):
    return format_args(I_, st, args[0])


@model("stdio::_print", "stdio::_eprint")
def _print(I_, st, args, fn, at_, t):
    # evaluate displayed arguments for their effects
    format_args(I_, st, args[0])
    I_.event("print")
    return UNIT


@model("Formatter::write_fmt", "Write::write_fmt")
def _write_fmt(I_, st, args, fn, at_, t):
    s = format_args(I_, st, args[1])
    if s is None:
        return None
    old = I_.load_ptr(st, args[0])
    I_.store_ptr(st, args[0], [], cat(old, s))
    return ok(UNIT)


@model("Formatter::write_str", "Write::write_str", "Formatter::pad", "Write::write_char")
def _write_str(I_, st, args, fn, at_, t):
    old = I_.load_ptr(st, args[0])
    I_.store_ptr(st, args[0], [], cat(old, val(I_, st, args[1])))
    return ok(UNIT)


@model("Display::fmt", "Debug::fmt")
def _dfmt(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    if inst and I_.prog.body(inst):
        return NotImplemented
    tid = fn["args"][0]
    s = display(I_, st, args[0], tid) if "Display" in fn["def"] else app("debug", val(I_, st, args[0]))
    if s is None:
        return None
    old = I_.load_ptr(st, args[1])
    I_.store_ptr(st, args[1], [], cat(old, s))
    return ok(UNIT)


@model("ToString::to_string")
def _to_string(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    if inst and I_.prog.body(inst):
        return NotImplemented
    return display(I_, st, args[0], fn["args"][0])


# ---------------------------------------------------------------- comparisons
def has_float(I_, tid, seen=()):
    t = I_.prog.types[tid]
    if tid in seen:
        return False
    seen = seen + (tid,)
    k = t["k"]
    if k == "float":
        return True
    if k == "ref":
        return has_float(I_, t["to"], seen)
    if k in ("slice", "array"):
        return has_float(I_, t["of"], seen)
    if k == "tuple":
        return any(has_float(I_, a, seen) for a in t["args"])
    if k == "adt":
        if t["path"].startswith("glam::"):
            return True
        if "variants" in t and t["local"]:
            return any(has_float(I_, f[1], seen) for v in t["variants"] for f in v["fields"])
        return any(has_float(I_, a, seen) for a in t.get("args", []) if isinstance(a, int))
    return False


@model("PartialEq::eq", "PartialEq::ne")
def _eq(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    neg = fn["def"].endswith("::ne")
    b = I_.prog.body(inst) if inst else None
    if b is not None and not (fn.get("res") or "").startswith("core::cmp::impls::<impl core::cmp::PartialEq<&"):
        return NotImplemented
    x, y = val(I_, st, args[0]), val(I_, st, args[1])
    tid = fn["args"][0]
    tt = fmt_type(I_, tid)
    if tt["k"] in ("int", "uint", "char"):
        r = lift(ieq, x, y)
    elif tt["k"] == "adt" and tt["local"]:
        r = eq_by_type(I_, st, x, y, tt)
        if r is None:
            return None
    else:
        r = lift(lambda p, q: eq(p, q, has_float(I_, tid)), x, y)
    return NOT(r) if neg else r


def eq_by_type(I_, st, x, y, tt):
    """equality of references to a local type: go through its own PartialEq"""
    for r in I_.prog.roots:
        if r["name"] == "eq" and r.get("self") == tt["path"] and r["key"] in I_.prog.d["bodies"]:
            return I_.exec_body(r["key"], [x, y], st)
    return eq(x, y, True)


@model("total_cmp", "f32::total_cmp", "f64::total_cmp")
def _total_cmp(I_, st, args, fn, at_, t):
    return lift(lambda a, b: tm._mk("app", ("total_cmp", a, b)), val(I_, st, args[0]), val(I_, st, args[1]))


@model("Ord::cmp")
def _cmp(I_, st, args, fn, at_, t):
    x, y = val(I_, st, args[0]), val(I_, st, args[1])
    tt = fmt_type(I_, fn["args"][0])
    if tt["k"] in ("int", "uint", "char"):
        return lift(lambda a, b: ite(lt(a, b), adt(ORD, 0), ite(ieq(a, b), adt(ORD, 1), adt(ORD, 2))), x, y)
    if fn.get("inst") and I_.prog.body(fn["inst"]):
        return NotImplemented
    return lift(lambda a, b: tm._mk("app", ("cmp", a, b)), x, y)


@model("Ord::max", "cmp::max", "Ord::min", "cmp::min")
def _max(I_, st, args, fn, at_, t):
    tt = I_.prog.types[fn["args"][0]]
    if tt["k"] not in ("int", "uint"):
        return NotImplemented
    return (imax if fn["def"].endswith("max") else imin)(args[0], args[1])


@model("intrinsics::integer_max")
def _imax(I_, st, args, fn, at_, t):
    return imax(args[0], args[1])


@model("intrinsics::integer_min")
def _imin(I_, st, args, fn, at_, t):
    return imin(args[0], args[1])


# ---------------------------------------------------------------- integers and floats
def numty(I_, fn):
    d = fn["def"]
    import re
    m = re.search(r"<impl (\w+)>", d)
    return {"name": m.group(1), "n": m.group(1), "k": "uint" if m.group(1)[0] == "u" else "int"} if m else None


def arith(op):
    def m(I_, st, args, fn, at_, t):
        ty = numty(I_, fn)
        nm = fn["def"].split("::")[-1]
        a = [val(I_, st, x) for x in args]
        mode, o = nm.split("_", 1)
        if o == "pow":
            v = lift(power, *a)
        else:
            B = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr", "neg": "Neg"}[o]
            if B == "Neg":
                v = scale(a[0], -1)
            else:
                v = lift(lambda p, q: I_.binop(B, p, q, ty), *a)
        c = I_.in_range(v, ty)
        if o in ("div", "rem"):
            c = NOT(ieq(a[1], ZERO))
        if o == "shl" or o == "shr":
            c = lt(a[1], I({"u8": 8, "i8": 8, "u16": 16, "i16": 16}.get(ty["name"], 32 if "32" in ty["name"] else 64)))
        if mode == "checked":
            return OPTION(c, v)
        if mode == "saturating":
            if o == "sub" and ty["k"] == "uint":
                return lift(monus, *a)
            r = I_.rng(ty)
            return ite(c, v, ite(ge0(v), I(r[1]), I(r[0])))
        if mode == "overflowing":
            return tup(v, NOT(c))
        if mode == "wrapping":
            if c is TRUE:
                return v
            if not I_.rec:
                I_.events.append(("trunc", (v, ty["name"], c), I_.site, tuple(I_.stack)))
            return ite(c, v, app("wrap", S(ty["name"]), v))
        return NotImplemented
    return m


for _m in ("checked", "saturating", "wrapping", "overflowing"):
    for _o in ("add", "sub", "mul", "div", "rem", "pow", "shl", "shr", "neg"):
        for _t in ("num", "u32", "u64", "usize", "i32", "i64", "u8", "u16"):
            M["%s::%s_%s" % (_t, _m, _o)] = arith(_o)


def power(b, e):
    if b.op == "int" and e.op == "int" and 0 <= e.a[0] < 256:
        return I(b.a[0] ** e.a[0])
    if b.op == "int" and b.a[0] == 2:
        return app("pow2", e)
    return app("ipow", b, e)


@model("num::max_value", "num::min_value")
def _intlimit(I_, st, args, fn, at_, t):
    m = re.search(r"<impl ([iu])(\d+|size)>", fn["def"])
    if m is None:
        return NotImplemented
    b = 64 if m.group(2) == "size" else int(m.group(2))
    if m.group(1) == "u":
        return I((1 << b) - 1) if fn["def"].endswith("max_value") else ZERO
    return I((1 << (b - 1)) - 1) if fn["def"].endswith("max_value") else I(-(1 << (b - 1)))


@model("num::pow", "i32::pow", "u32::pow", "i64::pow", "u64::pow", "usize::pow")
def _pow(I_, st, args, fn, at_, t):
    ty = numty(I_, fn)
    v = lift(power, args[0], args[1])
    c = I_.in_range(v, ty)
    # 2^i <= max  <=>  i < bits

    def ex(l):
        if l.op == "app" and l.a[0] == "pow2":
            r = I_.rng(ty)[1]
            return lt(l.a[1], I(r.bit_length() if (1 << (r.bit_length() - 1)) <= r else 0))
        return None
    if v.op == "app" and v.a[0] == "pow2":
        c = ex(v)
    if not I_.oblige(st, "overflow Pow", c):
        return None
    return v


@model("intrinsics::saturating_sub")
def _ssub(I_, st, args, fn, at_, t):
    return lift(monus, args[0], args[1])


reg("f32::abs f64::abs num::abs i32::abs", lambda x: app("abs", x))
# functions of the numbers alone: those with a plain definition are spelled out
for _n in ("ceil", "trunc", "fract", "tan", "asin", "atan", "exp", "exp2", "ln", "log2", "log10", "to_degrees", "cbrt", "hypot", "powf", "copysign",
           "rem_euclid", "div_euclid", "is_infinite", "is_normal", "from_bits", "round_ties_even", "sinh", "cosh", "tanh", "log", "is_subnormal"):
    reg("f32::%s f64::%s" % (_n, _n), lambda *a, n=_n: lift(lambda *x: app("f_" + n, *x), *a))
reg("f32::recip f64::recip", lambda x: div(ONE, x))
reg("f32::is_sign_positive f64::is_sign_positive", lambda x: NOT(app("isneg", x)))
reg("f32::sin_cos f64::sin_cos", lambda x: tup(app("sin", x), app("cos", x)))


def int_fn(n):
    def m(I_, st, args, fn, at_, t):
        ty = numty(I_, fn)
        a = [val(I_, st, x) for x in args]
        if n == "abs_diff":
            return ite(lt(a[0], a[1]), sub(a[1], a[0]), sub(a[0], a[1]))
        if n == "unsigned_abs":
            return app("abs", a[0])
        if n == "signum":
            return ite(ieq(a[0], ZERO), ZERO, ite(ge0(a[0]), ONE, I(-1)))
        if n in ("div_euclid", "rem_euclid") and ty is not None and ty["k"] == "uint":
            if not I_.oblige(st, "division by zero", NOT(ieq(a[1], ZERO))):
                return None
            return lift(lambda p, q: I_.binop("Div" if n[0] == "d" else "Rem", p, q, ty), *a)
        if n == "to_le":
            return a[0]
        if n in ("from_le_bytes", "from_be_bytes"):
            k = re.search(r"<impl ([iu])(\d+|size)>", fn["def"])
            if k is None:
                return NotImplemented
            w = (64 if k.group(2) == "size" else int(k.group(2))) // 8
            bs = [at(a[0], I(i)) for i in range(w)]
            v = ZERO
            for i, b in enumerate(bs if n == "from_le_bytes" else bs[::-1]):
                v = add(v, scale(b, 256 ** i))
            return v if k.group(1) == "u" else app("le_i%d" % (8 * w), v)
        return lift(lambda *x: app("int_" + n, S(fn["def"]), *x), *a)
    return m


for _n in ("abs_diff", "unsigned_abs", "signum", "div_euclid", "rem_euclid", "to_le", "to_be", "swap_bytes", "reverse_bits", "count_ones",
           "count_zeros", "leading_zeros", "trailing_zeros", "rotate_left", "rotate_right", "is_power_of_two", "from_le_bytes",
           "from_be_bytes", "isqrt", "ilog2", "ilog10"):
    M["num::" + _n] = int_fn(_n)


reg("f32::signum f64::signum", lambda x: app("signum", x))
reg("f32::to_radians f64::to_radians", lambda x: app("rad", x))
reg("f32::cos f64::cos", lambda x: app("cos", x))
reg("f32::sin f64::sin", lambda x: app("sin", x))
reg("f32::acos f64::acos", lambda x: app("acos", x))
reg("f32::sqrt f64::sqrt", lambda x: app("sqrt", x))
reg("f32::floor f64::floor", lambda x: app("floor", x))
reg("f32::round f64::round", lambda x: app("round", x))
reg("f32::powi f64::powi", lambda x, y: app("powi", x, y))
reg("f32::atan2 f64::atan2", lambda x, y: app("atan2", x, y))
reg("f32::max f64::max", lambda x, y: app("fmax", x, y))
reg("f32::min f64::min", lambda x, y: app("fmin", x, y))
reg("f32::is_nan f64::is_nan", lambda x: app("isnan", x))
reg("f32::is_finite f64::is_finite", lambda x: app("isfinite", x))
reg("f32::to_bits", lambda x: app("fbits", x))
reg("f32::is_sign_negative", lambda x: app("isneg", x))
reg("f32::mul_add", lambda x, y, z: add(mul(x, y), z))
reg("f32::clamp", lambda x, y, z: app("fclamp", x, y, z))


# ---------------------------------------------------------------- glam
def dot(a, b):
    def f(x, y):
        if x.op == "vec" and y.op == "vec" and (all(c.op == "int" for c in x.a) or all(c.op == "int" for c in y.a)):
            r = ZERO
            for p, q in zip(x.a, y.a):
                r = add(r, mul(p, q))
            return r
        if y.op == "vec" and all(c.op == "int" for c in y.a):
            x, y = y, x
        if x.op == "vec" and all(c.op == "int" for c in x.a) and y.op != "vec":
            r = ZERO
            for i, p in enumerate(x.a):
                r = add(r, mul(p, comp(y, i)))
            return r
        if x.id > y.id:
            x, y = y, x
        return app("dot", x, y)
    return lift(f, a, b)


def cross(a, b):
    def f(x, y):
        if x is y:
            return app("cross", x, y)
        if x.id > y.id:
            return scale(app("cross", y, x), -1)
        return app("cross", x, y)
    return lift(f, a, b)


reg("Vec3::new Vec2::new Vec4::new", lambda *x: vec(*x))
reg("Vec3::dot Vec2::dot", dot)
reg("Vec3::cross", cross)
reg("Vec3::normalize Vec2::normalize", lambda x: app("normalize", x))
reg("Vec3::length Vec2::length", lambda x: app("vlen", x))
reg("Vec3::length_squared", lambda x: dot(x, x))
reg("Vec3::x Vec2::x", lambda x: comp(x, 0))
reg("Vec3::y Vec2::y", lambda x: comp(x, 1))
reg("Vec3::z", lambda x: comp(x, 2))
reg("Vec3::zero", lambda: vec(ZERO, ZERO, ZERO))
reg("Vec2::zero", lambda: vec(ZERO, ZERO))
reg("Vec3::one", lambda: vec(ONE, ONE, ONE))
reg("Vec3::unit_x", lambda: vec(ONE, ZERO, ZERO))
reg("Vec3::unit_y", lambda: vec(ZERO, ONE, ZERO))
reg("Vec3::unit_z", lambda: vec(ZERO, ZERO, ONE))
reg("Vec3::splat", lambda x: vec(x, x, x))
reg("Vec3::abs", lambda x: vec(*[app("abs", comp(x, i)) for i in range(3)]))
reg("Vec3::truncate", lambda x: vec(comp(x, 0), comp(x, 1)))
reg("Vec3::extend", lambda x, y: vec(comp(x, 0), comp(x, 1), comp(x, 2), y))
reg("Vec4::truncate", lambda x: vec(comp(x, 0), comp(x, 1), comp(x, 2)))
reg("Vec4::w", lambda x: comp(x, 3))
reg("Vec4::x", lambda x: comp(x, 0))
reg("Vec4::y", lambda x: comp(x, 1))
reg("Vec4::z", lambda x: comp(x, 2))
reg("vec3::vec3 vec2::vec2 vec4::vec4", lambda *x: vec(*x))
reg("Quat::mul_vec3", lambda x, y: app("mv", x, y))
reg("Vec3::length_reciprocal Vec2::length_reciprocal", lambda x: div(ONE, app("vlen", x)))
for _n in ("min", "max", "min_element", "max_element"):
    reg("Vec3::%s Vec2::%s" % (_n, _n), lambda *a, n=_n: lift(lambda *x: app("v" + n, *x), *a))
reg("Vec2::perp_dot", lambda x, y: sub(mul(comp(x, 0), comp(y, 1)), mul(comp(x, 1), comp(y, 0))))
reg("Mat2::from_angle", lambda x: app("rot2", x))
reg("Quat::from_axis_angle", lambda x, y: app("quat", x, y))
reg("Vec3::lerp", lambda x, y, z: app("lerp", x, y, z))


def setter(i):
    def m(I_, st, args, fn, at_, t):
        v = I_.load_ptr(st, args[0])
        n = 2 if "Vec2" in fn["def"] else 3
        c = [comp(v, j) for j in range(n)]
        c[i] = args[1]
        I_.store_ptr(st, args[0], [], vec(*c))
        return UNIT
    return m


for _i, _c in enumerate("xyz"):
    M["Vec3::set_" + _c] = setter(_i)
    M["Vec2::set_" + _c] = setter(_i)


def is_vecty(t):
    return t["k"] == "adt" and t["path"].startswith("glam::")


def vdiv(a, b, bt):
    if is_vecty(bt):
        if a.op == "vec" and b.op == "vec":
            return vec(*[div(x, y) for x, y in zip(a.a, b.a)])
        return app("vdiv", a, b)
    if a.op == "vec":
        return vec(*[div(x, b) for x in a.a])
    return div(a, b)


def vmul(a, b, at_, bt):
    if is_vecty(at_) and at_["path"].split("::")[-1] in ("Mat2", "Quat", "Mat3", "Mat4"):
        return app("mv", a, b)
    if is_vecty(at_) and is_vecty(bt):
        return app("vmul", a, b)
    if is_vecty(bt):
        a, b = b, a
    if a.op == "vec":
        return vec(*[mul(x, b) for x in a.a])
    return mul(a, b)


def overl(opname, assign=False):
    def m(I_, st, args, fn, at_, t):
        inst = fn.get("inst")
        if inst and I_.prog.body(inst):
            return NotImplemented
        a0, b0 = args[0], args[1] if len(args) > 1 else None
        a = val(I_, st, a0)
        b = val(I_, st, b0) if b0 is not None else None
        tids = fn["args"]
        ta = fmt_type(I_, tids[0])
        tb = fmt_type(I_, tids[1]) if len(tids) > 1 else ta
        if ta["k"] == "adt" and ta["path"] == "alloc::string::String":
            r = cat(a, b)
        elif ta["k"] in ("int", "uint", "float") :
            r = lift(lambda x, y: I_.binop(opname, x, y, ta), a, b)
            if ta["k"] != "float" and opname in ("Add", "Sub", "Mul"):
                c = I_.in_range(r, ta)
                if not (opname == "Add" and all(mem_bounded(l) for l in leafset(r))):
                    if not I_.oblige(st, "overflow " + opname, c):
                        return None
        elif is_vecty(ta) or is_vecty(tb):
            if opname == "Add":
                r = vadd(a, b)
            elif opname == "Sub":
                r = vadd(a, lift(lambda y: scale(y, -1), b))
            elif opname == "Mul":
                r = lift(lambda x, y: vmul(x, y, ta, tb), a, b)
            elif opname == "Div":
                r = lift(lambda x, y: vdiv(x, y, tb), a, b)
            elif opname == "Neg":
                r = lift(lambda x: scale(x, -1), a)
            else:
                r = app("v" + opname, a, b)
        else:
            return NotImplemented if not assign else opq("ext:" + fn["def"], a, b)
        if assign:
            I_.store_ptr(st, a0, [], r)
            return UNIT
        return r
    return m


def vadd(a, b):
    def f(x, y):
        if x.op == "vec" and y.op != "vec" and y is not ZERO and not tm.iszero(x):
            return add_generic(x, y)
        if y.op == "vec" and x.op != "vec" and x is not ZERO and not tm.iszero(y):
            return add_generic(y, x)
        return add(x, y)
    return lift(f, a, b)


def add_generic(v, y):
    return vec(*[add(c, comp(y, i)) for i, c in enumerate(v.a)])


for _o in ("Add", "Sub", "Mul", "Div", "Rem"):
    M["%s::%s" % (_o, _o.lower())] = overl(_o)
    M["%sAssign::%s_assign" % (_o, _o.lower())] = overl(_o, True)
M["Neg::neg"] = overl("Neg")


# ---------------------------------------------------------------- Vec
@model("Vec::push", "VecDeque::push_back")
def _push(I_, st, args, fn, at_, t):
    p = args[0]
    I_.store_ptr(st, p, [], seqcat(I_.load_ptr(st, p), lit(args[1])))
    return UNIT


def seqcat(a, b):
    return cat(a, b)


@model("Vec::pop")
def _pop(I_, st, args, fn, at_, t):
    v = I_.load_ptr(st, args[0])
    n = length(v)
    c = ge0(sub(n, ONE))
    r = OPTION(c, at(v, sub(n, ONE)))
    I_.store_ptr(st, args[0], [], take(v, monus(n, ONE)))
    return r


@model("Vec::insert")
def _vinsert(I_, st, args, fn, at_, t):
    v = I_.load_ptr(st, args[0])
    if not I_.oblige(st, "bounds insert", le(args[1], length(v))):
        return None
    I_.store_ptr(st, args[0], [], cat(take(v, args[1]), lit(args[2]), skip(v, args[1])))
    return UNIT


@model("Vec::remove", "Vec::swap_remove")
def _vremove(I_, st, args, fn, at_, t):
    v = I_.load_ptr(st, args[0])
    if not I_.oblige(st, "bounds remove", lt(args[1], length(v))):
        return None
    r = at(v, args[1])
    if fn["def"].endswith("swap_remove"):
        n = length(v)
        I_.store_ptr(st, args[0], [], ite(ieq(n, ONE), NIL, opq("swap_remove", v, args[1])))
    else:
        I_.store_ptr(st, args[0], [], cat(take(v, args[1]), skip(v, add(args[1], ONE))))
    return r


@model("Vec::append")
def _append(I_, st, args, fn, at_, t):
    a, b = I_.load_ptr(st, args[0]), I_.load_ptr(st, args[1])
    I_.store_ptr(st, args[0], [], cat(a, b))
    I_.store_ptr(st, args[1], [], NIL)
    return UNIT


@model("Vec::extend_from_slice")
def _extslice(I_, st, args, fn, at_, t):
    I_.store_ptr(st, args[0], [], cat(I_.load_ptr(st, args[0]), val(I_, st, args[1])))
    return UNIT


@model("Extend::extend")
def _extend(I_, st, args, fn, at_, t):
    tt = I_.prog.types[fn["args"][0]]
    s = to_seq(I_, st, args[1])
    s = I_.force(st, s)
    s = strip_unordered(s)
    old = I_.load_ptr(st, args[0])
    if tt["k"] == "adt" and ("Map" in tt["path"] or "Set" in tt["path"]):
        I_.store_ptr(st, args[0], [], map_cat(old, unperm(s)))
        return UNIT
    if tt["k"] == "adt" and tt["path"] == "alloc::string::String":
        s = flatten_str(s)
    I_.store_ptr(st, args[0], [], cat(old, s))
    return UNIT


def strip_unordered(s):
    return s


def flatten_str(s):
    return flatmap(s, lambda x: x if x.op != "int" else S(chr(x.a[0])))


@model("Vec::clear", "String::clear")
def _clear(I_, st, args, fn, at_, t):
    I_.store_ptr(st, args[0], [], NIL)
    return UNIT


@model("Vec::truncate")
def _trunc(I_, st, args, fn, at_, t):
    v = I_.load_ptr(st, args[0])
    I_.store_ptr(st, args[0], [], take(v, args[1]))
    return UNIT


@model("Vec::reserve", "String::reserve", "Vec::shrink_to_fit", "HashMap::reserve")
def _nop(I_, st, args, fn, at_, t):
    return UNIT


def resized(v, n, x):
    L = length(v)

    def f(l, m):
        d = sub(m, l)
        grow = cat(v, For(monus(m, l), fresh("ix"), lit(x)))
        if nonneg(d):
            return grow
        if nonneg(scale(d, -1)):
            return take(v, m)
        return ite(ge0(d), cat(v, For(d, fresh("ix"), lit(x))), take(v, m))
    return lift(f, L, n)


@model("Vec::resize")
def _resize(I_, st, args, fn, at_, t):
    alloc_bound(I_, st, args[1])
    v = I_.load_ptr(st, args[0])
    I_.store_ptr(st, args[0], [], resized(v, args[1], args[2]))
    return UNIT


@model("vec::from_elem")
def _from_elem(I_, st, args, fn, at_, t):
    alloc_bound(I_, st, args[1])
    n = args[1]
    if n.op == "int" and n.a[0] <= 4:
        return lit(*[args[0]] * n.a[0])
    return For(n, fresh("ix"), lit(args[0]))


@model("slice::swap")
def _swap(I_, st, args, fn, at_, t):
    v = I_.load_ptr(st, args[0])
    n = length(v)
    if not I_.oblige(st, "bounds", AND(lt(args[1], n), lt(args[2], n))):
        return None
    a, b = at(v, args[1]), at(v, args[2])
    I_.store_ptr(st, args[0], [], upd(upd(v, args[1], b), args[2], a))
    return UNIT


@model("slice::reverse")
def _reverse(I_, st, args, fn, at_, t):
    I_.store_ptr(st, args[0], [], rev(I_.load_ptr(st, args[0])))
    return UNIT


def rev(s):
    n = length(s)
    k = fresh("ix")
    if s.op == "lit":
        return lit(*reversed(s.a))
    return For(n, k, lit(at(s, sub(sub(n, ONE), k))))


@model("slice::get", "Vec::get")
def _get(I_, st, args, fn, at_, t):
    v = val(I_, st, args[0])
    i = args[1]
    if i.op == "adt":
        lo, hi = range_of(i, v)
        c = AND(le(lo, hi), le(hi, length(v)))
        return OPTION(c, slice_(v, lo, hi))
    return OPTION(lt(i, length(v)), at(v, i))


@model("slice::get_mut")
def _get_mut(I_, st, args, fn, at_, t):
    v = val(I_, st, args[0])
    return OPTION(lt(args[1], length(v)), I_.ext(args[0], [st_i(args[1])]))


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _firstlast(I_, st, args, fn, at_, t):
    d = simp(fn["def"])
    v = val(I_, st, args[0])
    n = length(v)
    i = ZERO if "first" in d else sub(n, ONE)
    c = ge0(sub(n, ONE))
    if d.endswith("_mut"):
        return OPTION(c, I_.ext(args[0], [st_i(i)]))
    return OPTION(c, at(v, i))


@model("slice::split_first", "slice::split_last")
def _splitf(I_, st, args, fn, at_, t):
    v = val(I_, st, args[0])
    n = length(v)
    c = ge0(sub(n, ONE))
    if fn["def"].endswith("first"):
        return OPTION(c, tup(at(v, ZERO), skip(v, ONE)))
    return OPTION(c, tup(at(v, sub(n, ONE)), take(v, sub(n, ONE))))


@model("slice::split_at")
def _split_at(I_, st, args, fn, at_, t):
    v = val(I_, st, args[0])
    if not I_.oblige(st, "bounds split_at", le(args[1], length(v))):
        return None
    return tup(take(v, args[1]), skip(v, args[1]))


@model("slice::contains", "Vec::contains")
def _contains(I_, st, args, fn, at_, t):
    v = val(I_, st, args[0])
    x = val(I_, st, args[1])
    tid = fn["args"][0]
    tt = fmt_type(I_, tid)
    if tt["k"] in ("int", "uint", "char"):
        return seq_any(v, lambda y: ieq(y, x))
    return seq_any(v, lambda y: lift(lambda p, q: eq(p, q, has_float(I_, tid)), y, x))


@model("slice::copy_from_slice", "slice::clone_from_slice")
def _copyfrom(I_, st, args, fn, at_, t):
    d = I_.load_ptr(st, args[0])
    s = val(I_, st, args[1])
    if not I_.oblige(st, "copy_from_slice length", ieq(length(d), length(s))):
        return None
    I_.store_ptr(st, args[0], [], s)
    return UNIT


@model("slice::concat", "slice::join", "Concat::concat", "Join::join")
def _concat(I_, st, args, fn, at_, t):
    v = val(I_, st, args[0])
    if fn["def"].endswith("join"):
        sep = val(I_, st, args[1])
        if v.op == "lit":
            out = []
            for i, x in enumerate(v.a):
                if i:
                    out.append(sep)
                out.append(x)
            return cat(*out)
        return app("join", v, sep)
    return flatmap(v, lambda x: x)


@model("slice::fill")
def _fill(I_, st, args, fn, at_, t):
    d = I_.load_ptr(st, args[0])
    I_.store_ptr(st, args[0], [], For(length(d), fresh("ix"), lit(args[1])))
    return UNIT


def range_of(r, v):
    n = length(v)
    p = r.a[0].split("::")[-1]
    f = r.a[2:]
    if p == "Range":
        return f[0], f[1]
    if p == "RangeTo":
        return ZERO, f[0]
    if p == "RangeFrom":
        return f[0], n
    if p == "RangeFull":
        return ZERO, n
    if p == "RangeInclusive":
        return f[0], add(f[1], ONE)
    if p == "RangeToInclusive":
        return ZERO, add(f[0], ONE)
    return None, None


@model("Index::index", "IndexMut::index_mut")
def _index(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    if inst and I_.prog.body(inst) and I_.prog.body(inst).local:
        return NotImplemented
    mut = fn["def"].endswith("index_mut")
    v = val(I_, st, args[0])
    i = args[1]
    if v.op == "map" or is_mapty(I_, fn["args"][0]):
        o = map_get(I_, st, v, val(I_, st, i))
        if not I_.oblige(st, "map index", is_variant(o, OPT, 1)):
            return None
        return fld(o, OPT, 1, 0)
    it_ = I_.prog.types[fn["args"][1]] if len(fn["args"]) > 1 else None
    if i.op == "adt" or (it_ is not None and it_["k"] == "adt"):
        if i.op != "adt":
            return opq("slice", v, i)
        tt = fmt_type(I_, fn["args"][0])
        lo, hi = range_of(i, v)
        isstr = tt["k"] == "str" or tt["k"] == "adt" and tt["path"] == "alloc::string::String"
        if isstr and i.a[0].endswith("RangeFull"):
            return v
        c = AND(le(lo, hi), le(hi, length(v)))
        if isstr:
            c = AND(c, app("charboundary", v, lo, hi))
        if not I_.oblige(st, "slice range", c):
            return None
        if isstr:
            return app("substr", v, lo, hi)
        if mut:
            if lo is ZERO and hi is length(v):
                return args[0]
            I_.event("unknown", "mutable subslice")
            return opq("submut")
        return slice_(v, lo, hi)
    if not I_.oblige(st, "bounds", lt(i, length(v))):
        return None
    if mut:
        return I_.ext(args[0], [st_i(i)])
    return at(v, i)


def is_mapty(I_, tid):
    t = fmt_type(I_, tid)
    return t["k"] == "adt" and ("HashMap" in t["path"] or "BTreeMap" in t["path"])


# vec![..]
@model("Box::new_uninit")
def _new_uninit(I_, st, args, fn, at_, t):
    return I_.alloc(st, undef())


@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init", "slice::into_vec")
def _into_vec(I_, st, args, fn, at_, t):
    v = val(I_, st, args[0])
    if v.op == "tup":   # MaybeUninit wrapper
        v = v.a[-1]
    return v


@model("mem::replace", "mem::take", "mem::swap")
def _mem(I_, st, args, fn, at_, t):
    d = simp(fn["def"])
    old = I_.load_ptr(st, args[0])
    if d == "mem::replace":
        I_.store_ptr(st, args[0], [], args[1])
        return old
    if d == "mem::take":
        v = default_of(I_, fn["args"][0])
        I_.store_ptr(st, args[0], [], v)
        return old
    new = I_.load_ptr(st, args[1])
    I_.store_ptr(st, args[0], [], new)
    I_.store_ptr(st, args[1], [], old)
    return UNIT


@model("Option::take", "Option::replace", "Option::insert", "Option::get_or_insert_with")
def _opt_take(I_, st, args, fn, at_, t):
    d = simp(fn["def"])
    old = I_.load_ptr(st, args[0])
    if d == "Option::take":
        I_.store_ptr(st, args[0], [], none())
        return old
    if d == "Option::replace":
        I_.store_ptr(st, args[0], [], some(args[1]))
        return old
    return NotImplemented


@model("mem::drop", "mem::forget", "ManuallyDrop::drop")
def _drop(I_, st, args, fn, at_, t):
    return UNIT


# ---------------------------------------------------------------- sorting
@model("slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort", "slice::sort_unstable", "slice::sort_unstable_by_key",
       "slice::sort_by_cached_key")
def _sort(I_, st, args, fn, at_, t):
    v = unperm(I_.load_ptr(st, args[0]))
    d = simp(fn["def"]).split("::")[1]
    n = length(v)
    a, b = fresh("ix"), fresh("ix")
    s = st.copy()
    s.learn(AND(lt(a, n), lt(b, n)))
    xa, xb = at(v, a), at(v, b)
    if len(args) > 1:
        I_.pcs.append(st.pc)
        s.pc = TRUE
        if d.endswith("key"):
            ka = I_.call_value(s, args[1], [xa])
            kb = I_.call_value(s, args[1], [xb])
            r = app("cmp", ka, kb) if ka is not None else None
        else:
            r = I_.call_value(s, args[1], [xa, xb])
        I_.pcs.pop()
        if r is None:
            r = opq("nocmp")
    else:
        r = app("cmp", xa, xb)
    I_.event("sort", r, tm.lam((a, b), r), v)
    key = tm.lam((a, b), r)
    j = fresh("ix")
    pi = app("pi", v, key, j)
    UNSIGNED.add(pi)
    if n.op == "int" and n.a[0] <= 1:
        return UNIT
    I_.store_ptr(st, args[0], [], For(n, j, lit(at(v, pi))))
    return UNIT


@model("Vec::dedup", "Vec::dedup_by_key", "Vec::retain", "Vec::drain", "Vec::split_off", "Vec::dedup_by")
def _vecmisc(I_, st, args, fn, at_, t):
    d = simp(fn["def"]).split("::")[1]
    p = args[0]
    v = I_.load_ptr(st, p)
    if d == "retain":
        def f(s, x, i):
            c = I_.call_value(s, args[1], [x])
            return ite(c, lit(x), NIL) if c is not None else None
        r = I_.each(st, v, f)
        if r is None:
            return None
        I_.store_ptr(st, p, [], r)
        return UNIT
    if d == "drain":
        lo, hi = range_of(args[1], v) if args[1].op == "adt" else (None, None)
        if lo is not None:
            if not I_.oblige(st, "slice range", AND(le(lo, hi), le(hi, length(v)))):
                return None
            I_.store_ptr(st, p, [], cat(take(v, lo), skip(v, hi)))
            return it(slice_(v, lo, hi))
    if d == "split_off":
        if not I_.oblige(st, "bounds split_off", le(args[1], length(v))):
            return None
        I_.store_ptr(st, p, [], take(v, args[1]))
        return skip(v, args[1])
    I_.store_ptr(st, p, [], opq(d, v))
    return opq(d + "_r", v)


# ---------------------------------------------------------------- maps
def newmap(kind):
    k = "btree" if "BTree" in kind else "hash"
    return tm._mk("map", (k, NIL))


def map_kind(m):
    return m.a[0] if m.op == "map" else "hash"


def map_cat(m, s):
    if m.op == "sw":
        return lift(lambda x: map_cat(x, s), m)
    if m is BOT:
        return BOT
    if m.op == "map":
        return tm._mk("map", (m.a[0], cat(m.a[1], s)))
    return tm._mk("map", ("hash", cat(tm._mk("entries", (m,)), s)))


def map_get(I_, st, m, k):
    """Option of the value for key k"""
    if m.op == "sw" or k.op == "sw":
        return lift(lambda a, b: map_get(I_, st, a, b), m, k)
    if m is BOT or k is BOT:
        return BOT
    if m.op == "map":
        r = seq_get(I_, st, m.a[1], k)
        return r
    r = tm._mk("app", ("get", m, k))
    return SW(discr_of(r, OPT), {0: none(), 1: some(fld(r, OPT, 1, 0))}, None)


def seq_get(I_, st, s, k):
    """last entry with that key"""
    if s.op == "lit":
        r = none()
        for e in s.a:
            r = lift(lambda kk, vv, old=r: ite(eq(kk, k), some(vv), old) if False else None, proj(e, 0), proj(e, 1)) if False else \
                ite(eqk(proj(e, 0), k), some(proj(e, 1)), r)
        return r
    if s.op == "cat":
        r = none()
        for p in s.a:
            q = seq_get(I_, st, p, k)
            r = lift(lambda x, old=r: x, q) if r is none() else opt_or(q, r)
        return r
    if s.op == "sw":
        return lift(lambda x: seq_get(I_, st, x, k), s)
    if s.op == "entries":
        return map_get(I_, st, s.a[0], k)
    r = tm._mk("app", ("getseq", s, k))
    return SW(discr_of(r, OPT), {0: none(), 1: some(fld(r, OPT, 1, 0))}, None)


def eqk(a, b):
    return lift(lambda x, y: eq(x, y), a, b)


def opt_or(a, b):
    return ite(is_variant(a, OPT, 1), a, b)


@model("HashMap::new", "BTreeMap::new", "HashSet::new", "BTreeSet::new", "HashMap::with_capacity", "HashSet::with_capacity")
def _mapnew(I_, st, args, fn, at_, t):
    return newmap(fn["def"])


@model("HashMap::insert", "BTreeMap::insert")
def _mapinsert(I_, st, args, fn, at_, t):
    m = I_.load_ptr(st, args[0])
    old = map_get(I_, st, m, args[1]) if True else None
    I_.store_ptr(st, args[0], [], map_cat(m, lit(tup(args[1], args[2]))))
    return old


@model("HashMap::entry", "BTreeMap::entry")
def _mapentry(I_, st, args, fn, at_, t):
    I_.mapentries = True
    return opq("mapentry", args[0], val(I_, st, args[1]))


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::or_insert_with_key")
def _orinsert(I_, st, args, fn, at_, t):
    """insert unless present; what is done through the returned reference is not followed"""
    e = args[0]
    d = simp(fn["def"]).split("::")[1]
    if e.op != "opq" or e.a[0] != "mapentry":
        return NotImplemented
    m = I_.load_ptr(st, e.a[1])
    k = e.a[2]
    old = map_get(I_, st, m, k)

    def absent(s):
        if d == "or_insert":
            return args[1]
        if d == "or_insert_with":
            return I_.call_value(s, args[1], [])
        if d == "or_insert_with_key":
            return I_.call_value(s, args[1], [k])
        return opq("default")
    v = absent(st)
    if v is None:
        return None
    I_.store_ptr(st, e.a[1], [], I_.simp(ite(is_variant(old, OPT, 1), m, map_cat(m, lit(tup(k, v)))), st))
    return opq("entryref", e.a[1], k)


@model("HashMap::retain", "BTreeMap::retain")
def _mapretain(I_, st, args, fn, at_, t):
    m = I_.load_ptr(st, args[0])
    s = m.a[1] if m.op == "map" else tm._mk("entries", (m,))

    def f(q, x, i):
        kc, vc = I_.alloc(q, proj(x, 0)), I_.alloc(q, proj(x, 1))
        c = I_.call_value(q, args[1], [kc, vc])
        return ite(c, lit(tup(proj(x, 0), I_.load_ptr(q, vc))), NIL) if c is not None else None
    r = I_.each(st, s, f)
    if r is None:
        return None
    I_.store_ptr(st, args[0], [], tm._mk("map", (map_kind(m), r)))
    return UNIT


@model("HashSet::insert", "BTreeSet::insert")
def _setinsert(I_, st, args, fn, at_, t):
    m = I_.load_ptr(st, args[0])
    old = map_get(I_, st, m, args[1])
    I_.store_ptr(st, args[0], [], map_cat(m, lit(tup(args[1], UNIT))))
    return NOT(is_variant(old, OPT, 1))


@model("HashMap::get", "BTreeMap::get")
def _mapget(I_, st, args, fn, at_, t):
    return map_get(I_, st, val(I_, st, args[0]), val(I_, st, args[1]))


@model("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def _mapcontains(I_, st, args, fn, at_, t):
    return is_variant(map_get(I_, st, val(I_, st, args[0]), val(I_, st, args[1])), OPT, 1)


@model("HashMap::remove", "BTreeMap::remove", "HashSet::remove", "BTreeSet::remove")
def _mapremove(I_, st, args, fn, at_, t):
    m = I_.load_ptr(st, args[0])
    k = val(I_, st, args[1])
    r = map_get(I_, st, m, k)
    s = m.a[1] if m.op == "map" else tm._mk("entries", (m,))
    s2 = flatmap(s, lambda e: ite(eqk(proj(e, 0), k), NIL, lit(e)))
    I_.store_ptr(st, args[0], [], tm._mk("map", (map_kind(m), s2)))
    return r if "Map" in fn["def"] else is_variant(r, OPT, 1)


def entries(I_, m):
    if m.op == "sw":
        return lift(lambda x: entries(I_, x), m)
    if m is BOT:
        return BOT
    if m.op == "map":
        s = m.a[1]
        if m.a[0] == "btree":
            if s.op == "lit" and all(proj(e, 0).op == "str" for e in s.a):
                d = {}
                for e in s.a:
                    d[proj(e, 0).a[0]] = e
                return lit(*[d[k] for k in sorted(d)])
            return tm._mk("app", ("bysorted", s))
        if s.op == "lit" and len(s.a) <= 1:
            return s
        return tm._mk("perm", (s,))
    return tm._mk("perm", (tm._mk("entries", (m,)),))


@model("HashMap::iter", "BTreeMap::iter", "HashMap::into_iter", "HashSet::iter", "BTreeSet::iter", "HashMap::drain")
def _mapiter(I_, st, args, fn, at_, t):
    s = entries(I_, val(I_, st, args[0]))
    I_.event("mapiter", fn["def"])
    if "Set" in fn["def"]:
        s = smap(s, lambda e: proj(e, 0))
    return it(s)


@model("HashMap::keys", "BTreeMap::keys", "HashMap::into_keys", "BTreeMap::into_keys")
def _keys(I_, st, args, fn, at_, t):
    return it(smap(entries(I_, val(I_, st, args[0])), lambda e: proj(e, 0)))


@model("HashMap::values", "BTreeMap::values", "HashMap::into_values", "BTreeMap::into_values")
def _values(I_, st, args, fn, at_, t):
    return it(smap(entries(I_, val(I_, st, args[0])), lambda e: proj(e, 1)))


@model("HashMap::len", "BTreeMap::len", "HashSet::len", "BTreeSet::len")
def _maplen(I_, st, args, fn, at_, t):
    m = val(I_, st, args[0])
    r = app("maplen", m)
    for l in leafset(r):
        UNSIGNED.add(l)
    return r


@model("HashMap::is_empty", "BTreeMap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty")
def _mapempty(I_, st, args, fn, at_, t):
    m = val(I_, st, args[0])
    if m.op == "map":
        return ieq(length(m.a[1]), ZERO)
    return app("mapempty", m)


def unperm(s):
    if s.op == "perm":
        return s.a[0]
    if s.op == "for" or s.op == "cat":
        return deep_unperm(s)
    return s


def deep_unperm(t):
    ps = [x for x in walk(t) if x.op == "perm"]
    return subst_terms(t, {p: p.a[0] for p in ps}) if ps else t


def subst_terms(t, m):
    """replace closed subterms"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            if not any(True for _ in children(x)):
                r = x
            else:
                r = tm._subst_node(x, go)
            memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- iterators
def to_seq(I_, st, x):
    """remaining elements of an iterator value"""
    x = val(I_, st, x) if x.op in ("ptr",) else x
    if x.op == "sw":
        return lift(lambda y: to_seq(I_, st, y), x)
    if x is BOT:
        return BOT
    if x.op == "iter":
        if x.a[0].op == "lz":
            if x.a[1] is ZERO:
                return x.a[0]
            return skip(I_.force(st, x.a[0]), x.a[1])
        return skip(x.a[0], x.a[1])
    if x.op == "adt":
        p = x.a[0]
        if p == OPT:
            return lit(x.a[2]) if x.a[1] == 1 else NIL
        if p == RES:
            return lit(x.a[2]) if x.a[1] == 0 else NIL
        if p.endswith("RangeInclusive"):
            lo, hi = x.a[2], x.a[3]
            s = fresh("ix")
            return For(monus(add(hi, ONE), lo), s, lit(add(lo, s)))
        if p.endswith("::Range"):
            lo, hi = x.a[2], x.a[3]
            s = fresh("ix")
            return For(monus(hi, lo), s, lit(add(lo, s)))
        if p.endswith("RangeFrom"):
            return tm._mk("app", ("from", x.a[2]))
    if x.op == "map":
        I_.event("mapiter", "into_iter")
        return entries(I_, x)
    return x


def seq_of_arg(I_, st, x, tid):
    """sequence denoted by an IntoIterator value of a given type"""
    if tid is not None:
        t = I_.prog.types[tid]
        tt = fmt_type(I_, tid)
        if tt["k"] == "adt" and tt["path"] == OPT:
            x = val(I_, st, x)
            return lift(lambda y: BOT if y is BOT else (
                (lit(y.a[2]) if y.a[1] == 1 else NIL) if y.op == "adt" else
                SW(discr_of(y, OPT), {0: NIL, 1: lit(fld(y, OPT, 1, 0))}, None)), x)
        if tt["k"] == "adt" and tt["path"] == RES:
            x = val(I_, st, x)
            return lift(lambda y: BOT if y is BOT else SW_or(discr_of(y, RES), lit(fld(y, RES, 0, 0)) if y.op != "adt" or y.a[1] == 0 else NIL, NIL), x)
        if t["k"] == "ref" and t["mut"] and x.op == "ptr":
            # &mut Vec<T> / &mut iterator
            if tt["k"] in ("slice", "array") or tt["k"] == "adt" and tt["path"] in ("alloc::vec::Vec",):
                return ptr_elems(I_, st, x)
            if tt["k"] == "adt" and ("HashMap" in tt["path"] or "BTreeMap" in tt["path"]):
                I_.event("unknown", "map iter_mut")
                return opq("mapitermut")
        if tt["k"] == "adt" and ("HashMap" in tt["path"] or "BTreeMap" in tt["path"] or "HashSet" in tt["path"] or "BTreeSet" in tt["path"]) \
                and "Iter" not in tt["path"]:
            m = val(I_, st, x)
            I_.event("mapiter", tt["path"])
            s = entries(I_, m)
            if "Set" in tt["path"]:
                s = smap(s, lambda e: proj(e, 0))
            return s
    return to_seq(I_, st, x)


def SW_or(d, a, b):
    if d.op == "int":
        return a if d.a[0] == 0 else b
    return sw_on(d, {0: a, 1: b}, None)


def ptr_elems(I_, st, p):
    v = I_.load_ptr(st, p)
    n = length(v)
    if n.op == "int" and n.a[0] <= 8:
        return lit(*[I_.ext(p, [st_i(I(i))]) for i in range(n.a[0])])
    s = fresh("ix")
    return For(n, s, lit(I_.ext(p, [st_i(s)])))


@model("IntoIterator::into_iter")
def _into_iter(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    if inst and I_.prog.body(inst) and I_.prog.body(inst).local:
        return NotImplemented
    x = args[0]
    if x.op == "iter":
        return x
    if x.op == "ptr":
        v = I_.load_ptr(st, x)
        if v.op == "iter":
            return x
    if x.op == "sw" and all(l.op == "iter" or l is BOT for l in leafset(x)):
        return x
    return it(seq_of_arg(I_, st, x, fn["args"][0]))


reg("slice::iter Vec::iter slice::into_iter VecDeque::iter array::iter", lambda x: it(x))
reg("Option::iter Option::into_iter", lambda x: it(lift(lambda y: SW_opt(y), x)))
M["IntoParallelRefIterator::par_iter"] = lambda I_, st, args, fn, at_, t: (I_.event("par"), it(val(I_, st, args[0])))[1]
M["IntoParallelIterator::into_par_iter"] = lambda I_, st, args, fn, at_, t: (I_.event("par"), it(seq_of_arg(I_, st, args[0], fn["args"][0])))[1]


def SW_opt(y):
    if y is BOT:
        return BOT
    if y.op == "adt":
        return lit(y.a[2]) if y.a[1] == 1 else NIL
    return SW(discr_of(y, OPT), {0: NIL, 1: lit(fld(y, OPT, 1, 0))}, None)


@model("slice::iter_mut", "Vec::iter_mut")
def _iter_mut(I_, st, args, fn, at_, t):
    return it(ptr_elems(I_, st, args[0]))


@model("iter::once", "iter::empty", "iter::repeat", "iter::repeat_n", "once::once", "empty::empty", "repeat::repeat", "repeat_n::repeat_n")
def _itersrc(I_, st, args, fn, at_, t):
    d = simp(fn["def"]).split("::")[1]
    if d == "once":
        return it(lit(args[0]))
    if d == "empty":
        return it(NIL)
    if d == "repeat_n":
        return it(For(args[1], fresh("ix"), lit(args[0])))
    return it(tm._mk("app", ("repeat", args[0])))


@model("Iterator::next")
def _next(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    if inst and I_.prog.body(inst) and I_.prog.body(inst).local:
        return NotImplemented
    p = args[0]
    x = I_.load_ptr(st, p)
    if x.op == "ptr":
        p = x
        x = I_.load_ptr(st, p)
    if x.op == "sw":
        outs = lift(lambda y: tup(*next_of(I_, st, y)) if y is not BOT else BOT, x)
        I_.store_ptr(st, p, [], proj(outs, 1))
        return proj(outs, 0)
    if x.op == "iter" and x.a[0].op == "lz":
        x = it(I_.force(st, x.a[0]), x.a[1])
    r, nx = next_of(I_, st, x)
    I_.store_ptr(st, p, [], nx)
    return r


def next_of(I_, st, x):
    if x.op != "iter":
        s = to_seq(I_, st, x)
        x = it(s)
    s, pos = x.a
    n = length(s)
    return OPTION(lt(pos, n), at(s, pos)), it(s, add(pos, ONE))


@model("Iterator::nth")
def _nth(I_, st, args, fn, at_, t):
    x = val(I_, st, args[0])
    s = I_.force(st, to_seq(I_, st, x))
    if args[0].op == "ptr":
        I_.store_ptr(st, args[0], [], it(s, add(args[1], ONE)))
    return OPTION(lt(args[1], length(s)), at(s, args[1]))


@model("Iterator::last")
def _last(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    n = length(s)
    return OPTION(ge0(sub(n, ONE)), at(s, sub(n, ONE)))


@model("Iterator::size_hint")
def _size_hint(I_, st, args, fn, at_, t):
    return opq("size_hint")


def effectful(I_, st, f):
    """does the closure reach mutable state of its environment?"""
    for x in walk(f):
        if x.op == "ptr":
            return True
    return False


def lazy(kind):
    def m(I_, st, args, fn, at_, t):
        s = to_seq(I_, st, args[0])
        f = args[1]
        if kind == "map" and "ParallelIterator" in fn["def"]:
            I_.event("parclosure", f)
        if s.op == "lz" or effectful(I_, st, f):
            return it(tm._mk("lz", (kind, s, f)))
        v = M["adapt:" + kind](I_, st, s, f)
        if v is None:
            return None
        return it(v)
    return m


def adapt(kind):
    def d(f):
        M["adapt:" + kind] = f
        return f
    return d


def caller(I_, st, f):
    """function to apply f repeatedly with its own state kept in a cell"""
    if f.op == "clo":
        key = I_.prog.types[f.a[0]].get("inst")
        b = I_.prog.body(key) if key else None
        if b is not None and I_.is_mut(b.locals[1]):
            return I_.alloc(st, f)
    return f


@adapt("map")
def _a_map(I_, st, s, f):
    f = caller(I_, st, f)

    def g(q, x, i):
        v = I_.call_value(q, f, [x])
        return lit(v) if v is not None else None
    return I_.each(st, s, g)


@adapt("filter")
def _a_filter(I_, st, s, f):
    f = caller(I_, st, f)

    def g(q, x, i):
        c = I_.call_value(q, f, [x])
        return ite(c, lit(x), NIL) if c is not None else None
    return I_.each(st, s, g)


@adapt("filter_map")
def _a_fmap(I_, st, s, f):
    f = caller(I_, st, f)

    def g(q, x, i):
        v = I_.call_value(q, f, [x])
        return lift(SW_opt, v) if v is not None else None
    return I_.each(st, s, g)


@adapt("flat_map")
def _a_flat(I_, st, s, f):
    f, rt = (f.a[0], f.a[1]) if f.op == "typed" else (f, None)
    f = caller(I_, st, f)

    def g(q, x, i):
        v = I_.call_value(q, f, [x])
        if v is None:
            return None
        return I_.force(q, seq_of_arg(I_, q, v, rt))
    return I_.each(st, s, g)


@adapt("take_while")
def _a_tw(I_, st, s, f):
    flags = M["adapt:map"](I_, st, s, f)
    if flags is None:
        return None
    n = length(s)
    return take(s, first_false(flags, n))


def first_false(flags, n):
    """index of the first FALSE of a flag sequence of length n, or n"""
    if flags.op == "lit":
        r = n
        for i in reversed(range(len(flags.a))):
            r = ite(flags.a[i], r, I(i))
        return r
    s = fresh("ix")
    c = NOT(at(flags, s))
    return ite(Any(n, s, c), First(n, s, c), n)


@adapt("skip_while")
def _a_sw(I_, st, s, f):
    flags = M["adapt:map"](I_, st, s, f)
    if flags is None:
        return None
    return skip(s, first_false(flags, length(s)))


@adapt("map_while")
def _a_mw(I_, st, s, f):
    vs = M["adapt:map"](I_, st, s, f)
    if vs is None:
        return None
    n = length(s)
    j = fresh("ix")
    c = NOT(is_variant(at(vs, j), OPT, 1))
    m = ite(Any(n, j, c), First(n, j, c), n)
    return smap(take(vs, m), lambda o: fld(o, OPT, 1, 0))


@adapt("inspect")
def _a_inspect(I_, st, s, f):
    M["adapt:map"](I_, st, s, f)
    return s


for _k in ("map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect"):
    M["Iterator::" + _k] = lazy(_k)
    M["ParallelIterator::" + _k] = lazy(_k)


@model("Iterator::flat_map", "ParallelIterator::flat_map", "ParallelIterator::flat_map_iter", "Iterator::flatten", "ParallelIterator::flatten")
def _flat_map(I_, st, args, fn, at_, t):
    s = to_seq(I_, st, args[0])
    if fn["def"].endswith("flatten"):
        s = I_.force(st, s)

        def g(q, x, i):
            return I_.force(q, flat_elem(I_, q, x))
        v = I_.each(st, s, g)
        return it(v) if v is not None else None
    rt = fn["args"][1] if len(fn["args"]) > 1 else None
    f = tm._mk("typed", (args[1], rt))
    if s.op == "lz" or effectful(I_, st, args[1]):
        return it(tm._mk("lz", ("flat_map", s, f)))
    v = M["adapt:flat_map"](I_, st, s, f)
    return it(v) if v is not None else None


def flat_elem(I_, st, x):
    def f(y):
        if y is BOT:
            return BOT
        if y.op == "iter":
            return to_seq(I_, st, y)
        if y.op == "adt":
            return to_seq(I_, st, y)
        if y.op in ("lit", "cat", "for"):
            return y
        if y.op == "discr":
            return y
        # opaque Option or Vec: unknown which; Options are recognised by their discriminant being used
        return tm._mk("app", ("iterof", y))
    return lift(f, x)


@model("Iterator::chain", "ParallelIterator::chain")
def _chain(I_, st, args, fn, at_, t):
    a = to_seq(I_, st, args[0])
    b = seq_of_arg(I_, st, args[1], fn["args"][1] if len(fn["args"]) > 1 else None)
    return it(cat(a, b))


@model("Iterator::enumerate", "IndexedParallelIterator::enumerate")
def _enumerate(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    return it(flatmap(s, lambda x, i: lit(tup(i, x)), True))


@model("Iterator::zip", "IndexedParallelIterator::zip", "iter::zip", "zip::zip")
def _zip(I_, st, args, fn, at_, t):
    a = I_.force(st, to_seq(I_, st, args[0]))
    b = I_.force(st, seq_of_arg(I_, st, args[1], fn["args"][1] if len(fn["args"]) > 1 else None))
    return it(zipseq(a, b))


def zipseq(a, b):
    def f(x, y):
        if x is BOT or y is BOT:
            return BOT
        if x.op == "lit" and y.op == "lit":
            return lit(*[tup(p, q) for p, q in zip(x.a, y.a)])
        if y.op == "app" and y.a[0] == "from":
            return flatmap(x, lambda e, i: lit(tup(e, add(y.a[1], i))), True)
        if x.op == "app" and x.a[0] == "from":
            return flatmap(y, lambda e, i: lit(tup(add(x.a[1], i), e)), True)
        if y.op == "app" and y.a[0] == "repeat":
            return smap(x, lambda e: tup(e, y.a[1]))
        n = imin(length(x), length(y))
        s = fresh("ix")
        return For(n, s, lit(tup(at(x, s), at(y, s))))
    return lift(f, a, b)


@model("Iterator::skip", "Iterator::take", "IndexedParallelIterator::skip", "IndexedParallelIterator::take")
def _skiptake(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    return it((skip if fn["def"].endswith("skip") else take)(s, args[1]))


@model("Iterator::step_by")
def _step_by(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    if not I_.oblige(st, "step_by", ge0(sub(args[1], ONE))):
        return None
    n = length(s)
    k = fresh("ix")
    m = idiv(add(n, sub(args[1], ONE)), args[1])
    return it(For(m, k, lit(at(s, mul(k, args[1])))))


@model("Iterator::rev", "IndexedParallelIterator::rev")
def _rev(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    return it(lift(lambda x: BOT if x is BOT else rev(x), s))


@model("slice::chunks", "slice::chunks_exact", "slice::windows")
def _chunks(I_, st, args, fn, at_, t):
    v = val(I_, st, args[0])
    c = args[1]
    if not I_.oblige(st, "chunk size", ge0(sub(c, ONE))):
        return None
    n = length(v)
    k = fresh("ix")
    d = simp(fn["def"]).split("::")[1]
    if d == "windows":
        return it(For(monus(n, sub(c, ONE)), k, lit(slice_(v, k, add(k, c)))))
    if d == "chunks_exact":
        return it(For(idiv(n, c), k, lit(slice_(v, mul(k, c), mul(add(k, ONE), c)))))
    return it(For(idiv(add(n, sub(c, ONE)), c), k, lit(slice_(v, mul(k, c), imin(mul(add(k, ONE), c), n)))))


def pred_seq(I_, st, s, f):
    return M["adapt:filter"](I_, st, s, f)


def nonempty(s):
    return seq_any(s, lambda x: TRUE)


def head(s):
    """first element (meaningful when nonempty)"""
    if s.op == "sw":
        return lift(head, s)
    if s is BOT:
        return BOT
    if s.op == "lit":
        return s.a[0] if s.a else BOT
    if s.op == "cat":
        r = head(s.a[-1])
        for p in reversed(s.a[:-1]):
            r = ite(nonempty(p), head(p), r)
        return r
    if s.op == "for":
        n, k, b = tm.open_for(s)
        c = nonempty(b)
        if c is TRUE:
            return head(subst(b, {k: ZERO}))
        j = First(n, k, c)

        def at_j(jj):
            if jj is BOT:
                return BOT
            return head_some(subst(b, {k: jj}))
        return lift(at_j, j)
    return at(s, ZERO)


def head_some(b):
    """head of a sequence known to be nonempty: drop the empty branches"""
    if b.op == "sw":
        kids = {}
        for k, x in b.a[1]:
            kids[k] = BOT if x is NIL else head_some(x)
        d = None
        if b.a[2] is not None:
            d = BOT if b.a[2] is NIL else head_some(b.a[2])
        return SW(b.a[0], kids, d)
    return head(b)


def opt_head(s):
    if s.op == "sw":
        return lift(opt_head, s)
    if s is BOT:
        return BOT
    c = nonempty(s)
    return ite(c, some(head(s)), none())


@model("Iterator::find", "ParallelIterator::find_first")
def _find(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    r = pred_seq(I_, st, s, args[1])
    havoc_iter(I_, st, args[0])
    return opt_head(r) if r is not None else None


def havoc_iter(I_, st, p):
    if p.op == "ptr":
        x = I_.load_ptr(st, p)
        if x.op == "iter":
            u = fresh("u:pos")
            I_.store_ptr(st, p, [], it(x.a[0], opq("itpos", x.a[0])))


@model("Iterator::find_map")
def _find_map(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    r = M["adapt:filter_map"](I_, st, s, args[1])
    havoc_iter(I_, st, args[0])
    return opt_head(r) if r is not None else None


@model("Iterator::position")
def _position(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    f = caller(I_, st, args[1])

    def g(q, x, i):
        c = I_.call_value(q, f, [x])
        return ite(c, lit(i), NIL) if c is not None else None
    r = I_.each(st, s, g, indexed=True)
    havoc_iter(I_, st, args[0])
    return opt_head(r) if r is not None else None


@model("Iterator::any", "Iterator::all", "ParallelIterator::any", "ParallelIterator::all")
def _any(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    alln = fn["def"].endswith("all")
    f = caller(I_, st, args[1])

    def g(q, x, i):
        c = I_.call_value(q, f, [x])
        return lit(NOT(c) if alln else c) if c is not None else None
    r = I_.each(st, unperm(s), g)
    havoc_iter(I_, st, args[0])
    if r is None:
        return None
    c = seq_any(r, lambda x: x)
    return NOT(c) if alln else c


@model("Iterator::count", "ParallelIterator::count", "ExactSizeIterator::len")
def _count(I_, st, args, fn, at_, t):
    return length(unperm(I_.force(st, to_seq(I_, st, args[0]))))


def seq_sum(s):
    if s.op == "sw":
        return lift(seq_sum, s)
    if s.op == "lit":
        r = ZERO
        for x in s.a:
            r = add(r, x)
        return r
    if s.op == "cat":
        r = ZERO
        for p in s.a:
            r = add(r, seq_sum(p))
        return r
    if s.op == "for":
        n, k, b = tm.open_for(s)
        return Sum(n, k, seq_sum(b))
    k = fresh("ix")
    return Sum(length(s), k, at(s, k))


@model("Iterator::sum", "ParallelIterator::sum", "Iterator::product")
def _sum(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    if fn["def"].endswith("product"):
        return opq("product", s)
    v = seq_sum(unperm(s))
    ty = I_.prog.types[fn["args"][-1]]
    if ty["k"] in ("int", "uint"):
        c = I_.in_range(v, ty)
        if not all(mem_bounded(l) for l in leafset(v)):
            if not I_.oblige(st, "overflow sum", c):
                return None
    return v


@model("Iterator::max", "Iterator::min", "Iterator::max_by", "Iterator::min_by", "Iterator::max_by_key", "Iterator::min_by_key")
def _itmax(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    d = simp(fn["def"]).split("::")[1]
    r = tm._mk("app", (d, s) + tuple(args[1:]))
    return r


@model("Iterator::eq", "Iterator::ne", "Iterator::cmp", "Iterator::partial_cmp")
def _iteq(I_, st, args, fn, at_, t):
    return opq("itercmp", to_seq(I_, st, args[0]), to_seq(I_, st, args[1]))


@model("Iterator::fold", "Iterator::try_fold", "Iterator::reduce", "Iterator::for_each", "Iterator::scan", "Iterator::try_for_each",
       "ParallelIterator::for_each")
def _fold(I_, st, args, fn, at_, t):
    d = simp(fn["def"]).split("::")[1]
    s = I_.force(st, to_seq(I_, st, args[0]))
    if d in ("fold",):
        c = I_.alloc(st, args[1])
        f = caller(I_, st, args[2])

        def g(q, x, i):
            v = I_.call_value(q, f, [I_.load_ptr(q, c), x])
            if v is None:
                return None
            I_.store_ptr(q, c, [], v)
            return NIL
        r = I_.each(st, s, g)
        if r is None:
            return None
        v = st.mem.pop(c.a[0].a[0])
        return I_.simp(v, st)
    if d == "for_each":
        f = caller(I_, st, args[1])

        def g2(q, x, i):
            v = I_.call_value(q, f, [x])
            return NIL if v is not None else None
        r = I_.each(st, s, g2)
        return UNIT if r is not None else None
    I_.event("unknown", fn["def"])
    return opq("ext:" + fn["def"], s)


@model("Iterator::partition")
def _partition(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    f = caller(I_, st, args[1])

    def pair(q, x, i):
        c = I_.call_value(q, f, [x])
        return None if c is None else lit(tup(x, c))
    pairs = I_.each(st, s, pair)
    if pairs is None:
        return None
    return tup(tm.flatmap(pairs, lambda p: ite(proj(p, 1), lit(proj(p, 0)), NIL)),
               tm.flatmap(pairs, lambda p: ite(proj(p, 1), NIL, lit(proj(p, 0)))))


@model("Iterator::unzip", "ParallelIterator::unzip")
def _unzip(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    return tup(smap(s, lambda x: proj(x, 0)), smap(s, lambda x: proj(x, 1)))


@model("Iterator::collect", "ParallelIterator::collect", "FromIterator::from_iter", "Iterator::collect_into", "FromParallelIterator::from_par_iter")
def _collect(I_, st, args, fn, at_, t):
    s = I_.force(st, to_seq(I_, st, args[0]))
    if fn["def"].endswith("from_iter"):
        dst = fn["args"][0]
        s = I_.force(st, seq_of_arg(I_, st, args[0], None))
    else:
        dst = fn["args"][-1]
    return collect(I_, st, settle(I_, st, s), dst)


def settle(I_, st, s):
    """a sequence, without the cases that an earlier check of all its elements excludes"""
    def f(x, none_):
        if x.op == "cat":
            return cat(*[f(y, none_) for y in x.a])
        if x.op != "for" or x.a[0] not in none_:
            return x
        n, i, b = tm.open_for(x)
        for a in none_[n]:
            b = tm.restrict(b, NOT(subst(a.a[2], {tm.bvar(a.a[1]): i})))
        return For(n, i, b)

    def go(x, pcs):
        if x.op == "sw":
            a = x.a[0]
            return SW(a, {k: go(v, [tm.cof(p, a, k) for p in pcs]) for k, v in x.a[1]},
                      None if x.a[2] is None else go(x.a[2], [tm.cof(p, a, None) for p in pcs]))
        if x.op not in ("for", "cat"):
            return x
        none_ = {}
        for a, v in list(st.facts.items()) + [y for p in pcs for y in tm.when_true(p)]:
            if a.op == "any" and v == 0:
                none_.setdefault(a.a[0], []).append(a)
        return f(x, none_) if none_ else x
    pcs = [p for p in I_.pcs + [st.pc] if p.op == "sw" and p is not TRUE]
    if s.op == "sw" and len(tm.leafset(s)) > 64:
        return s
    return go(s, pcs)


def collect(I_, st, s, dst):
    t = I_.prog.types[dst]
    p = t.get("path", "")
    if t["k"] == "adt":
        if p == OPT:
            bad = seq_any(s, lambda x: NOT(is_variant(x, OPT, 1)))
            return ite(bad, none(), some(collect(I_, st, smap(s, lambda x: fld(x, OPT, 1, 0)), t["args"][0])))
        if p == RES:
            bad = seq_any(s, lambda x: is_variant(x, RES, 1))
            errs = flatmap(s, lambda x: ite(is_variant(x, RES, 1), lit(fld(x, RES, 1, 0)), NIL))
            return ite(bad, err(head(errs)), ok(collect(I_, st, smap(s, lambda x: fld(x, RES, 0, 0)), t["args"][0])))
        if p == "alloc::string::String":
            return collect_str(s)
        if "Map" in p or "Set" in p:
            s = unperm(s)
            if "Set" in p:
                s = smap(s, lambda x: tup(x, UNIT))
            return tm._mk("map", ("btree" if "BTree" in p else "hash", s))
        if p == "alloc::boxed::Box":
            return s
    return s


def collect_str(s):
    def f(x):
        if x is BOT:
            return BOT
        if x.op == "lit":
            return cat(*[S(chr(y.a[0])) if y.op == "int" else (y if y.op in ("str", "cat") else elemstr(y)) for y in x.a])
        if x.op == "app" and x.a[0] == "chars":
            return x.a[1]
        if x.op in ("for", "cat") and stringy(x):
            return flatmap(x, lambda e: e)
        if x.op in ("for", "cat") and charry(x):
            return flatmap(x, lambda e: lift(lambda y: S(chr(y.a[0])) if y.op == "int" else app("charstr", y), e))
        return app("strof", x)
    return lift(f, s)


def charry(x):
    """are the elements of this sequence bytes read as characters?"""
    if x.op == "sw":
        return all(l is BOT or charry(l) for l in tm.leafset(x))
    if x.op == "cat":
        return all(charry(y) for y in x.a)
    if x.op == "for":
        return charry(x.a[2])
    if x.op == "lit":
        return all(l is BOT or l.op == "int" or l.op == "app" and l.a[0] == "byte" for y in x.a for l in tm.leafset(y))
    return False


def stringy(x):
    """are the elements of this sequence texts (and not characters)?"""
    if x.op == "sw":
        return all(l is BOT or stringy(l) for l in tm.leafset(x))
    if x.op == "cat":
        return all(stringy(y) for y in x.a)
    if x.op == "for":
        return stringy(x.a[2])
    if x.op == "lit":
        return all(l is BOT or l.op in ("str", "cat") or l.op == "app" and l.a[0] in ("disp", "text", "lower", "upper")
                   for y in x.a for l in tm.leafset(y))
    return False


def elemstr(y):
    return y


# ---------------------------------------------------------------- files
@model("File::open", "File::create")
def _open(I_, st, args, fn, at_, t):
    p = val(I_, st, args[0])
    d = simp(fn["def"])
    I_.event("fs", d, p)
    if d == "File::create":
        return res_of("fcreate", lambda r, q: tm._mk("file", (q, ZERO)), p)
    return res_of("open", lambda r, q: tm._mk("file", (q, ZERO)), p)


@model("fs::read", "fs::read_to_string", "fs::write", "fs::remove_file", "fs::create_dir_all", "fs::create_dir", "fs::rename", "fs::copy",
       "fs::metadata", "fs::remove_dir_all")
def _fs(I_, st, args, fn, at_, t):
    d = simp(fn["def"])
    xs = [val(I_, st, a) for a in args]
    I_.event("fs", d, *xs)
    if d == "fs::read":
        return res_of("fread", lambda r, q: file_bytes(q), *xs)
    if d == "fs::read_to_string":
        return res_of("freads", lambda r, q: tm._mk("app", ("text", q)), *xs)
    if d == "fs::write":
        xs[1:] = [lift(lambda x: x.a[1] if x.op == "app" and x.a[0] == "bytesof" else x, x) for x in xs[1:]]
        return res_of("fwrite", lambda r, *q: UNIT, *xs)
    return res_of(d, lambda r, *q: fld(r, RES, 0, 0), *xs)


def filelen(p):
    return app("filelen", p)


def byte(p, i):
    r = app("byte", p, i)
    UNSIGNED.add(r)
    return r


def file_bytes(p):
    s = fresh("ix")
    n = filelen(p)
    UNSIGNED.add(n)
    return For(n, s, lit(byte(p, s)))


SEEK = "core::io::seek::SeekFrom"


@model("Seek::seek", "Seek::rewind", "Seek::stream_position")
def _seek(I_, st, args, fn, at_, t):
    f = I_.load_ptr(st, args[0])
    p = args[0]
    if f.op == "ptr":
        p = f
        f = I_.load_ptr(st, p)
    d = simp(fn["def"])
    w = args[1] if len(args) > 1 else None

    def go(f, w):
        if f is BOT:
            return BOT
        if f.op != "file" or (w is not None and w.op != "adt"):
            return tup(opq("seek", f, w if w is not None else UNIT), opq("file"))
        path, pos = f.a
        if d.endswith("stream_position"):
            return tup(res_of("seekpos", lambda r, q, o: o, path, pos), f)
        if w is None or w.a[1] == 0:
            npos = w.a[2] if w is not None else ZERO
        elif w.a[1] == 2 or ADTS[w.a[0]][w.a[1]][0] == "Current":
            npos = add(pos, w.a[2])
        else:
            npos = add(filelen(path), w.a[2])
            UNSIGNED.add(filelen(path))
        return tup(res_of("seek", lambda r, q, o: o, path, npos), tm._mk("file", (path, npos)))
    r = lift(go, f, w) if w is not None else lift(lambda x: go(x, None), f)
    I_.store_ptr(st, p, [], proj(r, 1))
    return proj(r, 0)


@model("Read::read_exact", "Read::read", "Read::read_to_end", "Read::read_to_string")
def _read_exact(I_, st, args, fn, at_, t):
    d = simp(fn["def"]).split("::")[1]
    p = args[0]
    f = I_.load_ptr(st, p) if p.op == "ptr" else p
    if f.op == "ptr":
        p = f
        f = I_.load_ptr(st, p)
    buf = args[1]
    old = val(I_, st, buf)
    n = length(old)
    I_.event("read", d, f, n)

    def go(f, n):
        if f is BOT or n is BOT:
            return BOT
        if f.op != "file":
            return tup(opq("read", f), opq("file"), opq("buf"))
        path, pos = f.a
        if d == "read_exact":
            s = fresh("ix")
            return tup(res_of("rd", lambda r, *a: UNIT, path, pos, n), tm._mk("file", (path, add(pos, n))),
                       For(n, s, lit(byte(path, add(pos, s)))))
        if d == "read":
            r = tm._mk("app", ("rdpart", path, pos, n))
            cnt = fld(r, RES, 0, 0)
            UNSIGNED.add(cnt)
            s = fresh("ix")
            return tup(SW(discr_of(r, RES), {0: ok(cnt), 1: err(fld(r, RES, 1, 0))}, None), tm._mk("file", (path, add(pos, cnt))),
                       For(n, s, lit(opq("partial", byte(path, add(pos, s)), cnt))))
        L = filelen(path)
        UNSIGNED.add(L)
        if d == "read_to_end":
            s = fresh("ix")
            m = monus(L, pos)
            return tup(res_of("rdall", lambda r, *a: m, path, pos), tm._mk("file", (path, L)), cat(old, For(m, s, lit(byte(path, add(pos, s))))))
        return tup(res_of("rdstr", lambda r, *a: L, path, pos), tm._mk("file", (path, L)),
                   cat(old, tm._mk("app", ("text", path)) if pos is ZERO else opq("textfrom", path, pos)))
    r = lift(go, f, n)
    I_.store_ptr(st, p, [], proj(r, 1))
    if buf.op in ("ptr", "sw"):
        I_.store_ptr(st, buf, [], proj(r, 2))
    return proj(r, 0)


@model("File::metadata", "Metadata::len")
def _meta(I_, st, args, fn, at_, t):
    f = val(I_, st, args[0])
    d = simp(fn["def"])
    if d == "File::metadata":
        return lift(lambda x: res_of("meta", lambda r, q: tm._mk("app", ("metaof", q)), x.a[0]) if x.op == "file" else opq("meta", x), f)
    def g(x):
        if x is BOT:
            return BOT
        if x.op == "app" and x.a[0] == "metaof":
            r = filelen(x.a[1])
            UNSIGNED.add(r)
            return r
        return opq("filelen", x)
    return lift(g, f)


@model("Write::write_all", "Write::write", "Write::flush")
def _write_all(I_, st, args, fn, at_, t):
    f = val(I_, st, args[0])
    I_.event("fs", "write", f, *args[1:])
    if len(args) > 1:
        x = val(I_, st, args[1])
        return res_of("fwriteall", lambda r, *q: UNIT, f, x)
    return res_of("fflush", lambda r, *q: UNIT, f)


reg("BufReader::new BufReader::with_capacity BufWriter::new", lambda *x: x[-1])


@model("Instant::now", "SystemTime::now", "Instant::elapsed", "Duration::as_millis", "Duration::as_secs", "Duration::as_secs_f32",
       "SystemTime::elapsed", "Duration::as_micros", "Duration::as_secs_f64", "Instant::duration_since")
def _now(I_, st, args, fn, at_, t):
    return opq("time")


@model("env::var", "env::args", "env::var_os", "env::current_dir", "process::id", "thread::current", "RandomState::new")
def _env(I_, st, args, fn, at_, t):
    I_.event("env", fn["def"])
    return opq("env", S(fn["def"]))


@model("panicking::panic", "panicking::panic_fmt", "panicking::begin_panic", "option::unwrap_failed", "option::expect_failed",
       "panicking::panic_display", "panicking::unreachable_display", "panicking::panic_explicit", "unwrap_failed::unwrap_failed_inner",
       "panicking::assert_failed", "panicking::panic_bounds_check", "process::exit", "process::abort", "panicking::panic_nounwind",
       "result::unwrap_failed", "panicking::unreachable_panic", "panicking::panic_const", "rt::begin_panic", "panicking::panic_str_2015")
def _panic(I_, st, args, fn, at_, t):
    I_.oblige(st, "panic", FALSE, simp(fn["def"]))
    return None


@model("Result::unwrap", "Result::expect", "Option::unwrap", "Option::expect", "Result::unwrap_err", "Result::expect_err")
def _unwrap(I_, st, args, fn, at_, t):
    d = simp(fn["def"])
    x = val(I_, st, args[0]) if args[0].op == "ptr" else args[0]
    x = I_.simp(x, st)
    if d.startswith("Option"):
        p, v = OPT, 1
    else:
        p, v = RES, (1 if d.endswith("err") else 0)
    if not I_.oblige(st, "unwrap", is_variant(x, p, v), d):
        return None
    return I_.simp(fld(I_.simp(x, st), p, v, 0), st)


@model("RangeInclusive::new")
def _ri(I_, st, args, fn, at_, t):
    return tm._mk("adt", ("core::ops::range::RangeInclusive", 0, args[0], args[1]))


@model("Range::contains", "RangeInclusive::contains")
def _rcontains(I_, st, args, fn, at_, t):
    r = val(I_, st, args[0])
    x = val(I_, st, args[1])
    if r.op == "adt":
        tt = fmt_type(I_, fn["args"][0])
        if tt["k"] in ("int", "uint", "char"):
            return AND(le(r.a[2], x), (le if "Inclusive" in fn["def"] else lt)(x, r.a[3]))
    return opq("contains", r, x)


# character classes: those defined by ranges are spelled out, those defined by the Unicode tables are functions of the character
def between(c, a, b):
    return AND(le(I(ord(a) if type(a) is str else a), c), le(c, I(ord(b) if type(b) is str else b)))


def oneof(c, s):
    return OR(*[ieq(c, I(ord(x))) for x in s])


CLASS = {
    "is_ascii": lambda c: between(c, 0, 127),
    "is_ascii_digit": lambda c: between(c, "0", "9"),
    "is_ascii_lowercase": lambda c: between(c, "a", "z"),
    "is_ascii_uppercase": lambda c: between(c, "A", "Z"),
    "is_ascii_alphabetic": lambda c: OR(between(c, "a", "z"), between(c, "A", "Z")),
    "is_ascii_alphanumeric": lambda c: OR(between(c, "a", "z"), between(c, "A", "Z"), between(c, "0", "9")),
    "is_ascii_hexdigit": lambda c: OR(between(c, "a", "f"), between(c, "A", "F"), between(c, "0", "9")),
    "is_ascii_graphic": lambda c: between(c, 33, 126),
    "is_ascii_punctuation": lambda c: OR(between(c, 33, 47), between(c, 58, 64), between(c, 91, 96), between(c, 123, 126)),
    "is_ascii_whitespace": lambda c: OR(*[ieq(c, I(x)) for x in (9, 10, 12, 13, 32)]),
    "is_ascii_control": lambda c: OR(between(c, 0, 31), ieq(c, I(127))),
    "to_ascii_lowercase": lambda c: ite(between(c, "A", "Z"), add(c, I(32)), c),
    "to_ascii_uppercase": lambda c: ite(between(c, "a", "z"), sub(c, I(32)), c),
}


def char_fn(n):
    def m(I_, st, args, fn, at_, t):
        if n in CLASS:
            return lift(CLASS[n], val(I_, st, args[0]))
        return lift(lambda *a: app("ch_" + n, *a), *[val(I_, st, a) for a in args])
    return m


for _n in list(CLASS) + ["is_whitespace", "is_numeric", "is_alphabetic", "is_alphanumeric", "is_control", "is_lowercase", "is_uppercase",
                         "len_utf8", "len_utf16"]:
    for _p in ("methods", "char", "u8") + (("num",) if _n in CLASS else ()):
        M[_p + "::" + _n] = char_fn(_n)


@model("methods::eq_ignore_ascii_case", "num::eq_ignore_ascii_case")
def _ch_eqi(I_, st, args, fn, at_, t):
    a, b = [lift(CLASS["to_ascii_lowercase"], val(I_, st, x)) for x in args]
    return lift(ieq, a, b)


@model("Hash::hash", "Hasher::finish")
def _hash(I_, st, args, fn, at_, t):
    return UNIT


@model("result::Result::branch", "Try::branch", "Try::from_output", "FromResidual::from_residual")
def _try(I_, st, args, fn, at_, t):
    inst = fn.get("inst")
    if inst and I_.prog.body(inst):
        return NotImplemented
    return NotImplemented


# ---------------------------------------------------------------- nom
NW = {"le_u8": 1, "le_u16": 2, "le_u32": 4, "le_u64": 8, "be_u8": 1, "be_u16": 2, "be_u32": 4, "anychar": 1, "le_i32": 4, "le_i16": 2,
      "le_i8": 1}


def nom_err(name, *args):
    return err(opq("nomerr:" + name))


def nom_prim(name, inp):
    """inp -> (condition, value, rest)"""
    w = NW[name]
    n = length(inp)
    c = ge0(sub(n, I(w)))
    bs = [at(inp, I(i)) for i in range(w)]
    if name.startswith("be"):
        bs = bs[::-1]
    v = ZERO
    for i, b in enumerate(bs):
        v = add(v, scale(b, 256 ** i))
    if name in ("le_i32", "le_i16", "le_i8"):
        v = app(name, v)
    return c, v, skip(inp, I(w))


def nom_res(c, v, rest):
    return ite(c, ok(tup(rest, v)), nom_err("short"))


def nom_fn(name):
    def m(I_, st, args, fn, at_, t):
        inp = val(I_, st, args[0])

        def f(x):
            if x is BOT:
                return BOT
            c, v, r = nom_prim(name, x)
            return nom_res(c, v, r)
        return lift(f, inp)
    return m


for _n in NW:
    M["complete::" + _n] = nom_fn(_n)
    M["streaming::" + _n] = nom_fn(_n)


@model("multi::count", "sequence::tuple", "sequence::pair", "sequence::preceded", "sequence::terminated", "combinator::map", "multi::many0", "combinator::all_consuming")
def _nomp(I_, st, args, fn, at_, t):
    k = simp(fn["def"]).split("::")[1]
    return tm._mk("nomp", (k,) + tuple(args))


@model("complete::take", "bytes::take")
def _nomtake(I_, st, args, fn, at_, t):
    return tm._mk("nomp", ("take",) + tuple(args))


def nom_call(I_, st, p, args):
    inp = val(I_, st, args[0])
    return run_parser(I_, st, p, inp)


M["nom:call"] = nom_call


def run_parser(I_, st, p, inp):
    """IResult of running parser p"""
    p = val(I_, st, p)
    if p.op != "nomp":
        return I_.call_value(st, p, [inp])
    k = p.a[0]
    if k in ("tuple", "pair", "preceded", "terminated"):
        ps = list(p.a[1].a) if k == "tuple" and p.a[1].op == "tup" else list(p.a[1:])
        return run_seq(I_, st, k, ps, inp, [])
    if k == "count":
        return run_count(I_, st, p.a[1], p.a[2], inp)
    if k == "take":
        n = p.a[1]
        return nom_res(le(n, length(inp)), take(inp, n), skip(inp, n))
    I_.event("unknown", "nom " + k)
    return opq("nom:" + k, inp)


def run_seq(I_, st, k, ps, inp, acc):
    if not ps:
        v = tup(*acc)
        if k == "preceded":
            v = acc[1]
        if k == "terminated":
            v = acc[0]
        return ok(tup(inp, v))
    r = run_parser(I_, st, ps[0], inp)
    if r is None:
        return None

    def good(s, pl):
        return run_seq(I_, s, k, ps[1:], proj(pl, 0), acc + [proj(pl, 1)])
    return I_.case(st, r, RES, {0: good, 1: lambda s, e: err(e)})


def run_count(I_, st, p, n, inp):
    # how much does one run of p consume?
    probe = fresh("nomin")
    I_.rec += 1
    s = st.copy()
    r = run_parser(I_, s, p, probe)
    I_.rec -= 1
    w = None
    if r is not None:
        oks = [l for l in leafset(r) if l.op == "adt" and l.a[1] == 0]
        ws = set()
        for o in oks:
            rest = proj(o.a[2], 0)
            d = sub(length(probe), length(rest)) if False else None
            ws.add(consumed(probe, rest))
        if len(ws) == 1:
            w = ws.pop()
    if w is None or w == 0:
        I_.event("unknown", "nom count of a variable-width parser")
        return opq("nom:count", n, inp)
    W = I(w)
    total = mul(n, W)
    c = le(total, length(inp))
    k = fresh("ix")
    s2 = st.copy()
    s2.learn(AND(lt(k, n), c))
    # element parser on its own bytes: the remaining input is at least w long
    j = fresh("ix")
    inp_k = For(W, j, lit(at(inp, add(mul(k, W), j)))) if w > 1 else lit(at(inp, k))
    I_.pcs.append(st.pc)
    s2.pc = TRUE
    r = run_parser(I_, s2, p, inp_k)
    I_.pcs.pop()
    if r is None:
        return None
    okv = [l for l in leafset(r) if l.op == "adt" and l.a[1] == 0]
    if r.op == "adt" and r.a[1] == 0:
        v = proj(r.a[2], 1)
        return ite(c, ok(tup(skip(inp, total), For(n, k, lit(v)))), nom_err("short"))
    bad = is_variant(r, RES, 1)
    anybad = Any(n, k, bad)
    v = proj(fld(r, RES, 0, 0), 1)
    return ite(c, ite(anybad, nom_err("elem"), ok(tup(skip(inp, total), For(n, k, lit(v))))), nom_err("short"))


def consumed(probe, rest):
    if rest is probe:
        return 0
    if rest.op == "skip" and rest.a[0] is probe and rest.a[1].op == "int":
        return rest.a[1].a[0]
    if rest.op == "for":
        n, k, b = tm.open_for(rest)
        if b.op == "lit" and len(b.a) == 1 and b.a[0].op == "at" and b.a[0].a[0] is probe:
            d = sub(b.a[0].a[1], k)
            if d.op == "int":
                return d.a[0]
    return None
