"""What each property demands of the analysed source."""
import os, re
import terms as tm
from terms import *
from agree import Agree, ALL, NONE, W
import canon, views, interp, prove

REFDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref")
COUNT = ("elem", NONE)      # only the number of elements


class Finding:
    def __init__(self, key, text, path=()):
        self.key, self.text, self.path = key, text, list(path)


class Ctx:
    """one check run: lazily loads references and evaluates views (references first, so that terms keep their order)"""

    def __init__(self, prog_path, names):
        self.refs = {}
        self.undecided = []
        self.findings = []
        self.cover = []
        self.res = {}
        for n in names:
            p = os.path.join(REFDIR, n + ".gz")
            if os.path.exists(p):
                self.refs[n] = canon.load(p)
        self.prog = views.Prog(prog_path)

    def view(self, n):
        if n not in self.res:
            self.res[n] = views.VIEWS[n](self.prog, n)
        return self.res[n]

    def find(self, key, text, path=()):
        self.findings.append(Finding(key, text, path))

    def undecide(self, what, why):
        self.undecided.append("%s: %s" % (what, why))


# ---------------------------------------------------------------- helpers
def short(path):
    ps = path.split("::")
    if ps[-1] == "Geometry" and len(ps) >= 3:
        return ps[-3] + "::Geometry"
    if ps[0] in ("game_data", "map") and ps[-1] in ("Entity", "Property"):
        return ("forge" if "forge" in ps else "game" if ps[0] == "game_data" else "map") + "::" + ps[-1]
    return ps[-1]


def only(**spec):
    """spec: Type={field: demand, '*': demand}; types not mentioned are observed in full"""
    spec = {k.replace("__", "::"): v for k, v in spec.items()}

    def want(path, variant, name, i):
        s = spec.get(short(path))
        if s is None:
            return W
        vs = tm.ADTS.get(path)
        v = vs[variant][0] if vs and variant < len(vs) else ""
        for k in ("%s.%s" % (v, name), name):
            if k in s:
                return s[k]
        return s.get("*", NONE)
    return want


def mentions(t, pred, memo):
    if t in memo:
        return memo[t]
    memo[t] = False
    r = pred(t) or any(mentions(x, pred, memo) for x in subterms(t))
    memo[t] = r
    return r


def subterms(t):
    def go(x):
        if type(x) is T:
            yield x
        elif type(x) is tuple:
            for y in x:
                yield from go(y)
    for x in t.a:
        yield from go(x)


def empty(t):
    if t.op == "lit":
        return not t.a
    if t.op == "cat":
        return all(empty(x) for x in t.a)
    if t.op == "adt":
        vs = tm.ADTS.get(t.a[0])
        return bool(vs) and vs[t.a[1]][0] == "None"
    return False


def skeleton(t, pred, memo, pm):
    """forget the decisions whose atom satisfies `pred`: what may be there rather than when"""
    if t in memo:
        return memo[t]
    if t.op == "sw":
        kids = [(k, skeleton(x, pred, memo, pm)) for k, x in t.a[1]]
        d = skeleton(t.a[2], pred, memo, pm) if t.a[2] is not None else None
        if mentions(t.a[0], pred, pm):
            xs = []
            for x in [x for _, x in kids] + ([d] if d is not None else []):
                if not empty(x) and x is not BOT and x not in xs:
                    xs.append(x)
            if not xs:
                r = kids[0][1]
            elif len(xs) == 1:
                r = xs[0]
            else:
                r = app("either", *sorted(xs, key=lambda x: x.id))
        else:
            r = SW(t.a[0], dict(kids), d)
    elif t.op in ("adt", "tup", "lit", "cat"):
        a = tuple(skeleton(x, pred, memo, pm) if type(x) is T else x for x in t.a)
        r = t if a == t.a else (tm.cat(*a) if t.op == "cat" else tm.rebuild(t.op, a))
    elif t.op == "for":
        s = tm.fresh("ix")
        r = tm.For(t.a[0], s, skeleton(tm.subst(t.a[2], {tm.bvar(t.a[1]): s}), pred, memo, pm))
    else:
        r = t
    memo[t] = r
    return r


def unsort(t):
    """forget the order that sorting gives"""
    def f(x):
        if x.op == "app" and x.a[0] == "pi":
            return x.a[-1]
        return x
    return rewrite(t, f)


MEANT = ("partial", "time", "env", "static ")      # opaque values whose meaning is known


def decorated(x):
    """a sort of a list of pairs: the keys may have been computed before sorting"""
    if x.op != "app" or x.a[0] != "pi" or type(x.a[1]) is not T:
        return False
    v = x.a[1]
    if v.op != "for":
        return False
    todo = [v.a[2]]
    while todo:
        b = todo.pop()
        if b.op == "tup":
            return True
        if b.op == "lit":
            todo += [y for y in b.a if type(y) is T]
        if b.op == "sw":
            todo += [k for _, k in b.a[1]] + ([b.a[2]] if b.a[2] is not None else [])
        elif b.op == "cat":
            todo += list(b.a)
    return False


def has_opq(t, known):
    for x in walk(t, set()):
        if known and x not in known and decorated(x) and not any(decorated(y) for y in known):
            return True      # sorted by keys kept next to the elements, which the reviewed code does not do
        if x.op == "sym" and x not in known and re.match(r"(u:)?m\d", str(x.a[0])):
            return True      # a value carried by a loop that could not be summarised
        if x.op == "opq" and x not in known and not (x.a and isinstance(x.a[0], str) and x.a[0].startswith(MEANT)):
            return True
    return False


def site_of(t, known):
    """the construct of the analysed source behind a term the reference does not have"""
    best = None
    for x in sorted(walk(t, set()), key=lambda x: -x.id):
        if x not in known and x.site is not None:
            best = x.site
            break
    if best is None:
        return None
    sp, fn = best
    return "%s:%s in %s" % (sp[0].replace("/repo/", ""), sp[1], fn)


def same(view, want, term="result", prep=None, errs=NONE, label=None):
    """rule: the value computed by a view agrees, on everything the property observes, with the reviewed one"""
    def job(cx):
        what = label or "value of %s" % view
        r = cx.view(view)
        if r.missing:
            cx.find("missing " + r.missing, "the public function %s is gone" % r.missing)
            return
        if r.coarse or term not in r.terms:
            cx.undecide(what, "no single function with the expected signature; not compared")
            return
        ref = cx.refs[view][term]
        act = r.terms[term]
        if prep:
            ref, act = prep(ref), prep(act)
        ag = Agree(want, errs=errs)
        ok = ag.same(act, ref)
        cx.cover.append({"rule": "agreement with the reviewed form", "what": what, "nodes": size(act), "reference_nodes": size(ref),
                         "comparisons": ag.steps, "functions": functions(r), "identical": act is ref})
        if ok:
            return
        a, b, D, trail, why = ag.bad or (act, ref, W, [], "")
        known = set(walk(ref, set()))
        for n in cx.refs[view].values():
            known |= set(walk(n, set()))
        if has_opq(a, known):
            cx.undecide(what, "a construct outside the analysed subset decides this value (%s)" % (site_of(a, known) or "?"))
            return
        where = site_of(a, known) or site_of(act, known)
        path = "/".join(trail)
        cx.find("%s at %s" % (view, re.sub(r"b\d+", "b", path)[:200]),
                "%s: %s: %s; the source gives %s where the property needs %s%s" %
                (what, path[-300:], why or "different value", show(a, 6)[:400], show(b, 6)[:400], " (%s)" % where if where else ""),
                trail + ([where] if where else []))
    job.views = [view]
    return job


def functions(r):
    return len(r.I.visited) if r.I is not None else 0


MODULES = {
    "map": "C01", "geo_builder": "C10", "layer_filter": "C12", "scene_tree": "C14", "wad": "C22", "game_data": "C28",
}


def frames(prog, o):
    return [prog.body(k).path for k in o.stack if prog.body(k) is not None and prog.body(k).local]


def owner(prog, o):
    """the part of the library an obligation belongs to: the first of its functions outside the crate root"""
    for p in frames(prog, o):
        m = re.sub(r"^<+(impl )?&?", "", p).split("::")[0]
        if m in MODULES:
            return m
        if m == "types" or "::" not in p:
            continue
    return ""


def describe(prog, o):
    fs = frames(prog, o)
    sp = "%s:%s" % (o.sp[0].replace("/repo/", ""), o.sp[1]) if o.sp else "?"
    return "%s at %s, reached through %s: needs %s" % (o.kind, sp, " > ".join(f.split("::")[-1] if "{" not in f else "closure" for f in fs), show(o.cond, 6)[:300])


def nopanic(view, mine, exempt=None):
    """rule: every panic site reachable from the view's root is unreachable or its condition is implied by the path"""
    def job(cx):
        r = cx.view(view)
        if r.missing:
            cx.find("missing " + r.missing, "the public function %s is gone" % r.missing)
            return
        n = d = 0
        sites = set()
        for o in r.I.obls:
            if not mine(cx.prog, o):
                continue
            n += 1
            sites.add((tuple(o.sp) if o.sp else None, o.kind))
            if o.ok:
                d += 1
                continue
            if exempt and exempt(cx.prog, o):
                d += 1
                continue
            if any(x.op == "opq" for x in walk(o.cond, set())):
                cx.undecide("panic freedom", describe(cx.prog, o))
                continue
            fs = frames(cx.prog, o)
            cx.find("%s in %s" % (o.kind, fs[-1] if fs else "?"), describe(cx.prog, o), fs)
        for k, data, site, stack in r.I.events:
            if k == "unknown":
                fs = [cx.prog.body(x).path for x in stack if cx.prog.body(x) is not None and cx.prog.body(x).local]
                cx.undecide("panic freedom", "call of %s from %s is not analysed" % (data[0] if data else "?", fs[-1] if fs else "?"))
        cx.cover.append({"rule": "panic obligations", "what": view, "obligations": n, "discharged": d, "sites": len(sites),
                         "functions": functions(r)})
    job.views = [view]
    return job


# ---------------------------------------------------------------- rules on effects, order and state
IO_READ = ("text", "freads", "byte", "rd", "fread", "open", "seek")


def deterministic(view):
    """rule: no value leaving the view depends on hash iteration order, time, environment, addresses or mutable statics"""
    def job(cx):
        r = cx.view(view)
        if r.missing:
            cx.find("missing " + r.missing, "the public function %s is gone" % r.missing)
            return
        n = 0
        for name, t in r.terms.items():
            for x in walk(t, set()):
                n += 1
                bad = None
                if x.op == "opq" and x.a and isinstance(x.a[0], str):
                    n0 = x.a[0]
                    if n0 in UNSTABLE:
                        bad = UNSTABLE[n0]
                    elif n0.startswith("static ") and any(q["path"] == n0[7:] and (q["mutable"] or not q["freeze"]) for q in cx.prog.d["statics"]):
                        bad = UNSTABLE["static"]
                    elif n0.startswith("ext:"):
                        bad = next((w for p, w in AMBIENT if re.search(p, n0[4:])), None)
                elif x.op == "perm":
                    bad = UNSTABLE["perm"]
                if bad:
                    w = site_of(x, set()) or "?"
                    cx.find("%s in %s" % (bad, w.split(" in ")[-1]), "the result of %s depends on %s: %s (%s)" % (view, bad, show(x, 4)[:200], w), [w])
        for k, data, site, stack in r.I.events:
            if k == "unknown":
                name = str(data[0]) if data else "?"
                fs = [cx.prog.body(x).path for x in stack if cx.prog.body(x) is not None and cx.prog.body(x).local]
                if not any(re.search(p, name) for p, w in AMBIENT):
                    cx.undecide("determinism", "call of %s from %s is not analysed" % (name, fs[-1] if fs else "?"))
        cx.cover.append({"rule": "no unstable source in results", "what": view, "nodes": n, "functions": functions(r)})
    job.views = [view]
    return job


UNSTABLE = {"perm": "hash iteration order", "time": "the time", "env": "the environment", "static": "a mutable static", "rand": "random state", "thread": "thread scheduling"}
AMBIENT = [(r"time::|Instant|SystemTime", "the time"), (r"^std::env|env::var|env::args", "the environment"),
           (r"RandomState|DefaultHasher|hash::Hasher", "a random hash seed"), (r"thread::|ThreadId", "thread scheduling"),
           (r"process::id", "the process"), (r"sync::atomic|Atomic|OnceLock|LazyLock|Mutex|RwLock|LocalKey", "state shared between calls")]


def terminates(view):
    """rule: every recursive call extends a set of distinct input values by one that it did not contain"""
    def job(cx):
        r = cx.view(view)
        if r.missing:
            cx.find("missing " + r.missing, "the public function %s is gone" % r.missing)
            return
        keys = sorted({x[0] for x in r.I.reccalls})
        n = 0
        for k in keys:
            b = cx.prog.body(k)
            I_ = views.Interp(cx.prog, views.models.M)
            args = views.inputs(cx.prog, b)
            I_.exec_body(k, args, views.St({}, TRUE, {}))
            for key, new, pcs, facts, site in I_.reccalls:
                if key != k:
                    cx.undecide("termination", "mutual recursion through %s" % cx.prog.body(key).path)
                    continue
                n += 1
                if not any(measure(o, w, facts) for o, w in parts(cx.prog, b, args, new)):
                    if any(has_opq(w, set()) for w in new):
                        cx.undecide("termination", "recursion of %s carries values that are not analysed" % b.path)
                        continue
                    cx.find("recursion of %s" % b.path,
                            "%s calls itself at %s:%s without a measure: no carried collection gains an element that a guard showed absent" %
                            (b.path, site[0].replace("/repo/", ""), site[1]), [b.path])
        cx.cover.append({"rule": "recursion measure", "what": view, "recursive_functions": len(keys), "recursive_calls": n, "loops": len(r.I.loops)})
    job.views = [view]
    return job


def parts(prog, b, old, new):
    for i, w in enumerate(new):
        o = old[i]
        if w.op == "clo":
            for j, x in enumerate(w.a[1:]):
                yield tm._mk("prj", (o, j)), x
        yield o, w


def measure(old, new, facts):
    x = rewrite(new, lambda y: interp.passume(y, facts) if y.op == "sw" else y)
    # a depth counter
    d = tm.sub(old, x) if x.op in ("lin",) else None
    if d is not None and d.op == "int" and d.a[0] > 0 and prove_ge(old, d.a[0], facts):
        return True
    if x.op != "cat" or x.a[0] is not old or len(x.a) != 2:
        return False
    e = x.a[1]
    if e.op != "lit" or len(e.a) != 1:
        return False
    for f, k in facts.items():
        if k == 0 and f.op == "any" and f.a[0] is tm.length(old):
            s = tm.fresh("ix")
            body = tm.subst(f.a[2], {tm.bvar(f.a[1]): s})
            if body.op == "sw" and dict(body.a[1]) == {0: tm.FALSE, 1: tm.TRUE}:
                body = body.a[0]
            if body is tm.ieq(e.a[0], tm.at(old, s)) or body.op in ("eq", "feq") and set(body.a) == {e.a[0], tm.at(old, s)}:
                return True
    return False


def prove_ge(x, n, facts):
    import prove
    return prove.implied(ge0(tm.sub(x, I(n))), facts)


def mip_precondition(prog, o):
    """the documented assertion on the number of mip levels: cannot fail for 1 to 4"""
    try:
        inp = [x for p in o.pcs + [o.cond] for x in walk(p, set()) if x.op == "app" and x.a[0] == "inp"]
        if not inp or any(x.a[1].a[0] != "a2" for x in inp):
            return False
        for n in (1, 2, 3, 4):
            m = {inp[0]: I(n)}
            c = tm.NOT(replace(o.cond, m))
            for p in o.pcs:
                c = tm.AND(c, replace(p, m))
            if c is not tm.FALSE:
                return False
        return True
    except (AttributeError, IndexError):
        return False


def replace(t, m):
    return rewrite(t, lambda x: m.get(x, x))


WRITES = r"^(write|fs::write|fs::remove|fs::create|fs::rename|fs::copy|File::create|fs::set|fs::hard_link|OpenOptions)"
OUTSIDE = r"fs::|OpenOptions|net::|process::Command|os::unix::fs|File::(create|options|set_len)"


def writes(view):
    """rule: files are opened only at paths the caller named, and written only by saving"""
    def job(cx):
        r = cx.view(view)
        if r.missing:
            cx.find("missing " + r.missing, "the public function %s is gone" % r.missing)
            return
        n = 0
        for k, data, site, stack in r.I.events:
            fs = [cx.prog.body(x).path for x in stack if cx.prog.body(x) is not None and cx.prog.body(x).local]
            fn = fs[-1] if fs else "?"
            if k == "fs":
                n += 1
                if re.match(WRITES, data[0]) and view != "save":
                    cx.find("%s in %s" % (data[0], fn), "%s is reached from %s through %s, which must not change files" % (data[0], view, " > ".join(fs)), fs)
                elif data[0] != "write":
                    for leaf in (leafset(data[1]) if len(data) > 1 and type(data[1]) is T else ()):
                        x = leaf
                        while x.op in ("fld", "prj", "at"):
                            x = x.a[0]
                        if x is BOT or x.op == "app" and x.a[0] == "inp":
                            continue
                        if x.op == "opq":
                            cx.undecide("file access", "the path given to %s in %s is not analysed" % (data[0], fn))
                            continue
                        cx.find("path of %s in %s" % (data[0], fn), "%s in %s opens %s, which is not a path the caller named" % (data[0], fn, show(leaf, 5)[:200]), fs)
            elif k == "unknown":
                name = str(data[0]) if data else "?"
                if re.search(OUTSIDE, name):
                    cx.find("%s in %s" % (name, fn), "%s is called from %s" % (name, " > ".join(fs)), fs)
                else:
                    cx.undecide("file access", "call of %s from %s is not analysed" % (name, fn))
        cx.cover.append({"rule": "file effects", "what": view, "file_operations": n, "functions": functions(r)})
    job.views = [view]
    return job


def no_shared_state(view):
    """rule: what runs in parallel shares no file position and no cell, lock or atomic"""
    def job(cx):
        r = cx.view(view)
        if r.missing:
            cx.find("missing " + r.missing, "the public function %s is gone" % r.missing)
            return
        n = 0
        frz = set(cx.prog.d["notfreeze"])
        ts = cx.prog.types
        for k, data, site, stack in r.I.events:
            if k != "parclosure":
                continue
            n += 1
            f = data[0]
            if f.op != "clo":
                continue
            t = ts[f.a[0]]
            for u in t.get("upvars", []):
                v = u
                while ts[v]["k"] == "ref":
                    v = ts[v]["to"]
                if v in frz or re.search(r"fs::File|BufReader|Cell<|Mutex|RwLock|Atomic", ts[v]["name"]):
                    cx.find("capture of %s in %s" % (ts[v]["name"], t.get("path")), "the parallel closure %s at %s:%s shares %s between its calls" %
                            (t.get("path"), site[0].replace("/repo/", ""), site[1], ts[v]["name"]), [t.get("path")])
        cx.cover.append({"rule": "no shared mutable state in parallel closures", "what": view, "closures": n})
    job.views = [view]
    return job


def enum_codes(floor=6):
    """rule: the conversion of an enumeration to an integer is injective, and the conversion back is its inverse"""
    def job(cx):
        prog = cx.prog
        ts = prog.types
        to, back = {}, {}
        for r in prog.roots:
            b = prog.body(r["key"])
            tr = r.get("trait") or ""
            if b is None or b.argc != 1 or "convert" not in tr and "convert" not in r["path"]:
                continue
            a, z = ts[views.prove.deref(b.locals[1])], ts[b.locals[0]]
            if a["k"] == "adt" and a.get("akind") == "enum" and a.get("local") and z["k"] in ("int", "uint"):
                to[a["path"]] = (r, b, a)
            if z["k"] == "adt" and z.get("akind") == "enum" and z.get("local") and a["k"] in ("int", "uint"):
                back[z["path"]] = (r, b, z)
        pairs = vs = 0
        for path, (r, b, a) in sorted(to.items()):
            I_ = views.Interp(prog, views.models.M)
            x = views.typed("code", b.locals[1], prog)
            v = I_.exec_body(r["key"], [x], views.St({}, TRUE, {}))
            codes = {}
            d = tm.discr_of(x, path)
            for i, var in enumerate(a["variants"]):
                vs += 1
                k = tm.variant_discr(path, i)
                c = prove.replace(interp.passume(v, {d: k}), {d: I(k)}) if v is not None else None
                if c is None or c.op != "int":
                    if c is not None and not has_opq(c, set()):
                        cx.find("code of %s::%s" % (path, var["name"]), "%s gives %s::%s no fixed code: %s" % (r["path"], path, var["name"], show(c, 4)), [r["path"]])
                    else:
                        cx.undecide("codes", "%s::%s" % (path, var["name"]))
                    continue
                codes[var["name"]] = c.a[0]
            seen = {}
            for n, c in codes.items():
                pairs += 1
                if c in seen:
                    cx.find("codes of %s" % path, "%s gives both %s and %s the code %s" % (r["path"], seen[c], n, c), [r["path"]])
                seen[c] = n
            if path in back:
                rb, bb, _ = back[path]
                for n, c in codes.items():
                    I2 = views.Interp(prog, views.models.M)
                    y = I2.exec_body(rb["key"], [I(c)], views.St({}, TRUE, {}))
                    ok = y is not None and y.op == "adt" and y.a[0] == path and a["variants"][y.a[1]]["name"] == n
                    pairs += 1
                    if not ok:
                        cx.find("conversion of %s from %s" % (n, path), "%s turns the code %s of %s into %s" % (rb["path"], c, n, show(y, 4) if y is not None else "a panic"), [rb["path"]])
        if len(to) < floor:
            cx.find("enumerations", "only %d enumerations with integer codes are left, %d expected" % (len(to), floor))
        cx.cover.append({"rule": "enumeration codes", "what": ", ".join(sorted(to)), "enumerations": len(to), "inverse_conversions": len(back), "variants": vs, "comparisons": pairs})
    job.views = []
    return job


# ---------------------------------------------------------------- the table
def _geo(*ns):
    return lambda prog, o: owner(prog, o) in ns


def observe_geo(t):
    return t.op == "fld" and t.a[1].startswith("geo_builder::") or t.op == "fld" and "TextureBlacklist" in t.a[1]


def observe_defs(t):
    return observe_geo(t) or t.op == "fld" and t.a[1].startswith("game_data::")


def skel(pred):
    return lambda t: skeleton(t, pred, {}, {})


NODE = dict(SceneTreeNode={"data": W})


def table():
    T_ = {}
    T_["C01"] = [nopanic("run", _geo("map", ""))]
    T_["C02"] = [same("glue", only(), label="the map text becomes the token sequence, which becomes the entities", prep=None),
                 same("tokens", only(), label="classification of map lines"),
                 same("parse", only(), label="attribution of tokens to entities and brushes")]
    T_["C03"] = [same("face", only(BrushPlane={"texture": NONE, "*": W}), label="fields of a face line")]
    T_["C04"] = [same("face", only(BrushPlane={"texture": W}), label="texture name of a face"),
                 same("wad", only(TextureIndexed={"mip_texture": W}, MipTexture={"name": W}), label="texture name in a WAD")]
    T_["C05"] = [same("glue", only(), label="pairing of entities with their geometry"),
                 same("geo", only(entity__Geometry={"brush_geometry": W}, brush__Geometry={"plane_geometry": W}), label="one geometry per brush and face")]
    T_["C06"] = [same("facegeo", only(brush_plane__Geometry={"vertices": W}, Vertex={"vertex": W}), prep=unsort, label="vertices emitted for a face")]
    T_["C07"] = [same("facegeo", only(brush_plane__Geometry={"vertices": COUNT, "indices": W}), prep=unsort, label="triangle fan of a face"),
                 same("scene", only(SceneTreeNode={"data": W}, Actor={}, MeshSurface={"vertices": COUNT, "indices": W},
                                    ConvexCollision={}, ConcaveCollision={"vertices": COUNT, "indices": W}), label="merged triangle indices")]
    T_["C08"] = [same("scene", only(SceneTreeNode={"data": W}, Actor={}, MeshSurface={"vertices": W, "normals": W, "tangents": W, "uvs": W, "colors": W},
                                    CollisionGeometry={}), label="surface attribute arrays")]
    T_["C09"] = [same("facegeo", only(brush_plane__Geometry={"vertices": W, "texture": W}, Vertex={"uv": ("discr",), "color": W}), prep=unsort, label="presence of texture data")]
    T_["C10"] = [nopanic("run", _geo("geo_builder"))]
    T_["C11"] = [same("facegeo", only(brush_plane__Geometry={"vertices": W}, Vertex={"normal": W}), prep=unsort, label="vertex normals")]
    T_["C12"] = [same("layers", only(), label="selection of the worldspawn"),
                 same("scene", only(SceneTreeNode={"data": W}, Actor={"name": W}, SceneTreeType={"1": NONE, "*": W}), prep=skel(observe_defs), label="order of the nodes"),
                 nopanic("run", _geo("layer_filter"))]
    T_["C13"] = [same("layers", only(), label="partition of the world's brushes")]
    T_["C14"] = [nopanic("run", _geo("scene_tree", "layer_filter")), terminates("run")]
    T_["C15"] = [same("scene", only(SceneTreeNode={"data": W}, Actor={}, VisualGeometry={}, CollisionGeometry={}), prep=skel(observe_geo), label="children of a node")]
    T_["C16"] = [same("scene", only(SceneTreeNode={"data": W}, SceneTreeType={"1": NONE, "*": W}, Actor={"properties": W}), prep=skel(observe_geo), label="node properties")]
    T_["C17"] = [same("scene", only(SceneTreeNode={"data": W}, SceneTreeType={"1": NONE, "*": W}, Actor={"properties": NONE, "*": W}), prep=skel(observe_geo), label="class of a node")]
    T_["C18"] = [same("scene", only(SceneTreeNode={"data": W}, Actor={}, CollisionGeometry={}, MeshSurface={"texture": W, "vertices": W}), label="surfaces of a mesh")]
    T_["C19"] = [deterministic(v) for v in ("run", "diff", "wad", "palette", "fgd", "rgb")]
    T_["C20"] = [same("scene", only(SceneTreeNode={"*": W}, Actor={}, VisualGeometry={}, CollisionGeometry={}), prep=skel(observe_defs), label="positions of nodes"),
                 same("geo", only(entity__Geometry={"*": W}, brush__Geometry={"center": W}), label="centres of entities and brushes"),
                 same("facegeo", only(brush_plane__Geometry={"center": W}), prep=unsort, label="centre of a face")]
    T_["C21"] = [same("scene", only(SceneTreeNode={"data": W}, Actor={"name": W}, VisualGeometry={}, CollisionGeometry={}), prep=skel(observe_defs), label="nesting of groups")]
    T_["C22"] = [nopanic("wad", _geo("wad", ""), exempt=mip_precondition), nopanic("palette", _geo("wad", "")), nopanic("rgb", _geo("wad", ""))]
    T_["C23"] = [same("wad", only(TextureIndexed={}), label="failure of reading textures"),
                 same("palette", only(Palette={}), label="failure of reading a palette"),
                 same("glue", only(), label="failure of reading a map"), same("diff", only(), label="failure of diffing")]
    T_["C24"] = [same("wad", only(TextureIndexed={"mip_texture": W}), label="texture headers"),
                 same("palette", only(), label="palette entries")]
    T_["C25"] = [same("wad", only(TextureIndexed={"mip_data": W}), label="pixel blocks")]
    T_["C26"] = [same("wad", only(TextureIndexed={"*": W}, MipTexture={"name": W}), label="parts of a texture"), no_shared_state("wad")]
    T_["C27"] = [same(v, only(), label="conversion to RGB (%s)" % v) for v in ("rgb", "rgb_tex", "rgb_data", "rgb_into")]
    T_["C28"] = [nopanic("fgd", _geo("game_data", "types", "")), nopanic("save", _geo("game_data", "types", ""))]
    T_["C29"] = [same("fgd", only(), label="FGD text")]
    T_["C30"] = [enum_codes()]
    T_["C31"] = [same("save", only(), label="what saving does")] + [writes(v) for v in ("run", "diff", "wad", "palette", "fgd", "save")]
    T_["C32"] = [nopanic("diff", lambda prog, o: True)]
    T_["C33"] = [same("scene", only(SceneTreeNode={"data": W}, Actor={}, VisualGeometry={}), label="collision shapes")]
    T_["C40"] = [same("facegeo", only(brush_plane__Geometry={"vertices": W}, Vertex={"vertex": W}), label="order of the vertices of a face")]
    T_["C41"] = [same("facegeo", only(brush_plane__Geometry={"vertices": W}, Vertex={"uv": W}), prep=unsort, label="texture coordinates of vertices")]
    T_["C42"] = [same("facegeo", only(brush_plane__Geometry={"vertices": W}, Vertex={"tangent": W}), prep=unsort, label="tangents of vertices")]
    return T_


PROOF = ("C01", "C10", "C14", "C19", "C22", "C28", "C30", "C31", "C32")
LEVELS = {p: "proof" if p in PROOF else "translation_validation" for p in table()}
ASSUMPTIONS = [
    "the models of std, glam, nom and rayon functions in analysis/models.py describe them correctly",
    "arithmetic on usize counters bounded by the length of something in memory does not overflow",
    "rustc's MIR of the library (nightly, built with overflow checks and debug assertions) is what its source means",
]


def coverage(pid, res):
    cs = res["cover"]
    agr = [c for c in cs if c["rule"].startswith("agreement")]
    cov = {"rules": cs, "undecided": sorted(set(res["undecided"]))}
    if LEVELS[pid] == "proof":
        ob = sum(c.get("obligations", 0) + c.get("recursive_calls", 0) + c.get("comparisons", 0) + c.get("file_operations", 0) + c.get("nodes", 0) * (c["rule"] == "no unstable source in results") for c in cs)
        cov["obligations"] = ob
        cov["discharged"] = ob - len(res["findings"])
        cov["checker_cmd"] = "/verif/check %s" % pid
        cov["trusted_base"] = ["/verif/analysis/interp.py, models.py, prove.py, terms.py", "/verif/driver", "rustc nightly"]
    else:
        cov["programs"] = len(agr) or 1
        cov["disagreements_checked"] = sum(c.get("comparisons", 0) + c.get("nodes", 0) for c in agr)
        cov["samples"] = [{k: c[k] for k in ("what", "nodes", "reference_nodes")} for c in agr][:8]
    return cov
