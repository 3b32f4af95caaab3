"""check <property>: decides one property from /repo's current source."""
import os, sys, json, time, tempfile, traceback, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
sys.setrecursionlimit(400000)
import resource, threading

T0 = time.time()


def child(dumpf, jobs, names, out):
    import rules
    cx = rules.Ctx(dumpf, names)
    err = None
    try:
        for j in jobs:
            j(cx)
    except Exception:
        err = traceback.format_exc()
    json.dump({"findings": [[f.key, f.text, f.path] for f in cx.findings], "undecided": cx.undecided, "cover": cx.cover, "error": err},
              open(out, "w"))


def run_jobs(jobs, dumpf, limit):
    """one process per view, so that each starts from its own reference"""
    groups = {}
    for j in jobs:
        groups.setdefault(tuple(j.views), []).append(j)
    procs = []
    tmp = os.path.dirname(dumpf)
    for i, (names, js) in enumerate(groups.items()):
        out = os.path.join(tmp, "out%d" % i)
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                threading.stack_size(512 << 20)
                box = []

                def body():
                    child(dumpf, js, names, out)
                    box.append(0)
                t = threading.Thread(target=body)
                t.start()
                t.join()
                rc = box[0] if box else 3
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(rc)
        procs.append((pid, names, js, out))
    res = {"findings": [], "undecided": [], "cover": []}
    end = time.time() + limit
    for pid, names, js, out in procs:
        while True:
            p, stt = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > end:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                stt = -1
                break
            time.sleep(0.02)
        d = None
        if os.path.exists(out):
            try:
                d = json.load(open(out))
            except ValueError:
                d = None
        if d is None:
            res["undecided"].append("%s: the analysis did not finish" % "+".join(names))
            continue
        for k in ("findings", "undecided", "cover"):
            res[k] += d[k]
        if d["error"]:
            res["undecided"].append("%s: internal limit of the analysis: %s" % ("+".join(names), d["error"].strip().splitlines()[-1]))
            if os.environ.get("QDEBUG"):
                print(d["error"])
    return res


def known(pid):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                key, _, text = l[len("KNOWN-FINDING: property=%s " % pid):].partition(" :: ")
                out.append((key, text))
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    import rules, dump
    tmp = tempfile.mkdtemp(prefix="qverif")
    evd = os.environ.get("QEVIDENCE") or os.path.join(V, "evidence")
    os.makedirs(evd, exist_ok=True)
    try:
        dumpf = dump.dump(os.path.join(tmp, "d.json"))
        jobs = rules.table()[pid]
        res = run_jobs(jobs, dumpf, 780)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    kn = known(pid)
    bad, seen = [], set()
    for key, text, path in res["findings"]:
        if key in seen:
            continue
        seen.add(key)
        k = [t for kk, t in kn if kk == key]
        if k:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, key, k[0]))
        else:
            bad.append((key, text, path))
    cov = rules.coverage(pid, res)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": rules.LEVELS[pid], "coverage": cov, "wall_s": round(time.time() - T0, 2),
          "violations": len(bad), "assumptions": rules.ASSUMPTIONS}
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    for u in sorted(set(res["undecided"]))[:20]:
        print("undecided: " + u[:400])
    if bad:
        rp = os.path.join(evd, pid + ".violations.json")
        json.dump([{"key": k, "what": t, "path": p} for k, t, p in bad], open(rp, "w"), indent=1)
        for k, t, p in bad:
            print("  " + k + "\n    " + t[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s holds: %s" % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
