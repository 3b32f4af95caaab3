#!/usr/bin/env python3
"""Write the reviewed value forms of every view into /verif/ref.  Run by hand, on a reviewed tree; no check runs it."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
sys.setrecursionlimit(200000)
import subprocess, tempfile


def one(name, dumpf):
    import canon, views
    P = views.Prog(dumpf)
    r = views.VIEWS[name](P, name)
    assert not r.coarse and not r.missing, name
    os.makedirs(os.path.join(V, "ref"), exist_ok=True)
    canon.save(r.terms, os.path.join(V, "ref", name + ".gz"))
    print(name, os.path.getsize(os.path.join(V, "ref", name + ".gz")))


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "-d":
        raise SystemExit
    import dump
    f = os.path.join(tempfile.mkdtemp(), "d.json")
    if len(sys.argv) > 2:
        one(sys.argv[1], sys.argv[2])
    else:
        import views
        dump.dump(f)
        for n in views.VIEWS:
            if n != "run":
                subprocess.run([sys.executable, __file__, n, f], check=True)
        os.unlink(f)
