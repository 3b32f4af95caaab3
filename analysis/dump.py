"""Compile /repo's current library with the MIR-dumping driver."""
import os, re, subprocess, glob, hashlib, json, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QREPO", "/repo")


def setup():
    if not os.path.exists(os.path.join(V, ".build", "ok")):
        r = subprocess.run([os.path.join(V, "setup.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace"))
            raise SystemExit("setup failed")


def dump(out):
    setup()
    env = dict(os.environ)
    env["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + env.get("PATH", "")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, check=True, stdout=subprocess.PIPE).stdout.decode().strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["QDRIVER_OUT"] = out
    deps = os.path.join(V, ".build", "deps")
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
    ed = m.group(1) if m else "2015"
    m = re.search(r'^\[lib\][^\[]*?^path\s*=\s*"([^"]+)"', toml, re.M | re.S)
    src = os.path.join(REPO, m.group(1) if m else "src/lib.rs")
    cmd = [os.path.join(V, ".build", "qdriver"), "rustc", "--sysroot", sysroot, "--edition", ed, "--crate-name", "quarchitect",
           "--crate-type", "lib", src, "--emit=metadata", "-o", out + ".rmeta", "-L", "dependency=" + deps,
           "-Zmir-opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "--cap-lints", "allow",
           "-Zmir-enable-passes=-CheckAlignment,-CheckNull"]
    for n in ("glam", "nom", "rayon"):
        for f in glob.glob(os.path.join(deps, "lib%s-*.rmeta" % n)):
            cmd += ["--extern", "%s=%s" % (n, f)]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        os.unlink(out + ".rmeta")
    except OSError:
        pass
    if r.returncode or not os.path.exists(out):
        sys.stderr.write(r.stdout.decode(errors="replace"))
        raise SystemExit("the library does not compile")
    return out


if __name__ == "__main__":
    dump(sys.argv[1])
