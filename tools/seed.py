"""plants bugs: seed.py SPEC.py [ids]  - SPEC defines SEEDS, a list of dicts
   id, property, edits [(file, old, new)], needs, breaks, demo (body of main.rs) or sh (body of demo.sh)
A bug is kept in /verif/seeded only when the tree without it passes its demo, and with it
builds, passes the stable tests and fails its demo."""
import json
import os
import runpy
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")     # may be a copy: /opt/vp's scripts are then run on it
def vp(name, *a):
    """build.sh or test.sh, for REPO"""
    t = open("/opt/vp/" + name).read() if REPO != "/repo" else None
    if t is None:
        return sh("bash", "/opt/vp/" + name, *a)
    e = open("/opt/vp/env.sh").read()
    t = t.replace(". /opt/vp/env.sh", e).replace("/repo", REPO).replace("log=/opt/vp/test.log", "log=$(mktemp)")
    return sh("bash", "-c", t, name, *a, cwd=REPO)


PRE = open(os.path.join(H, "demo_prelude.rs")).read()
RUST = '''#!/bin/bash
# builds main.rs against the library in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\ntiny_spice = { path = "%s" }\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cargo build -q --offline 2>"$d/build.log" || { cat "$d/build.log"; exit 3; }
timeout 120 "$d/target/debug/demo" > "$d/out" 2>&1
rc=$?
tail -5 "$d/out"
exit $rc
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def stable():
    b = vp("build.sh")
    if b.returncode:
        return "does not build:\n" + b.stderr[-1500:]
    o = tempfile.mktemp()
    vp("test.sh", o)
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(o))["passed"])
    os.remove(o)
    return "fails tests: %s" % sorted(miss) if miss else ""


def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    if sh("git", "-C", REPO, "status", "--porcelain").stdout.strip():
        sys.exit("repo not clean")
    built = False
    for s in spec:
        if want and s["id"] not in want:
            continue
        d = os.path.join(H, "..", "seeded", s["id"])
        if os.path.exists(d) and not want:
            continue
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                if t.count(old) != 1:
                    raise ValueError("%s: text found %d times in %s" % (s["id"], t.count(old), f))
                open(p, "w").write(t.replace(old, new))
            diff = sh("git", "-C", REPO, "diff").stdout
        except Exception as e:
            print(s["id"], "SKIP", e)
            continue
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        t = tempfile.mkdtemp()
        open(t + "/patch.diff", "w").write(diff)
        if "demo" in s:
            open(t + "/main.rs", "w").write(PRE + "\nfn main() {\n" + s["demo"] + "\n}\n" + s.get("extra", ""))
            open(t + "/demo.sh", "w").write(RUST)
        else:
            open(t + "/demo.sh", "w").write("#!/bin/bash\n" + s["sh"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(t + "/meta.json", "w"), indent=1)
        if not built:
            vp("build.sh")
            built = True
        r0 = sh("bash", t + "/demo.sh", cwd=REPO)
        why = ""
        r1 = None
        if r0.returncode:
            why = "demo fails without the bug: %s%s" % (r0.stdout[-600:], r0.stderr[-300:])
        else:
            a = sh("git", "-C", REPO, "apply", t + "/patch.diff")
            why = a.stderr or stable()
            if not why:
                r1 = sh("bash", t + "/demo.sh", cwd=REPO)
                if r1.returncode == 0:
                    why = "demo passes with the bug: " + r1.stdout[-400:]
                elif r1.returncode == 3:
                    why = "demo does not build"
            res = ""
            if not why:
                c = sh(os.path.join(H, "..", "run.sh"), s["property"], "quick")
                res = "caught" if c.returncode == 1 else "MISSED %s" % c.stdout[-300:]
            sh("git", "-C", REPO, "checkout", "--", ".")
            built = False
        if why:
            print(s["id"], "REJECTED", why)
            continue
        sh("rm", "-rf", os.path.abspath(d))
        os.makedirs(os.path.dirname(d), exist_ok=True)
        sh("cp", "-r", t, os.path.abspath(d))
        print(s["id"], s["property"], "kept,", res, "|", (r1.stdout.strip().splitlines() or [""])[-1][:110])
    vp("build.sh")


main()
