#!/usr/bin/env python3
"""Planted bugs: generate /verif/seeded/<id>/ from tools/seeds/<id>.py and try them.

  seed.py gen [ID...]      write patch.diff, demo.sh, demo.cpp, meta.json
  seed.py try ID...        apply to /repo, build, run tests, demo and the property's check; undo
  seed.py check ID...      apply to /repo, run only the property's check; undo
Each tools/seeds/<id>.py defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++), optionally LIBS.
"""
import sys, os, json, subprocess, runpy, re
V = "/verif"; R = os.environ.get("VERIF_REPO", "/repo")
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: property broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/seed-demo-XXXXXX)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -DWITH_EIGEN -I/usr/include/eigen3 -Ieo/src -Ieo -Imo/src -Imoeo/src -Iedo/src -Ismp/src -Iproblems %(flags)s "$here/demo.cpp" -o "$t/demo" %(libs)s -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def load(i): return runpy.run_path(f"{V}/tools/seeds/{i}.py")
def ids(): return sorted(f[:-3] for f in os.listdir(f"{V}/tools/seeds") if f.endswith(".py"))
def clean():
    return sh(f"git -C {R} status --porcelain --untracked-files=no").stdout.strip() == ""
def gen(i):
    s = load(i); assert clean(), "repo not clean"
    for f, old, new in s["EDITS"]:
        p = f"{R}/{f}"; t = open(p, newline="").read()
        rx = r"\s*".join(re.escape(w) for w in re.findall(r"\w+|[^\w\s]", old))   # whitespace-insensitive match
        m = list(re.finditer(rx, t))
        assert len(m) == 1, (i, f, len(m), old)
        open(p, "w", newline="").write(t[:m[0].start()] + new.strip() + t[m[0].end():])
    d = subprocess.run(f"git -C {R} diff", shell=True, capture_output=True).stdout
    sh(f"git -C {R} checkout -- .")
    o = f"{V}/seeded/{i}"; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(d)
    open(o + "/demo.cpp", "w").write(s["DEMO"].lstrip())
    libs = s.get("LIBS", "_build/lib/libmoeo.a _build/lib/libes.a _build/lib/libga.a _build/lib/libcma.a _build/lib/libeoutils.a _build/lib/libeo.a _build/lib/libeoutils.a")
    open(o + "/demo.sh", "w").write(DEMO_SH % dict(libs=libs, flags=s.get("FLAGS", "")))
    os.chmod(o + "/demo.sh", 0o755)
    json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(o + "/meta.json", "w"), indent=1)
def apply(i): 
    assert clean(); r = sh(f"git -C {R} apply {V}/seeded/{i}/patch.diff"); assert r.returncode == 0, r.stderr
def undo(): sh(f"git -C {R} checkout -- .")
def demo(i):
    r = sh(f"bash {V}/seeded/{i}/demo.sh", cwd=R); return r.returncode, (r.stdout + r.stderr)[-300:]
def runcheck(prop):
    r = sh(f"./check {prop}", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VF_CCACHE="1"))
    return r.returncode, (r.stdout + r.stderr)[-700:]
def main():
    cmd, rest = sys.argv[1], sys.argv[2:] or ids()
    for i in rest:
        if cmd == "gen": gen(i); print("gen", i); continue
        prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        if cmd == "try":
            sh("bash /opt/vp/build.sh"); rc, t = demo(i)
            if rc != 0: print(i, "DEMO FAILS ON UNCHANGED TREE", t); continue
        apply(i)
        try:
            if cmd == "try":
                sh("bash /opt/vp/test.sh /tmp/seed-out.json")
                b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = set(json.load(open("/tmp/seed-out.json"))["passed"])
                rc, t = demo(i)
                print(i, "tests", "PASS" if b <= o else "FAIL " + str(sorted(b - o)[:5]), "demo", rc, t.strip().splitlines()[-1:] )
            rc, t = runcheck(prop)
            print(i, prop, {1: "CAUGHT", 0: "MISSED"}.get(rc, "ERROR"), "" if rc == 1 and cmd == "check" else t[:500])
        finally: undo()
main()
