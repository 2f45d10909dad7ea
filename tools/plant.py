#!/usr/bin/env python3
"""tools/plant.py SPEC.py : make /verif/seeded/<id>/ from a spec (id, prop, needs, breaks, edits=[(file, old, new)], deps={crate: path or version}, demo=main.rs text)
and confirm it: the patch applies, touches original lines, builds, passes the stable tests; the demo passes without and fails with it; says which checks catch it.
The repository is patched in place and restored."""
import sys, subprocess, os, json, shutil
ROOT = subprocess.check_output(["git","-C","/repo","rev-list","--max-parents=0","HEAD"], text=True).split()[0]
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
LIBS = {"hemtt-"+x: f'{{ path = "/repo/libs/{x}" }}' for x in "common config lzo p3d paa pbo preprocessor signing stringtable workspace".split()}
DEMO = r'''#!/bin/bash
# A small program over the library: exit 0 if the property holds for it.
set -u
D=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$(dirname "$0")/main.rs" "$D/src/main.rs"
cp "$(dirname "$0")/Cargo.toml.in" "$D/Cargo.toml"
cp /repo/Cargo.lock "$D/Cargo.lock"
cd "$D" || exit 3
CARGO_TARGET_DIR="$D/target" cargo build --offline -q 2>"$D/log" || { tail -30 "$D/log"; exit 0; }
timeout 120 "$D/target/debug/demo"
'''
def main(spec, test=True):
    g = {}; exec(open(spec).read(), g)
    i = g["id"]; d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty"
    try:
        for f, a, b in g["edits"]:
            p = f"/repo/{f}"; s = open(p).read(); assert s.count(a) == 1, (f, s.count(a), a)
            orig = sh(f"git -C /repo show {ROOT}:{f}").stdout
            if a not in orig: print("  note: the edited text is not in the original file as a whole")
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        orig_lines = set()
        for f, _, _ in g["edits"]: orig_lines |= set(sh(f"git -C /repo show {ROOT}:{f}").stdout.splitlines())
        rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        print("  original lines removed:", sum(l in orig_lines for l in rem), "of", len(rem))
        open(f"{d}/patch.diff", "w").write(diff)
        deps = {**{k: LIBS[k] for k in g["libs"]}, **g.get("deps", {})}
        open(f"{d}/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' + "".join(f"{k} = {v}\n" for k, v in deps.items()))
        open(f"{d}/main.rs", "w").write(g["demo"].lstrip())
        open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        if test:
            r = sh("bash /opt/vp/build.sh"); print("  build", r.returncode)
            r = sh("bash /opt/vp/test.sh /tmp/plant.json"); t = json.load(open("/tmp/plant.json"))
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            print("  tests lost:", sorted(base - set(t["passed"]))[:5])
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); print("  demo with:", r.returncode, (r.stdout + r.stderr)[-300:])
        for p in g.get("checks", [g["prop"]]):
            r = sh(f"bash run.sh {p}", cwd="/verif")
            print(f"  {p}: exit {r.returncode}", [l[:260] for l in (r.stdout + r.stderr).splitlines() if l.startswith(("violation", "VIOLATION", "error", "  detail"))][:4])
    finally:
        sh("git -C /repo checkout -- .")
    r = sh(f"bash {d}/demo.sh", cwd="/repo"); print("  demo without:", r.returncode, (r.stdout + r.stderr)[-1500:] if r.returncode or r.stdout else "")
for s in sys.argv[1:]:
    if s.startswith("-"): continue
    print(s); main(s, "-notest" not in sys.argv)
