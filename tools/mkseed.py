#!/usr/bin/env python3
"""mkseed.py spec.py: write /verif/seeded/<id> from a spec with ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], SOURCES, DEMO, FLAGS; then try it out in /repo and undo it."""
import json, os, subprocess, sys
ns = {}; exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]; os.makedirs(d, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "repo not clean"
try:
    for f, a, b in ns["EDITS"]:
        p = "/repo/" + f; s = open(p).read(); assert s.count(a) == 1, (f, s.count(a)); open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(ns["DEMO"].lstrip())
    srcs = " ".join(ns.get("SOURCES", []))
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0 when the property holds, nonzero when the planted change is present
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 {ns.get("FLAGS", "")} -pthread -I. -o "$tmp/demo" "$here/demo.cpp" {srcs} || exit 3
cd "$tmp" && timeout {ns.get("TIMEOUT", 60)} ./demo
"""); os.chmod(d + "/demo.sh", 0o755)
    if "--fast" not in sys.argv:
        r = sh("bash /tmp/tr.sh"); print("tests:", r.stdout.strip()[-300:])
    print("demo with patch:", sh(f"cd /repo && bash {d}/demo.sh").returncode)
    r = sh(f"cd /verif && timeout 900 ./check {ns['PROPERTY']}"); print("check:", r.returncode, "\n".join(r.stdout.splitlines()[-6:]))
finally:
    sh("git -C /repo checkout -- .")
r = sh(f"cd /repo && bash {d}/demo.sh"); print("demo clean:", r.returncode, (r.stdout + r.stderr)[-300:])
