"""mkbug(id, property, needs, breaks, [(file, old, new)], demo C source): writes seeded/<id>/ and leaves /repo as it was."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# exit 0 when the behaviour is right; run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
gcc -O1 -g -w -Iinclude -I_build/include -o "$T/demo" "$D/demo.c" -L_build/src/.libs -lcconfigspace -lgsl -lgslcblas -lm -lpthread || exit 2
cd "$T" || exit 2
LD_LIBRARY_PATH="$OLDPWD/_build/src/.libs" timeout 120 "$T/demo"
"""
def mkbug(id, prop, needs, breaks, edits, demo):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--short"]), "repo dirty"
    try:
        for f, a, b in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(a) >= 1, (id, f, a)
            assert s.count(a) == 1, (id, f, "ambiguous", s.count(a))
            open(p, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/repo", "diff"], text=True))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/demo.c", "w").write(demo)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
