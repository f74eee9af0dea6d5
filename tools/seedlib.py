"""Helpers to write and try planted bugs (seeded/<id>/)."""
import json, os, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import specs
DEMO = '''#!/bin/bash
# Run in the repository's root: exit 0 when the property holds, 1 otherwise.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
FLAGS="-std=c++20 -O1 -g -w %(flags)s -I$D/inc -I$R/src -I$R/src/parsec -I$R/3rdparty -I$R/3rdparty/bech32 -I$R/3rdparty/crypto"
SRCS="$D/demo.cpp %(srcs)s"
i=0
for s in $SRCS; do i=$((i+1)); echo "$i $s"; done |
  xargs -P 8 -L 1 bash -c "g++ $FLAGS -c \\$1 -o $T/\\$0.o" || { echo "demo does not build"; exit 2; }
g++ $FLAGS "$T"/*.o -o "$T/demo" %(libs)s -lpthread || { echo "demo does not link"; exit 2; }
mkdir "$T/w"; cd "$T/w"
timeout 200 "$T/demo"
'''


def expand(globs):
    inc, exc = [], set()
    for g in globs:
        if g.startswith("!"):
            exc |= set(glob.glob("/repo/" + g[1:]))
        else:
            inc += sorted(glob.glob("/repo/" + g))
    out = []
    for f in inc:
        if f not in exc and f not in out:
            out.append(f)
    return out


def mk(id, prop, edits, srcs, demo, needs, breaks, libs="", flags="",
       shim=(), files=None):
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for s in shim:
        os.makedirs(d + "/inc", exist_ok=True)
        src = V + "/shim/" + s
        if os.path.isdir(src):
            shutil.copytree(src, d + "/inc/" + os.path.basename(s))
        else:
            shutil.copy(src, d + "/inc/")
    T = "/tmp/seedtree"
    shutil.rmtree(T, ignore_errors=True)
    os.makedirs(T)
    subprocess.check_call("git -C /repo archive HEAD src | tar -x -C " + T, shell=True)
    subprocess.check_call(["git", "init", "-q"], cwd=T)
    subprocess.check_call("git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=T)
    for f, old, new in edits:
        p = T + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=T, text=True)
    shutil.rmtree(T)
    open(d + "/patch.diff", "w").write(diff)
    rel = ["$R/" + os.path.relpath(f, "/repo") for f in expand(srcs)]
    open(d + "/demo.sh", "w").write(DEMO % dict(srcs=" ".join(rel), libs=libs, flags=flags))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo)
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + "/meta.json", "w"), indent=1)
