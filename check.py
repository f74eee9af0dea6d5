#!/usr/bin/env python3
"""check.py <property-id> [--replay FILE | --only NAME]   (tier: VERIF_TIER)
Builds the property's harness from /repo's current working tree and runs it.
check.py --build ID...   builds only.
"""
import fcntl, glob, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, os.path.join(HERE, "harness"))
import specs  # noqa: E402

INC = ["-I" + HERE, "-I" + HERE + "/shim/secp", "-I" + HERE + "/shim",
       "-I" + REPO + "/src", "-I" + REPO + "/src/parsec",
       "-I" + REPO + "/3rdparty", "-I" + REPO + "/3rdparty/bech32", "-I" + REPO + "/3rdparty/crypto",
       "-isystem", "/usr/include/jsoncpp", "-isystem", "/usr/include/lua5.4"]
BASE = ["-std=c++20", "-fno-rtti", "-fno-exceptions", "-D_NO_EXCEPTION",
        "-g1", "-w", "-pthread", "-fno-omit-frame-pointer",
        "-U_FORTIFY_SOURCE"]
VARIANT = {
    # sequential harnesses: memory errors are violations
    "asan": dict(repo=["-O1", "-fsanitize=address", "--param",
                       "asan-use-after-return=0"],
                 own=["-O1", "-fsanitize=address", "--param",
                      "asan-use-after-return=0"],
                 link=["-fsanitize=address"], lib=["mc/mc.cpp"]),
    "plain": dict(repo=["-O1", "-D_GLIBCXX_ASSERTIONS"],
                  own=["-O1", "-D_GLIBCXX_ASSERTIONS"], link=[], lib=["mc/mc.cpp"]),
    # concurrent harnesses: repository code is instrumented at every memory
    # access and atomic; our own runtime implements the callbacks
    "sched": dict(repo=["-O1", "-fsanitize=thread"],
                  own=["-O1", "-fsanitize=thread"],
                  link=["-rdynamic"], post="&& objcopy " + " ".join(
                      "--redefine-sym %s=verif_%s" % (f, f) for f in
                      ("memcpy", "memmove", "memset", "memcmp")) + " $out",
                  lib=["mc/mc.cpp", "mc/sched.cpp", "mc/simnet.cpp"]),
}
# files of ours that must never be instrumented
UNINSTRUMENTED = {"mc/mc.cpp", "mc/bigmem.cpp", "mc/bigsched.cpp", "mc/sched.cpp", "mc/simnet.cpp", "mc/memdb.cpp"}


def sources(globs):
    out = []
    for g in globs:
        neg = g.startswith("!")
        pat = os.path.join(REPO, g[1:] if neg else g)
        m = sorted(glob.glob(pat))
        if neg:
            out = [o for o in out if o not in m]
        else:
            if not m:
                print("note: no source matches %s" % g, file=sys.stderr)
            out += [f for f in m if f not in out]
    return out


def ninja_for(name, h):
    v = VARIANT[h.get("variant", "asan")]
    od = os.path.join(BUILD, h.get("variant", "asan"))
    extra = h.get("flags", [])
    tag = h.get("tag", "")
    L = ["ninja_required_version = 1.5",
         "builddir = %s/log-%s" % (BUILD, name),
         "rule cxx", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ $flags -o $out $in $libs"]
    objs = []

    def obj(src, flags, o, post=""):
        L.append("build %s: cxx %s" % (o, src))
        if post:
            L.append("  post = " + post)
        L.append("  flags = " + " ".join(flags))
        objs.append(o)
    for s in sources(h.get("repo", [])):
        rel = os.path.relpath(s, REPO).replace("/", "_")
        pre = h.get("client_pre", []) if os.path.relpath(s, REPO).startswith("src/uhs/") else []
        obj(s, BASE + v["repo"] + h.get("repoflags", []) + pre + INC, "%s%s/repo/%s.o" % (od, tag, rel), v.get("post", ""))
    for s in h.get("plainrepo", []):
        rel = s.replace("/", "_")
        obj(os.path.join(REPO, s), BASE + ["-O2"] + INC,
            "%s%s/crypto/%s.o" % (od, tag, rel))
    for s in h["src"] + v["lib"] + h.get("lib", []):
        fl = BASE + (["-O2"] if s in UNINSTRUMENTED else v["own"] + extra) + INC
        obj(os.path.join(HERE, s), fl,
            "%s%s/%s/%s.o" % (od, tag, "lib" if s in UNINSTRUMENTED
                                else "own-" + name, s.replace("/", "_")),
            "" if s in UNINSTRUMENTED else v.get("post", ""))
    exe = "%s/bin/%s" % (BUILD, name)
    L.append("build %s: link %s" % (exe, " ".join(objs)))
    L.append("  flags = -g1 -pthread " + " ".join(v["link"] + h.get("link", [])))
    L.append("  libs = " + " ".join(h.get("libs", [])))
    L.append("default " + exe)
    return "\n".join(L) + "\n", exe


def build(name, h):
    os.makedirs(BUILD + "/bin", exist_ok=True)
    txt, exe = ninja_for(name, h)
    nf = "%s/%s.ninja" % (BUILD, name)
    if not os.path.exists(nf) or open(nf).read() != txt:
        with open(nf, "w") as f:
            f.write(txt)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["ninja", "-f", nf], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            out = [l for l in p.stdout.splitlines()
                   if not l.startswith(("g++ ", "["))]
            print("\n".join(out)[:6000])
            print("build of %s failed" % name)
            sys.exit(2)
    return exe


def merge(pid, parts, t0):
    """Evidence of a property decided by several harness binaries."""
    out = None
    for p in parts:
        e = json.load(open(p))
        if out is None:
            out = e
            continue
        a, b = out["coverage"], e["coverage"]
        for k, x in b.items():
            if isinstance(x, bool):
                a[k] = a.get(k, True) and x
            elif isinstance(x, int):
                a[k] = a.get(k, 0) + x
            elif isinstance(x, list):
                a[k] = a.get(k, []) + x
            elif isinstance(x, dict):
                for kk, y in x.items():
                    a[k][kk] = a[k].get(kk, 0) + y
            elif k == "rule" and x != a[k]:
                a[k] += " | " + x
        for s in e.get("assumptions", []):
            if s not in out["assumptions"]:
                out["assumptions"].append(s)
        out["violations"] += e["violations"]
    out["wall_s"] = round(time.time() - t0, 2)
    f = "%s/evidence/%s.json" % (HERE, pid)
    with open(f + ".tmp", "w") as o:
        json.dump(out, o, indent=1)
    os.rename(f + ".tmp", f)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        ids = a[1:] or sorted(specs.CHECKS)
        for i in ids:
            for n, h in specs.CHECKS[i]:
                build(n, h)
        return 0
    pid = a[0]
    t0 = time.time()
    os.makedirs(HERE + "/evidence", exist_ok=True)
    env = dict(os.environ, VERIF_DIR=HERE)
    env.setdefault("VERIF_SEED", "1")
    env.setdefault("VERIF_TIER", "quick")
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:"
                           "allocator_may_return_null=1:"
                           "max_allocation_size_mb=2048:"
                           "detect_stack_use_after_return=0:handle_abort=1:"
                           "quarantine_size_mb=8:malloc_context_size=6")
    hs = specs.CHECKS[pid]
    quick = env["VERIF_TIER"] != "thorough"
    rc = 0
    parts = []
    for n, h in hs:
        exe = build(n, h)
    tb = time.time()
    limit = float(env.get("VERIF_BUDGET", "450" if quick else "10800"))
    for k, (n, h) in enumerate(hs):
        exe = "%s/bin/%s" % (BUILD, n)
        part = "%s/evidence/.%s.%s.part" % (HERE, pid, n)
        env["VERIF_PART"] = part
        env["VERIF_BUDGET"] = str(max(20.0, (limit - (time.time() - tb))
                                      / (len(hs) - k)))
        if os.path.exists(part):
            os.unlink(part)
        # 64-bit ASLR off is not needed: harnesses must not depend on addresses
        p = subprocess.run([exe] + a[1:], env=env)
        if os.path.exists(part):
            parts.append(part)
        if p.returncode == 1:
            rc = 1
            break
        if "--replay" in a or "--only" in a:
            continue
        if p.returncode != 0:
            rc = 2 if p.returncode > 0 else 3
            break
    if parts:
        merge(pid, parts, t0)
        for p in parts:
            os.unlink(p)
    return rc


sys.exit(main())
