#!/usr/bin/env python3
"""run.py <ID> [quick|thorough] [--replay FILE] [--only SUB] [--scale X]

Builds the property's harnesses (checks/<ID>_*.cpp) against the library
headers in $REPO (default /repo) and runs them.  Exit 0: held on everything
explored.  Exit 1: a line `VIOLATION property=<ID> replay=<path>` per failure.
Exit 2: the check itself could not be built or run.
"""
import glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
CXX = os.environ.get("CXX", "clang++")
FLAGS = ["-std=c++23", "-O1", "-g0", "-fno-omit-frame-pointer", "-pthread",
         "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
         "-w", "-fconstexpr-steps=100000000", "-ferror-limit=8",
         "-I" + V + "/lib", "-I" + REPO + "/include"]
BUILD = os.environ.get("PBT_BUILD", os.path.join(V, "build"))
SCRATCH = "PBT_BUILD" in os.environ  # mutation runs: leave replay/ and evidence/ alone


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sanitizer(src):
    m = re.search(rb"^// pbt-sanitize:(.*)$", read(src), re.M)
    return m.group(1).decode().strip() if m else "address,undefined"


SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


def constexpr_seed(text):
    return b"\n// pbt-constexpr" in text


def compile_one(src, lib_hash, part=None, san="address,undefined", extra=()):
    text = read(src)
    flags = [f.replace("address,undefined", san) for f in FLAGS]
    cxx = CXX
    for m in re.finditer(rb"^// pbt-flags:(.*)$", text, re.M):
        flags += m.group(1).decode().split()
    flags += extra
    drop = []
    for m in re.finditer(rb"^// pbt-drop:(.*)$", text, re.M):
        drop += m.group(1).decode().split()
    flags = [f for f in flags if f not in drop]
    if part is not None:
        flags.append("-DPBT_PART=%d" % part)
    if constexpr_seed(text):  # the compiler is the evaluator: seed and case count go into the source
        flags += ["-DPBT_SEED=%d" % SEED, "-DPBT_CT_SCALE=%d" % (20 if TIER == "thorough" else 2)]
    uses_repo = not src.endswith("/pbt.cpp")
    key = sha(text, cxx, " ".join(flags), lib_hash if uses_repo else "",
              read(V + "/lib/pbt.h"), *[read(p) for p in sorted(glob.glob(V + "/lib/*.hpp"))])
    obj = os.path.join(BUILD, os.path.basename(src) + "." + key[:24] + ".o")
    if os.path.exists(obj):
        return obj, ""
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([cxx, *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout
    for old in glob.glob(os.path.join(BUILD, os.path.basename(src) + ".*.o")):
        try:
            if os.path.getmtime(old) < time.time() - 7200:
                os.unlink(old)
        except OSError:
            pass
    os.replace(tmp, obj)
    return obj, ""


def listed_findings():
    known = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def main():
    a = sys.argv[1:]
    pid = a[0]
    global TIER
    if len(a) > 1 and a[1] in ("quick", "thorough"):
        TIER = a[1]
    tier = TIER
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    seed = SEED
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    rdir = os.path.join(BUILD if SCRATCH else V, "replay")
    edir = os.path.join(BUILD if SCRATCH else V, "evidence")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(edir, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(V, "checks", pid + "_*.cpp")))
    if not srcs:
        print("no harness for", pid)
        return 2
    scale = "1"
    for src in srcs:
        for m in re.finditer(rb"^// pbt-scale:(.*)$", read(src), re.M):
            scale = m.group(1).decode().strip()
    lib_hash = tree_hash(REPO + "/include")
    jobs = int(os.environ.get("PBT_JOBS", str(min(8, os.cpu_count() or 4))))
    # sources with the same "// pbt-sanitize:" line make one program
    groups = {}
    for src in srcs:
        groups.setdefault(sanitizer(src), []).append(src)
    units = []
    for san, members in groups.items():
        units.append((V + "/lib/pbt.cpp", None, san))
        for src in members:  # "// pbt-parts: n": compiled n times, with PBT_PART=0..n-1
            m = re.search(rb"^// pbt-parts:\s*(\d+)", read(src), re.M)
            units += [(src, i, san) for i in range(int(m.group(1)))] if m else [(src, None, san)]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda u: compile_one(u[0], lib_hash, u[1], u[2]), units))
    errors = [(u[0], e) for u, (o, e) in zip(units, res) if o is None]
    for f in glob.glob(os.path.join(rdir, pid + "-*.replay")):
        if "--replay" not in a:
            os.unlink(f)
    bad = 0
    for n, (u, e) in enumerate([(u, e) for u, (o, e) in zip(units, res) if o is None]):
        # a generated case that the compiler cannot evaluate, while the same code compiles for run time
        if constexpr_seed(read(u[0])) and re.search(r"error: .*(constant expression|constexpr|consteval)", e) \
                and not compile_one(u[0], lib_hash, u[1], u[2], ["-DPBT_NO_CT"])[1]:
            path = os.path.join(rdir, "%s-constexpr-%s.replay" % (pid, u[1]))
            with open(path, "w") as f:
                f.write("rebuild with: VERIF_SEED=%d python3 run.py %s %s\n%s" % (seed, pid, tier, e))
            print("a generated case cannot be evaluated at compile time:\n" + "\n".join(e.splitlines()[:30]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            bad += 1
            errors[n] = None
    errors = [x for x in errors if x]
    for s, e in errors:
        print("ERROR: %s does not compile:\n%s" % (s, "\n".join(e.splitlines()[:40])))
    exes = []
    for san in groups:
        objs = [o for u, (o, e) in zip(units, res) if u[2] == san and o]
        if len(objs) < 2 or "/pbt.cpp." not in objs[0]:
            continue
        exe = os.path.join(BUILD, pid + "." + sha(*objs)[:16])
        exes.append(exe)
        if os.path.exists(exe):
            continue
        for old in glob.glob(os.path.join(BUILD, pid + ".*")):
            if re.search(r"\.[0-9a-f]{16}$", old) and os.path.getmtime(old) < time.time() - 3600:
                os.unlink(old)
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run([CXX, "-fsanitize=" + san, "-pthread", *objs, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("ERROR: link failed\n" + p.stdout[:4000])
            return 2
        os.replace(tmp, exe)
    if not exes:
        return 1 if bad else 2
    t_build = time.time() - t0
    if "--replay" in a:
        return max(subprocess.run([exe, "--replay", opt("--replay", "")]).returncode % 3 for exe in exes)
    r = {"props": [], "violations": [], "known": [], "unreproducible": []}
    for exe in exes:
        out = os.path.join(BUILD, "%s.%d.json" % (pid, os.getpid()))
        cmd = [exe, "--out", out, "--seed", str(seed), "--jobs", str(jobs), "--id", pid,
               "--replay-dir", rdir,
               "--scale", opt("--scale", scale),
               "--deadline", "500" if tier == "quick" else os.environ.get("PBT_DEADLINE", "3000")]
        if tier == "thorough":
            cmd.append("--thorough")
        if "--only" in a:
            cmd += ["--only", opt("--only", "")]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        sys.stderr.write(p.stderr)
        if not os.path.exists(out):
            print("ERROR: runner ended with", p.returncode, p.stderr[-2000:])
            return 2
        one = json.load(open(out))
        os.unlink(out)
        for k in r:
            r[k] += one[k]
    listed = listed_findings()
    for v in r["violations"]:
        print("%s: %s" % (v["sub"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        bad += 1
    for k in r["known"]:
        if not k["reproduces"]:
            continue
        if (pid, k["key"]) in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["key"], k["what"]))
        else:
            print("%s: %s" % (k["key"], k["what"]))
            print("VIOLATION property=%s replay=%s" % (pid, k["replay"]))
            bad += 1
    for u in r["unreproducible"]:
        print("NOTE: failure that did not reproduce on replay (not reported): " + u[:600])
    props = r["props"]
    samples = [x for q in props for x in q["samples"][:1]][:40]
    rule = ("each case is a choice sequence drawn by the seeded generator of the named sub-property; "
            "a case counts as non-trivial when its harness classified it so (s.nontrivial(): the generated "
            "input reached the behaviour the sub-property is about, see the comment above each PROP), and as "
            "distinct when its choice sequence differs from all others of that sub-property in this run")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(q["evaluations"] for q in props),
            "distinct_nontrivial": sum(q["distinct"] for q in props),
            "rule": rule, "samples": samples or ["(no sample)"],
            "sub_properties": {q["name"]: {k: q[k] for k in ("evaluations", "nontrivial", "distinct", "discarded", "exhaustive", "truncated", "labels")} for q in props},
            "known_findings_reproduced": [k["key"] for k in r["known"] if k["reproduces"]],
            "unreproducible": r["unreproducible"],
        },
        "assumptions": ["clang 18 with AddressSanitizer and UndefinedBehaviorSanitizer, libstdc++ 13, C++23, x86-64 Linux",
                        "the reference model in the harness states the property correctly"],
        "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2), "violations": bad,
    }
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d sub-properties, build %.1f s, total %.1f s%s" % (
        pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(props),
        t_build, time.time() - t0, " (time limit cut some short)" if any(q["truncated"] for q in props) else ""))
    if bad:
        return 1
    return 2 if errors or not props else 0


if __name__ == "__main__":
    sys.exit(main())
