#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]   make and confirm planted bugs.

SPEC.py defines BUGS = [dict(id, property, file, edits=[(old,new)...] or
patches=[(file,[(old,new)...])...], needs, breaks, demo, [std], [flags])].
Each is applied to a scratch clone of /repo's HEAD, the stable tests that
include the changed headers are built and run, and the demonstration is run with
and without it.  What passes is written to /verif/seeded/<id>.  With CHECK=1 the
quick check of the property runs against it too (REPO points at the clone).
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("REPO", "/repo")
W = os.environ.get("PLANT_DIR", "/tmp/plant")
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def fresh():
    if not os.path.isdir(W):
        os.makedirs(W)
        sh("git clone -q %s %s/repo" % (SRC, W))
    r = sh("cd %s/repo && git fetch -q origin && git checkout -q -f --detach origin/HEAD && git clean -qfd -e _b && git reset -q --hard $(git -C %s rev-parse HEAD) && git rev-parse HEAD" % (W, SRC))
    assert r.stdout.split()[-1] == sh("git -C %s rev-parse HEAD" % SRC).stdout.strip(), r.stdout


def build():
    B = W + "/repo/_b"
    return sh("""cd %s/repo && cmake -S . -B _b -G Ninja -DCMAKE_C_COMPILER=/usr/bin/clang -DCMAKE_CXX_COMPILER=/usr/bin/clang++ -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=23 -DDAW_ENABLE_TESTING=ON -DDAW_ENABLE_DEPRECATED_TESTING=ON -DDAW_WERROR=ON -DFORCE_COLORED_OUTPUT=OFF >/dev/null && ninja -C _b -j 6 -k 0 daw-header-libraries_full daw_bind_args_at_test daw_bit_queues_test daw_bit_test daw_sort_n_test 2>&1 | grep FAILED""" % W).stdout


def tests():
    sh("cd %s/repo && ctest --test-dir _b -j8 --timeout 300 -E '^daw_range_test_test$' --output-junit %s/j.xml" % (W, W))
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(W + "/j.xml").getroot().iter("testcase"):
        if c.get("status") == "run" and c.find("failure") is None:
            ok.add(c.get("name"))
    for t in "daw_bind_args_at_test daw_bit_queues_test daw_bit_test daw_sort_n_test".split():
        if sh("cd %s/repo/_b/tests && timeout 300 ./%s" % (W, t)).returncode == 0:
            ok.add("dev/" + t)
    return sorted(set(BASE) - ok)


def original_lines(patch):
    """every line the patch removes is one of the original repository"""
    base = sh("git -C %s/repo rev-list --max-parents=0 HEAD" % W).stdout.split()
    cur, removed = None, []
    for l in open(patch):
        if l.startswith("--- "):
            f = l[6:].strip()
        elif l.startswith("@@"):
            cur = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            removed.append((f, cur)); cur += 1
        elif l.startswith(" "):
            cur += 1
    if not removed:
        return False
    for f, n in removed:
        c = sh("git -C %s/repo blame -s -l --root -L %d,%d HEAD -- %s" % (W, n, n, f)).stdout.split()[0]
        if c.lstrip("^") not in base and not original_commit(c):
            return False
    return True


def original_commit(c):
    m = sh("git -C %s/repo log -1 --format=%%s %s" % (W, c)).stdout
    return not m.startswith("fix:")


def demo(d):
    return sh("cd %s/repo && timeout 300 bash %s/demo.sh" % (W, d))


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = sys.argv[2:]
    fresh(); build()
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        fresh()
        d = W + "/seed/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.cpp", "w").write(b["demo"].lstrip())
        open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0 when the property holds on the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cd /repo
clang++ -std=c++%s -I include %s "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 3
cd "$tmp"
timeout 120 ./demo
""".replace("/repo", "${DEMO_REPO:-/repo}") % (b.get("std", 23), b.get("flags", "")))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        os.environ["DEMO_REPO"] = W + "/repo"
        r = demo(d)
        if r.returncode != 0:
            print("BAD %s: demo fails on the unchanged tree (%d)\n%s" % (b["id"], r.returncode, r.stdout[-1500:])); continue
        bad = False
        for f, edits in b.get("patches") or [(b["file"], b["edits"])]:
            p = W + "/repo/include/daw/" + f
            s = open(p).read()
            for e in edits:
                if s.count(e[0]) != (e[2] if len(e) > 2 else 1):
                    print("BAD %s: %d matches of %r" % (b["id"], s.count(e[0]), e[0])); bad = True
                s = s.replace(e[0], e[1])
            open(p, "w").write(s)
        if bad:
            continue
        open(d + "/patch.diff", "w").write(sh("cd %s/repo && git diff" % W).stdout)
        if not original_lines(d + "/patch.diff"):
            print("BAD %s: touches lines of our own commits" % b["id"]); continue
        r = demo(d)
        if r.returncode in (0, 3):
            print("BAD %s: demo %d with the bug\n%s" % (b["id"], r.returncode, r.stdout[-1500:])); continue
        fl = build()
        t = tests()
        if t:
            print("BAD %s: tests %s\n%s" % (b["id"], t, fl)); continue
        dst = V + "/seeded/" + b["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        os.chmod(dst + "/demo.sh", 0o755)
        c = ""
        if os.environ.get("CHECK", "1") == "1":
            e = dict(os.environ, REPO=W + "/repo", PBT_BUILD=W + "/pbt", PBT_EVIDENCE=W + "/ev", VERIF_SEED="1")
            r = subprocess.run(["python3", V + "/run.py", b["property"], "quick"], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            c = "CAUGHT " + v[0] if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode
        print("OK %s %s" % (b["id"], c), flush=True)


main()
