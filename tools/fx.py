"""Commit small repairs to the code under test and record them (see fixc)."""
import os, re, subprocess, sys
R = os.environ.get("REPO", os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "repo"))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fix(path, edits, msg):
    p = os.path.join(R, path if path.startswith("include/") else "include/daw/" + path)
    s = open(p).read()
    for e in edits:
        old, new, count = e[0], e[1], (e[2] if len(e) > 2 else 1)
        n = s.count(old)
        if n == count:
            s = s.replace(old, new)
            continue
        # blank and comment lines, and leading indentation, do not matter
        lines = [l.strip() for l in old.strip("\n").split("\n") if l.strip()]
        rx = re.compile(r"[ \t]*" + r"[ \t]*\n(?:[ \t]*(?://[^\n]*)?\n)*[ \t]*".join(re.escape(l) for l in lines))
        m = rx.findall(s)
        if len(m) != count:
            raise SystemExit("%s: found %d/%d occurrences of\n%s" % (msg, n, len(m), old))
        s = rx.sub(lambda _: new.strip("\n"), s)
    open(p, "w").write(s)


def commitp(prop, msg):
    subprocess.check_call(["git", "-C", R, "commit", "-qam", "fix: " + msg])
    h = subprocess.check_output(["git", "-C", R, "log", "-1", "--format=%h"], text=True).strip()
    print(h, msg)
    open(V + "/known_findings.txt", "a").write("fixed: property=%s %s %s\n" % (prop, h, msg))


def fixc(prop, path, edits, msg):
    """edits: list of (old, new[, count]); one commit"""
    fix(path, edits, msg)
    commitp(prop, msg)
