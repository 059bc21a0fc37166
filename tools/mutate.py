#!/usr/bin/env python3
"""mutate.py ID N SEED FILE[:from-to] ...   mutation-test the check of ID.

Applies N random one-line mutations to copies of the headers and reports the
mutants the quick check does not notice.  Scratch data lives under /tmp/mut.
"""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ROOT = "/tmp/mut.%s.%d" % (pid, os.getpid())
PAR = int(os.environ.get("MUT_PAR", "4"))
rnd = random.Random(seed)

SUBS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>(])<(?![<=])(?= )", "<="), (r"(?<= )>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="),
        (r"\band\b", "or"), (r"\bor\b", "and"), (r"&&", "||"), (r"\|\|", "&&"), (r"\bnot\b", ""), (r"!(?!=)", ""),
        (r"\+ 1U?\b", "+ 0"), (r"- 1U?\b", "- 0"), (r"\b1U?\b", "0"), (r"\b0U?\b", "1"), (r"\b1U?\b", "2"), (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="),
        (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r"<<", ">>"), (r">>", "<<"), (r" & ", " | "), (r" \| ", " & "),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bfirst\b", "last"), (r"\blast\b", "first"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"),
        (r"\bbegin\b", "end"), (r"\bend\b", "begin"), (r"\bbreak\b", "continue"), (r"\bif\( (?!constexpr)", "if( true or "), (r"\bif\( (?!constexpr)", "if( false and "), (r"std::forward<[^>]*>\( (\w+) \)", r"\1"), (r"DAW_MOVE\(", "("),
        (r"__DEL__", "")]


def candidates(path, lo, hi):
    lines = open(path).read().split("\n")
    out = []
    incomment = False
    for i, l in enumerate(lines):
        if i + 1 < lo or i + 1 > hi:
            continue
        st = l.strip()
        if st.startswith(("//", "#", "*", "/*", "template", "static_assert", "using ", "struct ", "class ", "namespace", "typename", "DAW_REQ", "}", "friend", "public", "private", "requires")) or len(st) < 4:
            continue
        code = l.split("//")[0]
        for k, (a, b) in enumerate(SUBS):
            if a == "__DEL__":
                if re.match(r"^\s*[\w:*>\-.\[\]( )+&]+(=|\(|\+\+|--|\+=|-=).*;\s*$", code) and not re.match(r"^\s*(return|auto|constexpr|using|static|[\w:<>]+ (const )?\w+( =|\{|;))", code):
                    out.append((i, re.match(r"^\s*", l).group(0) + ";", "delete"))
                continue
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code:
                    out.append((i, new, a + " -> " + b))
    return lines, out


def main():
    muts = []
    for spec in sys.argv[4:]:
        m = re.match(r"(.*?)(?::(\d+)-(\d+))?$", spec)
        rel, lo, hi = m.group(1), int(m.group(2) or 1), int(m.group(3) or 10**9)
        lines, c = candidates(os.environ.get("REPO","/repo")+"/include/daw/" + rel, lo, hi)
        muts += [(rel, x) for x in c]
    rnd.shuffle(muts)
    print("%d candidate mutations" % len(muts), flush=True)
    os.makedirs(ROOT)
    stats = {"killed": 0, "nocompile": 0, "survived": 0, "other": 0}
    todo = list(enumerate(muts))
    done = [0]

    def run(item):
        k, (rel, (i, new, what)) = item
        if done[0] >= n:
            return
        d = "%s/%d" % (ROOT, k)
        os.makedirs(d)
        try:
            shutil.copytree(os.environ.get("REPO","/repo")+"/include", d + "/include")
            p = d + "/include/daw/" + rel
            lines = open(p).read().split("\n")
            old = lines[i]
            lines[i] = new
            open(p, "w").write("\n".join(lines))
            os.makedirs(d + "/build")
            for o in os.listdir(V + "/build"):
                if o.startswith("pbt.cpp."):
                    os.link(V + "/build/" + o, d + "/build/" + o) if os.stat(V).st_dev == os.stat(d).st_dev else shutil.copy(V + "/build/" + o, d + "/build/" + o)
            env = dict(os.environ, REPO=d, PBT_BUILD=d + "/build", PBT_JOBS=str(max(2, 8 // PAR)))
            r = subprocess.run(["timeout", "600", sys.executable, V + "/run.py", pid, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if "does not compile" in r.stdout and "VIOLATION" not in r.stdout:
                stats["nocompile"] += 1
                return
            done[0] += 1
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                stats["killed"] += 1
            else:
                st = "survived" if r.returncode == 0 else "other"
                stats[st] += 1
                print("%s %s:%d  [%s]\n  - %s\n  + %s%s" % (st.upper(), rel, i + 1, what, old.strip(), new.strip(), "" if st == "survived" else "\n" + r.stdout[-300:]), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(PAR) as ex:
        list(ex.map(run, todo))
    shutil.rmtree(ROOT, ignore_errors=True)
    print(stats)


main()
