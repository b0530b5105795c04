#!/usr/bin/env python3
"""development tool: mutate.py FILE (relative to the repository) PROP[,PROP...] [--max N] [--seed S] [--lines a-b]

Applies small syntactic changes to one header, one at a time, in scratch clones, and runs the quick checks of the given properties on each.
Prints the changes no check reports (equivalent changes among them), and a summary line."""
import argparse, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("props"); ap.add_argument("--max", type=int, default=80); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--lines"); ap.add_argument("--jobs", type=int, default=6); ap.add_argument("--limit", type=int, default=12)
a = ap.parse_args()
W = "/tmp/w/mu"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open("/repo/" + a.file).read().split("\n")
lo, hi = (1, len(src))
if a.lines:
    lo, hi = map(int, a.lines.split("-"))
SUB = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
       (r" \* ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"--", "++"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"),
       (r"\bi0\b", "i1"), (r"\bi1\b", "i0"), (r"\bn0\b", "n1"), (r"\bn1\b", "n0"), (r"\bn0\b", "r0"), (r"\bsize_\b", "capacity_"), (r"\bcapacity_\b", "size_"), (r"\bsize\(0\)", "size(1)"), (r"\bsize\(1\)", "size(0)"),
       (r"\bstride\(1\)", "size(0)"), (r"\bsize\(\)", "capacity()"), (r"\bcapacity\(\)", "size()"), (r"\bstd::move\((\w+(\[\w+\])?)\)", r"\1"), (r"\bmemcpy\b", "memmove"), (r"\bsizeof\(T\)", "1"), (r"\bold_(\w+)", r"\1"), (r"\bn\b", "(n - 1)"), (r"\bi\b", "(i + 1)"), (r"%", "+"), (r"<<", ">>"), (r">>", "<<"), (r" & ", " | "), (r" \| ", " & "), (r"!(?=\w)", "")]
cand = []
incom = False
for k in range(lo - 1, hi):
    l = src[k]
    t = l.strip()
    if not t or t.startswith(("//", "#", "*", "/*", "template", "namespace", "class ", "struct ", "using", "static_assert")) or "\"" in t:
        continue
    code = l.split("//")[0]
    for pat, rep in SUB:
        for m in re.finditer(pat, code):
            n = code[:m.start()] + m.expand(rep) + code[m.end():]
            if n != code:
                cand.append((k, n))
    if t.endswith(";") and re.match(r"^\s{2,}", l) and not re.match(r"^(return|const|il::int_t|int|bool|T\b|auto|char|typename|friend|static|inline|explicit|std::size_t|union|double)", t) and "(" in t or re.match(r"^\s+\w+_?(\[\w+\])? [-+*|]?= .*;$", l):
        cand.append((k, re.match(r"\s*", l).group(0) + ";"))
    if re.match(r"^(if|else if|\} else if) \(", t) and t.endswith("{"):
        cand.append((k, re.sub(r"if \(.*\) \{", "if (false) {", l)))
        cand.append((k, re.sub(r"if \(.*\) \{", "if (true) {", l)))
cand = sorted(set(cand))
random.Random(a.seed).shuffle(cand)
cand = cand[:a.max]
import queue
pool = queue.Queue()
for j in range(a.jobs):
    d = "%s/%s_%d" % (W, os.path.basename(a.file), j)
    if not os.path.exists(d):
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    pool.put(d)


def run(c):
    d = pool.get()
    try:
        k, n = c
        m = list(src)
        m[k] = n
        f = d + "/repo/" + a.file
        open(f, "w").write("\n".join(m))
        env = dict(os.environ, ILV_REPO=d + "/repo", VERIF_TIER="quick", ILV_CASE_LIMIT=str(a.limit))
        res, und = None, 0
        for p in a.props.split(","):
            try:
                r = subprocess.run([sys.executable, d + "/verif/engine/run.py", p], capture_output=True, text=True, env=env, timeout=600)
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1:
                res = p
                break
            if r.returncode == 2:
                res = "nocompile"
                break
            q = re.search(r"(\d+) undecided", r.stdout)
            und += int(q.group(1)) if q else 99
        open(f, "w").write("\n".join(src))
        return c, res, und
    finally:
        pool.put(d)


ok = bad = nc = 0
with ThreadPoolExecutor(a.jobs) as ex:
    for (k, n), res, und in ex.map(run, cand):
        if res == "nocompile":
            nc += 1
        elif res:
            ok += 1
        else:
            bad += 1
            print("%s:%d [und %d]\n   - %s\n   + %s" % (a.file, k + 1, und, src[k].strip(), n.strip()), flush=True)
print("SUMMARY %s: %d of %d changes reported, %d do not compile" % (a.file, ok, ok + bad, nc))
