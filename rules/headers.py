"""U01: every public header can be included first, twice, and from several translation units.

Each header of the library is compiled on its own (included twice, so that a missing guard shows) to LLVM IR; the rule looks at the
linkage of every definition: a strong external definition (of a function or of an object) in a header collides with its own copy as soon
as a second translation unit of a program includes the header."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from harness import *

# parts that need software which is not here, and code the library does not offer as headers
SKIP = re.compile(r"(^|/)(_test|_benchmark|_code|benchmark|unit|cuda)(/|$)|Cuda|/format/|/old/")
WEAK = {"internal", "private", "linkonce", "linkonce_odr", "weak", "weak_odr", "available_externally", "common", "external", "extern_weak"}


def headers():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "il")):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".h") and not SKIP.search(p):
                out.append(p)
    return sorted(out)


def one(h):
    d = tmpdir()
    n = re.sub(r"\W", "_", h)
    cpp, ll = os.path.join(d, "hdr_%s.cpp" % n), os.path.join(d, "hdr_%s.ll" % n)
    with open(cpp, "w") as f:
        f.write('#include <%s>\n#include <%s>\n' % (h, h))
    fl = [x for x in CFLAGS if x not in ("-fstandalone-debug", "-g", "-fno-exceptions")]
    r = subprocess.run(["clang++-18"] + fl + ["-gline-tables-only", "-S", "-emit-llvm", cpp, "-o", ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        m = re.search(r"([^\n:]+):(\d+):\d+: (?:fatal )?error: ([^\n]*)", r.stdout)
        return h, ("compile", m.group(1) if m else h, int(m.group(2)) if m else 0, m.group(3) if m else r.stdout[:200]), 0, []
    txt = open(ll).read()
    os.unlink(ll)
    os.unlink(cpp)
    strong, defs = [], 0
    files = {}
    for m in re.finditer(r'^!(\d+) = .*?!DIFile\(filename: "([^"]*)", directory: "([^"]*)"', txt, re.M):
        files[m.group(1)] = os.path.normpath(os.path.join(m.group(3), m.group(2)))
    subp = {}
    for m in re.finditer(r'^!(\d+) = distinct !DISubprogram\((.*)\)$', txt, re.M):
        fm, lm = re.search(r"file: !(\d+)", m.group(2)), re.search(r"line: (\d+)", m.group(2))
        subp[m.group(1)] = (files.get(fm.group(1), "?") if fm else "?", int(lm.group(1)) if lm else 0)
    for l in txt.split("\n"):
        if l.startswith("define "):
            defs += 1
            head = l[7:l.index("@")].split()
            if not any(w in WEAK for w in head):
                nm = re.match(r'@("[^"]*"|[\w.$]+)', l[l.index("@"):]).group(1)
                g = re.search(r"!dbg !(\d+)", l)
                strong.append((nm, "function") + (subp.get(g.group(1), ("?", 0)) if g else ("?", 0)))
        elif l.startswith("@"):
            m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)', l)
            toks = m.group(2).split()
            k = next((i for i, t in enumerate(toks) if t in ("global", "constant")), None)
            if k is None or any(w in WEAK or w == "appending" for w in toks[:k]):
                continue
            defs += 1
            if not m.group(1).startswith("llvm."):
                strong.append((m.group(1), "object", h, 0))
    return h, None, defs, strong


def run(prop, tier):
    hs = headers()
    viol, und, defs, bad = [], [], 0, 0
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, hs))
    seen = set()
    names = demangle(sorted({"@" + s[0] for r in res for s in r[3]}))
    for h, err, d, strong in res:
        defs += d
        if err:
            bad += 1
            kind, f, ln, msg = err
            f = f.replace(REPO + "/", "")
            viol.append(dict(key="%s|compile" % h, kind="compile", fn="", file=f, line=ln, case=h, msg="%s does not compile when it is included first: %s" % (h, msg), witness="#include <%s>" % h, stack=[]))
        for nm, what, f, ln in strong:
            f = f.replace(REPO + "/", "")
            if not f.startswith("il/") or (nm, f) in seen:
                continue
            seen.add((nm, f))
            dn = names.get("@" + nm, nm)
            viol.append(dict(key="%s|strong|%s" % (f, dn), kind="strong", fn=dn, file=f, line=ln, case=f, msg="the header defines the %s %s with strong linkage: a program whose translation units include it twice does not link" % (what, dn), witness="two translation units with #include <%s>" % h, stack=[]))
    cov = dict(rule="every header compiles when included first and twice; every definition it emits has internal, inline or template linkage", headers=len(hs), definitions=defs,
               obligations=len(hs) + defs, discharged=len(hs) - bad + defs - len(seen), samples=[dict(header=r[0], definitions=r[2]) for r in res[:200:40]])
    return viol, cov, und


if __name__ == "__main__":
    v, c, u = run("U01", "quick")
    for x in v:
        print("VIOL", x["key"], x["msg"][:160])
    print({k: c[k] for k in ("headers", "definitions", "obligations", "discharged")})
