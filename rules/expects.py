"""U02: the conditions of IL_EXPECT_*, IL_ENSURE and IL_ASSERT only observe.

These macros vanish when NDEBUG is defined, so a condition with an effect makes the two builds behave differently.  Every use in the library
is located (comments and strings removed, parentheses matched) and its condition is tokenised.  An effect is an assignment, an increment or
decrement, a new/delete expression, a call of a member function that changes its object, or a call of a C library, BLAS or LAPACK routine that has an effect.
Which member functions change their object is taken from the library's own declarations: a name all of whose declarations in the library are
non-const, non-static members without a const overload."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from harness import *

MACROS = re.compile(r"\b(IL_EXPECT_FAST_NOTHROW|IL_EXPECT_FAST|IL_EXPECT_MEDIUM|IL_EXPECT_SLOW|IL_EXPECT_ACCURATE|IL_ENSURE|IL_ASSERT|assert)\s*\(")
SKIP = re.compile(r"(^|/)(_test|_benchmark|_code|benchmark|unit)(/|$)|/format/")
TOK = re.compile(r"\s+|[A-Za-z_]\w*|\d[\w.]*|<<=|>>=|->\*?|\+\+|--|==|!=|<=|>=|&&|\|\||[-+*/%&|^]=|::|.", re.S)
EFFECT = re.compile(r"^(f(open|close|read|write|seek|puts|gets|getc|putc|printf|scanf|flush)|getc|ungetc|putc|rewind|sscanf|s?n?printf|mem(cpy|move|set)|str(cpy|cat|ncpy|ncat)|malloc|free|realloc|calloc|exit|abort|swap|move|forward|"
                    r"cblas_\w+|LAPACKE_\w+|mkl_\w+|pardiso\w*|allocateArray|deallocate|rand|srand|remove|rename|system|time|clock|push_back|pop_back|insert|clear|resize|reserve|append|assign|emplace|emplace_back)$")
PUREMOVE = {"move", "forward"}


def clean(s):
    """blank out comments, strings and preprocessor definitions, keeping positions"""
    def b(m):
        t = m.group(0)
        if t[0] in "\"'":
            return t[0] + " " * (len(t) - 2) + t[0] if "\n" not in t else t
        return re.sub(r"[^\n]", " ", t)
    s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'', b, s, flags=re.S)
    return re.sub(r"^[ \t]*#[ \t]*define\b(?:[^\n\\]|\\.|\\\n)*", b, s, flags=re.M | re.S)


def files():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "il")):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith((".h", ".cpp", ".cc")) and not SKIP.search(p):
                out.append(p)
    return sorted(out)


def mutators(texts):
    """names declared as members that are never const, static or free: they change the object they are called on"""
    const, non = set(), set()
    for t in texts.values():
        for m in re.finditer(r"(?<![\w.>:~])(~?[A-Za-z_]\w*)\s*\(((?:[^()]|\([^()]*\))*)\)\s*(const\b)?\s*(?=[;{:]|noexcept|override|=\s*0)", t):
            # only declarations: something that looks like a type stands in front of the name
            pre = t[:m.start()].rstrip()[-80:]
            w = re.search(r"([\w>&*]+)$", pre)
            if not w or w.group(1) in ("return", "else", "case", "new", "throw", "delete"):
                continue
            (const if m.group(3) else non).add(m.group(1))
    return const, non


def run(prop, tier):
    fs = files()
    texts = {}
    for f in fs:
        with open(os.path.join(REPO, f), errors="replace") as h:
            texts[f] = clean(h.read())
    const, non = mutators(texts)
    viol, sites, samples = [], 0, []
    for f, t in texts.items():
        for m in MACROS.finditer(t):
            i, depth = m.end(), 1
            while i < len(t) and depth:
                depth += {"(": 1, ")": -1}.get(t[i], 0)
                i += 1
            cond = t[m.end():i - 1]
            sites += 1
            line = t.count("\n", 0, m.start()) + 1
            toks = [x for x in TOK.findall(cond) if not x.isspace()]
            bad = None
            for k, x in enumerate(toks):
                nx = toks[k + 1] if k + 1 < len(toks) else ""
                pv = toks[k - 1] if k else ""
                if x in ("=", "++", "--", "<<=", ">>=") or re.match(r"^[-+*/%&|^]=$", x):
                    # a default capture or an initialiser in a lambda is the only other '='
                    if x == "=" and pv == "[":
                        continue
                    bad = "the operator %s changes an object" % x
                elif x in ("new", "delete"):
                    bad = "%s has an effect" % x
                elif x == "io" and pv == "::":
                    bad = "an argument after il::io is an output"
                elif nx == "(" and re.match(r"^[A-Za-z_]", x):
                    if EFFECT.match(x) and x not in PUREMOVE:
                        bad = "%s has an effect" % x
                    elif pv in (".", "->") and x in non and x not in const:
                        bad = "%s changes the object it is called on" % x
                if bad:
                    break
            if len(samples) < 3 and sites % 200 == 1:
                samples.append(dict(file=f, line=line, condition=" ".join(cond.split())[:100]))
            if bad:
                c = " ".join(cond.split())[:120]
                viol.append(dict(key="%s|effect|%s" % (f, c), kind="effect", fn=m.group(1), file=f, line=line, case=f, msg="%s(%s): %s, so a build without expectations behaves differently" % (m.group(1), c, bad), witness="compile with -DNDEBUG", stack=[]))
    cov = dict(rule="no condition of an expectation macro has an effect", files=len(fs), call_sites=sites, obligations=sites, discharged=sites - len(viol), members_that_mutate=len(non - const), samples=samples)
    und = [] if sites else [dict(case="expectations", why="no use of the macros was found")]
    return viol, cov, und


if __name__ == "__main__":
    v, c, u = run("U02", "quick")
    for x in v:
        print("VIOL", x["key"], x["msg"][:200], x["line"])
    print(c)
