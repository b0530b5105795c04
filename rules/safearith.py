"""N01: the checked integer arithmetic of il/core/math/safe_arithmetic.h is exact, in the default configuration and with compiler builtins."""
import multiprocessing as mp
import time
from polypath import *

TY = {"int": 32, "long": 64, "long long": 64, "unsigned": 32, "unsigned long": 64, "unsigned long long": 64}
PRE = "#include <climits>\n#include <limits>\n#include <il/core/math/safe_arithmetic.h>\n"


def rngof(t):
    w = TY[t]
    return (0, (1 << w) - 1) if t.startswith("unsigned") else lim(w)


def cases():
    """(name, return type, [argument types], call expression, spec)"""
    out = []
    for t in TY:
        u = t.startswith("unsigned")
        k = t.replace(" ", "_")
        out.append(("sum_" + k, t, [t, t], "il::safeSum(a0, a1, il::io, *e)", "sum"))
        out.append(("product_" + k, t, [t, t], "il::safeProduct(a0, a1, il::io, *e)", "prod"))
        if not u:
            out.append(("difference_" + k, t, [t, t], "il::safeDifference(a0, a1, il::io, *e)", "dif"))
            out.append(("product3_" + k, t, [t] * 3, "il::safeProduct(a0, a1, a2, il::io, *e)", "prod"))
            out.append(("product4_" + k, t, [t] * 4, "il::safeProduct(a0, a1, a2, a3, il::io, *e)", "prod"))
            out.append(("division_" + k, t, [t, t], "il::safeDivision(a0, a1, il::io, *e)", "div"))
            out.append(("upper_round_" + k, t, [t, t], "il::safeUpperRound(a0, a1, il::io, *e)", "round"))
            out.append(("convert_%s_to_unsigned" % k, {"int": "unsigned"}.get(t, "unsigned " + t), [t], "il::safeConvert<%s>(a0, il::io, *e)" % {"int": "unsigned"}.get(t, "unsigned " + t), "conv"))
        else:
            s = {"unsigned": "int"}.get(t, t[9:])
            out.append(("convert_%s_to_signed" % k, s, [t], "il::safeConvert<%s>(a0, il::io, *e)" % s, "conv"))
    out.append(("twice_long", "long", ["long"], "il::safeProduct2Positive(a0, il::io, *e)", "twice"))
    return out


def driver(cs):
    s = PRE
    for n, rt, at, ex, _ in cs:
        s += 'extern "C" %s d_%s(%s, bool* e) { return %s; }\n' % (rt, n, ", ".join("%s a%d" % (t, i) for i, t in enumerate(at)), ex)
    return s


def check(mod, case):
    n, rt, at, ex, spec = case
    names = ["a%d" % i for i in range(len(at))]
    X = Exec(mod, {m: rngof(t) for m, t in zip(names, at)})
    st0 = PState()
    a = [pv(m) for m in names]
    for m, t in zip(names, at):
        lo, hi = rngof(t)
        st0.cons += [padd(pv(m), pc(-lo)), padd(pc(hi), pv(m), -1)]
    if spec == "round":
        st0.assume(a[0])
        st0.assume(padd(a[1], pc(-1)))
    if spec == "twice":
        st0.assume(a[0])
    st0.mem[("e", 0)] = "init"
    # machine readings of the arguments
    starts = [(st0, [])]
    for m, t in zip(names, at):
        starts = [(y, vs + [v]) for x, vs in starts for y, v in X.sgn(x, pv(m), TY[t])]
    X.aborts = []
    rlo, rhi = rngof(rt)
    w = TY[rt]
    for st, vs in starts:
        for x, r in X.call(st, "@d_" + n, vs + [("p", "e", 0)]):
            X.paths += 1
            X.where = ("il/core/math/safe_arithmetic.h", n)
            e = x.mem.get(("e", 0))
            if e == "init":
                X.refuted(x, [[]], "flag", "the error flag is not set")
                continue
            e = pconst(e) if isinstance(e, dict) else e
            if e is None:
                X.und.append("the error flag is not a constant on a path")
                continue
            finals = X.uns(x, r, w) if rt.startswith("unsigned") else [(x, r)]
            for y, v in finals:
                post(X, y, v, e, a, spec, rlo, rhi)
    for st, wh in X.aborts:
        X.where = wh
        X.refuted(st, [[]], "abort", "aborts for arguments in its domain")
    return X


def inr(p, lo, hi):
    return [padd(p, pc(-lo)), padd(pc(hi), p, -1)]


def out_of(p, lo, hi):
    return [[padd(p, pc(-hi - 1))], [padd(pc(lo - 1), p, -1)]]


def post(X, st, v, e, a, spec, lo, hi):
    if spec == "div":
        b0 = [a[1], pneg(a[1])]
        bm = [padd(a[1], pc(1)), padd(pc(-1), a[1], -1), padd(pc(lo), a[0], -1)]
        if e:
            # an error although the quotient exists: b != 0 and not (min / -1)
            X.refuted(st, [[padd(a[1], pc(-1))], [padd(pc(-2), a[1], -1)], [padd(a[1], pc(1)), padd(pc(-1), a[1], -1), padd(a[0], pc(-lo - 1))]], "value", "reports an error for a quotient that exists")
            return
        if X.refuted(st, [b0], "value", "no error for a division by zero") or X.refuted(st, [bm], "value", "no error for a quotient that is not representable"):
            return
        # v is the quotient truncated toward zero: r = a - v*b has |r| < |b| and the sign of a
        r = padd(a[0], pmul(v, a[1]), -1)
        for sa, ca in ((1, a[0]), (-1, padd(pc(-1), a[0], -1))):
            for sb, cb in ((1, padd(a[1], pc(-1))), (-1, padd(pc(-1), a[1], -1))):
                x = st.fork()
                if not (x.assume(ca) and x.assume(cb)):
                    continue
                ab = {m: sb * c for m, c in a[1].items()}
                ar = {m: sa * c for m, c in r.items()}
                X.refuted(x, [[padd(pc(-1), ar, -1)], [padd(ar, ab, -1)]], "value", "the quotient is not exact")
        return
    if spec == "round":
        # v is the smallest multiple of b that is >= a:  a <= v < a + b and v = b * q
        b = a[1]
        for x, r in X.divide(st, a[0], b, "r"):
            z = [(y, True) for y in [x.fork()] if y.assume(pneg(r))] + [(y, False) for y in [x.fork()] if y.assume(padd(r, pc(-1)))]
            for y, exact in z:
                t = a[0] if exact else padd(padd(a[0], b), r, -1)
                fin(X, y, v, e, t, lo, hi, [])
        return
    part = []
    if spec == "sum":
        t = padd(a[0], a[1])
    elif spec == "dif":
        t = padd(a[0], a[1], -1)
    elif spec == "conv":
        t = a[0]
    elif spec == "twice":
        t = padd(a[0], a[0])
    else:
        t = pc(1)
        for q in a:
            t = pmul(t, q)
        if len(a) == 3:
            part = [pmul(a[0], a[1])]
        elif len(a) == 4:
            part = [pmul(a[0], a[1]), pmul(a[2], a[3])]
    fin(X, st, v, e, t, lo, hi, part)


def fin(X, st, v, e, t, lo, hi, part):
    t, v = X.fold(st, t), X.fold(st, v)
    part = [X.fold(st, p) for p in part]
    if e:
        c = inr(t, lo, hi)
        for p in part:
            c += inr(p, lo, hi)
        X.refuted(st, [c], "value", "reports an error although the exact result is representable")
    else:
        d = padd(v, t, -1)
        if not d:
            X.obl += 1
            X.ok += 1
            # the value was produced without wrapping, so it is representable
            X.refuted(st, out_of(t, lo, hi), "value", "no error although the exact result is not representable")
            return
        X.refuted(st, [[padd(d, pc(-1))], [padd(pc(-1), d, -1)]], "value", "no error, but the returned value is not the exact result")


_m = {}


def one(job):
    cfg, i = job
    c = cases()[i]
    t = time.time()
    try:
        X = check(_m[cfg], c)
        return cfg, c[0], X.reports, X.und, X.obl, X.ok, X.paths, sorted(X.fns), time.time() - t, None
    except Unsup as e:
        return cfg, c[0], [], [], 0, 0, 0, [], time.time() - t, str(e)
    except Exception as e:
        import traceback
        return cfg, c[0], [], [], 0, 0, 0, [], time.time() - t, "CRASH " + traceback.format_exc()[-500:]


def run(prop, tier):
    cs = cases()
    cfgs = {"default": [], "builtins": ["-DIL_BUILTIN_SAFE_ARITHMETIC=1"]}
    und, jobs = [], []
    for k, fl in cfgs.items():
        good = cs
        try:
            _m[k] = compile_ir(driver(cs), "safe_" + k, fl)
        except BuildError:
            good = []
            for c in cs:
                try:
                    compile_ir(driver([c]), "safe_t_" + k, fl)
                    good.append(c)
                except BuildError as e:
                    und.append(dict(case=k + "." + c[0], why="the entry point does not compile: " + str(e)[-200:]))
            _m[k] = compile_ir(driver(good), "safe_" + k, fl)
        jobs += [(k, cs.index(c)) for c in good]
    jobs.sort(key=lambda j: -(len(cs[j[1]][2]) + (cs[j[1]][4] == "round")))
    viol, obl, ok, paths, fns, samples = [], 0, 0, 0, set(), []
    with mp.get_context("fork").Pool(8) as pool:
        for cfg, n, reps, u, o, k, p, f, secs, err in pool.imap_unordered(one, jobs, chunksize=1):
            obl += o
            ok += k
            paths += p
            fns |= set(f)
            if err:
                und.append(dict(case=cfg + "." + n, why=err))
            for x in u:
                und.append(dict(case=cfg + "." + n, why=x))
            if len(samples) < 3 and o:
                samples.append(dict(case=cfg + "." + n, paths=p, obligations=o, proved=k))
            seen = set()
            for kind, msg, wit, wh in reps:
                if (kind, msg) in seen:
                    continue
                seen.add((kind, msg))
                ex = next(c[3] for c in cs if c[0] == n)
                viol.append(dict(key="%s.%s|%s|%s" % (cfg, n, kind, msg[:40]), kind=kind, fn=ex, file=str(wh[0]), line=wh[1], case=cfg + "." + n, msg=msg + " (configuration: " + cfg + ")", witness=wit, stack=[]))
    dm = demangle(sorted(fns))
    cov = dict(rule="every path of every overload, exact polynomial arithmetic, Farkas certificates", configurations=list(cfgs), overloads=len(cs), paths=paths, obligations=obl, discharged=ok, functions=sorted(dm.get(f, f) for f in fns if not f.startswith("@d_")), samples=samples)
    return viol, cov, und


if __name__ == "__main__":
    v, c, u = run("N01", "quick")
    for x in v:
        print("VIOL", x["case"], x["kind"], x["msg"], x["witness"])
    for x in u:
        print("UND", x)
    print({k: c[k] for k in ("overloads", "paths", "obligations", "discharged")})
