#!/usr/bin/env python3
"""check runner: run.py PROPERTY [--tier quick|thorough] [--only GROUP.CASE]

exit 0: no violation outside the known-findings file; exit 1 + VIOLATION line; exit 2: the check could not be carried out."""
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "specs"), os.path.join(VERIF, "rules")]
sys.setrecursionlimit(20000)
import buildlp
buildlp.ensure()
from harness import *
import registry
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp

_mods = {}
CASE_LIMIT = int(os.environ.get("ILV_CASE_LIMIT", "0"))
DEADLINE = [0]
a_tier = ["quick"]


def one(job):
    gi, ci = job
    mod, lay, g = _mods[gi]
    import signal

    def alarm(sig, frm):
        raise Stop("time limit for one case reached")
    signal.signal(signal.SIGALRM, alarm)
    left = int(DEADLINE[0] - time.time())
    if left < 3:
        return gi, ci, dict(err="time budget of the check used up", reports=[], obl=0, proved=0, states=0, secs=0, fns=[], sites=0, loops=0, havoc={})
    signal.alarm(max(1, min(CASE_LIMIT or (150 if a_tier[0] == "quick" else 900), left)))
    try:
        r = analyse_case(mod, lay, g, g.cases[ci])
        d = dict(err=r.err, reports=[(x.kind, x.verdict, x.loc, x.msg, x.wit, x.fn, x.stack) for x in r.reports], obl=r.obl, proved=r.proved,
                 states=r.states, secs=r.secs, fns=sorted(r.fns), sites=len(r.sites), loops=r.loops, havoc=dict(r.havoc))
    except Exception:
        d = dict(err="CRASH " + traceback.format_exc()[-1200:], reports=[], obl=0, proved=0, states=0, secs=0, fns=[], sites=0, loops=0, havoc={})
    signal.alarm(0)
    return gi, ci, d


def build_group(g, cases):
    """compile one group; cases that no longer compile are dropped one by one and reported"""
    dropped = []
    src = g.source([c for c in g.cases])
    try:
        m = compile_ir(src, g.name, g.flags)
        return m, dropped
    except BuildError as e:
        first = str(e)
    # find the cases that break
    bad = {}
    good = []

    def ok(cs):
        try:
            compile_ir(g.source(cs), g.name + "_t%d" % os.getpid(), g.flags)
            return None
        except BuildError as e:
            return str(e)

    def bis(cs):
        if not cs:
            return
        er = ok(cs)
        if er is None:
            good.extend(cs)
        elif len(cs) == 1:
            bad[cs[0].name] = er
        else:
            bis(cs[:len(cs) // 2])
            bis(cs[len(cs) // 2:])
    if ok([]) is not None:
        raise BuildError(first)
    bis(list(g.cases))
    g.cases = [c for c in g.cases if c.name not in bad]
    for n, er in bad.items():
        dropped.append((n, er[-600:]))
    return compile_ir(g.source(), g.name, g.flags), dropped


def collect(prop):
    mods, _ = registry.PROPS[prop]
    out = []
    for mn in mods:
        m = importlib.import_module(mn)
        for g in m.groups():
            keep = [c for c in g.cases if prop in props_of(g, c) and (a_tier[0] == "thorough" or getattr(c, "tier", "quick") == "quick")]
            if keep:
                g.cases = keep
                out.append(g)
    return out


def props_of(g, c):
    p = c.prop if isinstance(c.prop, tuple) else (c.prop,)
    if getattr(g, "life", None):
        p = p + (g.life,)
    return p + tuple(getattr(g, "also", ()))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    a_tier[0] = a.tier
    DEADLINE[0] = t0 + (560 if a.tier == "quick" else 7200)
    import gc
    gc.disable()
    groups = collect(prop)
    only = re.compile(a.only) if a.only else None
    if only:
        for g in groups:
            g.cases = [c for c in g.cases if only.search(g.name + "." + c.name)]
        groups = [g for g in groups if g.cases]
    errs, undecided = [], []
    with ThreadPoolExecutor(8) as ex:
        futs = [(g, ex.submit(build_group, g, g.cases)) for g in groups]
        for gi, (g, f) in enumerate(futs):
            try:
                m, dropped = f.result()
            except BuildError as e:
                errs.append("group %s does not compile: %s" % (g.name, str(e)[-1500:]))
                continue
            for n, er in dropped:
                undecided.append(dict(case=g.name + "." + n, why="the entry point does not compile: " + er[-300:]))
            _mods[gi] = (m, Layout(m), g)
    jobs = [(gi, ci) for gi in _mods for ci in range(len(_mods[gi][2].cases))]
    jobs.sort(key=lambda j: -_mods[j[0]][2].cases[j[1]].cost)
    results = []
    if jobs:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(8, len(jobs))) as pool:
            for r in pool.imap_unordered(one, jobs, chunksize=1):
                results.append(r)
    results.sort(key=lambda r: (r[0], r[1]))
    # rule modules
    rules = []
    for rn in registry.PROPS[prop][1]:
        rm = importlib.import_module(rn)
        try:
            rules.append((rn, rm.run(prop, a.tier)))
        except BuildError as e:
            errs.append("rule %s: %s" % (rn, str(e)[-800:]))
        except Anchor as e:
            errs.append("rule %s: %s" % (rn, e))
    viol = []
    obl = proved = states = loops = sites = 0
    fns = set()
    samples = []
    for gi, ci, d in results:
        g = _mods[gi][2]
        c = g.cases[ci]
        nm = g.name + "." + c.name
        obl += d["obl"]
        proved += d["proved"]
        states += d["states"]
        loops += d["loops"]
        sites += d["sites"]
        fns |= set(d["fns"])
        if d["err"]:
            undecided.append(dict(case=nm, why=d["err"][-400:]))
        if d["havoc"]:
            undecided.append(dict(case=nm, why="calls outside the analysed code: %s" % ", ".join(sorted(map(str, d["havoc"])))[:300]))
        for kind, verdict, loc, msg, wit, fn, stack in d["reports"]:
            if not registry.counts(prop, kind):
                continue
            if verdict != "violation":
                undecided.append(dict(case=nm, why="%s: %s at %s:%s" % (kind, msg[:250], loc[0], loc[1])))
                continue
            viol.append(dict(case=nm, kind=kind, fn=fn, file=str(loc[0]), line=loc[1], msg=msg, witness=wit, stack=list(stack), driver=c.body))
    dm = demangle(sorted(set(v["fn"] for v in viol if v["fn"].startswith("@")) | set(x for v in viol for x in v["stack"] if x.startswith("@")) | fns))
    for v in viol:
        v["fn"] = dm.get(v["fn"], v["fn"])
        v["stack"] = [dm.get(x, x) for x in v["stack"]]
        if v["fn"].startswith("d_") or v["fn"] in ("?", v["case"].split(".")[-1]):
            v["fn"] = "post"
        v["key"] = "%s|%s|%s" % (v["case"], v["kind"], v["fn"])
    rcov = {}
    for rn, (rv, cov, und) in rules:
        rcov[rn] = cov
        obl += cov.get("obligations", 0)
        proved += cov.get("discharged", 0)
        undecided += und
        for v in rv:
            v.setdefault("kind", "rule")
            viol.append(v)
    known = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
    hit = {}
    new = {}
    for v in viol:
        k = next((k for k in known if v["key"] in k["keys"] or v["key"].rsplit("|", 1)[0] in k["keys"]), None)
        if k is not None:
            hit.setdefault(k["id"], []).append(v)
        else:
            new.setdefault(v["key"], []).append(v)
    for k in known:
        if k["id"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for gi, ci, d in results[:3]:
        g = _mods[gi][2]
        c = g.cases[ci]
        samples.append(dict(case=g.name + "." + c.name, entry=c.body.strip()[:200], obligations=d["obl"], proved=d["proved"], post_states=d["states"], functions=[dm.get(x, x) for x in d["fns"]][:8]))
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    n = 0
    for key, vs in sorted(new.items()):
        v = vs[0]
        n += 1
        rp = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(rp, "w") as f:
            json.dump(dict(property=prop, key=key, reports=vs[:5], rerun="python3 /verif/engine/run.py %s --only '^%s$' -v" % (prop, re.escape(v.get("case", "")))), f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("   %s in %s (%s:%s), entry %s: %s" % (v["kind"], v.get("fn"), v.get("file"), v.get("line"), v.get("case"), v["msg"][:400]))
        if v.get("witness"):
            print("   for example with " + str(v["witness"])[:300])
        if n >= 25:
            break
    if a.v:
        for u in undecided[:40]:
            print("   undecided:", u)
    reported = sum(len(v) for v in new.values())
    meta = registry.META.get(prop, {}) if hasattr(registry, "META") else {}
    cov = dict(
        explanation="Abstract interpretation of /repo's current source (clang IR of entry points instantiating the repository's templates): each entry point is analysed from every abstract state satisfying the class representation, loops summarised by acceleration into quantified array segments, every obligation decided by exact linear arithmetic; plus the listed syntactic/dataflow rules.",
        entry_points=len(results), groups=sorted(set(_mods[gi][2].name for gi in _mods)), functions_analysed=len([f for f in fns if not dm.get(f, f).startswith("d_")]),
        program_points_with_obligations=sites, post_states_checked=states, loops_summarised=loops, obligations=obl, discharged=proved,
        violations_known=sum(len(v) for v in hit.values()), violations_new=reported, undecided=len(undecided), undecided_list=undecided[:60],
        checker_cmd="python3 /verif/engine/run.py " + prop, trusted_base=["clang-18 front end and opt sroa,mem2reg,loop-simplify,lcssa", "/verif/engine (abstract interpreter, exact rational simplex)", "contracts in /verif/specs"],
        rules=rcov, samples=samples or [dict(analysis=k, **{x: v.get(x) for x in ("rule", "samples") if x in v}) for k, v in rcov.items()])
    cov["functions"] = sorted(dm.get(f, f) for f in fns if not dm.get(f, f).startswith("d_"))[:400]
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=reported)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d entry points, %d obligations, %d proved, %d undecided, %d known, %d new violations, %.1fs" % (prop, len(results), obl, proved, len(undecided), cov["violations_known"], reported, time.time() - t0))
    if new:
        return 1
    if errs:
        for e in errs:
            print("ERROR", e)
        return 2
    if not results and not rules:
        print("ERROR nothing was analysed")
        return 2
    return 0


ASSUME = ["malloc succeeds and returns 16-byte aligned storage", "element operations of class types are opaque and do not throw", "sizes are small enough that byte counts do not overflow a signed 64-bit integer (the library aborts otherwise)",
          "analysed configuration: debug build (expectations abort) unless the entry point says otherwise"]

if __name__ == "__main__":
    sys.exit(main())
