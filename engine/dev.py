import sys, os, time
sys.path.insert(0, '/verif/engine'); sys.path.insert(0, '/verif/specs')
from harness import *
import importlib
from multiprocessing import Pool
_g = None
def one(i):
    mod, lay, g = _g
    try:
        return i, analyse_plain(mod, lay, g, g.cases[i])
    except Exception as e:
        import traceback
        return i, dict(err="CRASH " + traceback.format_exc().strip()[-int(os.environ.get('TBL','200')):], reports=[], obl=0, proved=0, states=0, secs=0, havoc={})
import signal
class TO(BaseException): pass
def alarm(*a):
    import traceback
    raise TO("timeout; at " + "".join(traceback.format_stack()[-14:-1])[-1400:] if '-t' in sys.argv else "timeout")
def analyse_plain(mod, lay, g, c):
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(os.environ.get("TMO", "60")))
    try:
        return analyse_plain1(mod, lay, g, c)
    except TO as e:
        return dict(err=str(e), reports=[], obl=0, proved=0, states=0, secs=0, havoc={})
    finally:
        signal.alarm(0)
def analyse_plain1(mod, lay, g, c):
    r = analyse_case(mod, lay, g, c)
    return dict(err=r.err, reports=[(x.kind, x.verdict, x.loc, x.msg, x.wit, x.fn) for x in r.reports], obl=r.obl, proved=r.proved, states=r.states, secs=r.secs, havoc=r.havoc)
    
def main():
    import absint
    if "-d" in sys.argv: absint.Engine.debug = True
    global _g
    m = importlib.import_module(sys.argv[1])
    pat = re.compile(sys.argv[2]) if len(sys.argv) > 2 else None
    full = '-v' in sys.argv
    tot = [0, 0, 0]
    for g in m.groups():
        cs = [i for i, c in enumerate(g.cases) if pat is None or pat.search(g.name + "." + c.name)]
        if not cs: continue
        t = time.time()
        mod = compile_ir(g.source(), g.name, g.flags)
        lay = Layout(mod)
        _g = (mod, lay, g)
        t1 = time.time()
        if '-1' in sys.argv:
            res = [one(i) for i in cs]
        else:
            pool = Pool(8)
            res = pool.imap_unordered(one, cs, chunksize=1)
        print("== group", g.name, "compile %.1fs" % (t1 - t))
        for i, r in res:
            c = g.cases[i]
            v = [x for x in r["reports"] if x[1] == "violation"]
            u = [x for x in r["reports"] if x[1] != "violation"]
            tot[0] += r["obl"]; tot[1] += r["proved"]; tot[2] += 1
            print("%-28s obl %4d proved %4d states %3d %5.2fs %s%s%s" % (g.name + "." + c.name, r["obl"], r["proved"], r["states"], r["secs"], "ERR " + r["err"] if r["err"] else "", " VIOL %d" % len(v) if v else "", " undec %d" % len(u) if u else ""), r["havoc"] or "")
            seen = set()
            for x in v + (u if full else u[:2]):
                k = (x[0], x[2], x[3][:60])
                if k in seen: continue
                seen.add(k)
                print("      %s %s %s:%s in %s: %s | %s" % (x[1].upper()[:5], x[0], os.path.basename(x[2][0]), x[2][1], (demangle([x[5]])[x[5]] if x[5] and x[5].startswith('@') else x[5]), x[3][:260], x[4]))
            sys.stdout.flush()
        print("   group time %.1fs" % (time.time() - t1))
    print("TOTAL", tot)
main()
