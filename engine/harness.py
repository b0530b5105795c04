"""Drivers: C++ entry points over /repo's headers are compiled to IR; each is analysed from an abstract pre-state
(every state satisfying the class invariant) and its post-states are checked against the case's contract."""
import hashlib
import os
import re
import subprocess
import sys
import time
import tempfile
from absint import *
import ir as IR

REPO = os.environ.get("ILV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFLAGS = ["-std=c++11", "-m64", "-DIL_MKL", "-DIL_BLAS", "-Wno-everything", "-I/usr/include/mkl", "-include", "cstdint", "-I" + REPO,
          "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug", "-fno-exceptions", "-fno-threadsafe-statics"]


class BuildError(Exception):
    pass


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="ilv.")
        import atexit
        import shutil
        pid = os.getpid()

        def rm():
            if os.getpid() == pid and _tmp and _tmp.startswith(tempfile.gettempdir() + "/ilv."):
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp


def compile_ir(src_text, name, flags=(), passes="sroa,mem2reg,loop-simplify,lcssa"):
    d = tmpdir()
    cpp = os.path.join(d, name + ".cpp")
    with open(cpp, "w") as f:
        f.write(src_text)
    ll = os.path.join(d, name + ".ll")
    r = subprocess.run(["clang++-18"] + CFLAGS + list(flags) + ["-I" + os.path.join(VERIF, "drivers"), "-S", "-emit-llvm", cpp, "-o", ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    ll2 = os.path.join(d, name + ".o.ll")
    r = subprocess.run(["opt-18", "-S", "-passes=" + passes, ll, "-o", ll2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    m = IR.load(ll2)
    os.unlink(ll)
    os.unlink(ll2)
    return m


def demangle(names):
    names = list(names)
    if not names:
        return {}
    r = subprocess.run(["c++filt"], input="\n".join(n.lstrip("@") for n in names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split("\n")))


class Layout:
    """member offsets of the repository's classes, from debug information"""

    def __init__(s, mod):
        s.m = mod
        s.by = {}
        for n, i, mem in mod.di_struct(lambda d: True):
            k = s.key(n)
            if mem and k not in s.by:
                s.by[k] = mem
        s.sizes = {s.key(k): v for k, v in mod.disize.items()}

    @staticmethod
    def key(n):
        n = re.sub(r"(\d+)[UL]+\b", r"\1", n.replace(" ", ""))
        return re.sub(r"\(\w+\)(\d)", r"\1", n)

    def size(s, cls):
        if s.key(cls) not in s.sizes:
            raise Anchor("class %s not found" % cls)
        return s.sizes[s.key(cls)]

    def get(s, cls, *names):
        mem = s.by.get(s.key(cls))
        if mem is None:
            raise Anchor("class %s not found" % cls)
        out = []
        for n in names:
            if n not in mem:
                raise Anchor("member %s of %s not found" % (n, cls))
            out.append(mem[n])
        return out


class Anchor(Exception):
    pass


PROBE = '''
struct Probe { Probe(); explicit Probe(long); Probe(long, long); Probe(const Probe&); Probe(Probe&&); Probe& operator=(const Probe&);
  Probe& operator=(Probe&&); ~Probe(); bool operator==(const Probe&) const; long v; };
'''


class Case:
    """one entry point + pre-state builder + contract"""

    def __init__(s, prop, name, sig, body, run, ret="void", flags=()):
        s.prop, s.name, s.sig, s.body, s.run, s.ret, s.flags = prop, name, sig, body, run, ret, flags
        s.cost = 1


class Result:
    def __init__(s):
        s.reports = []
        s.obl = 0
        s.proved = 0
        s.states = 0
        s.pins = 0
        s.fns = set()
        s.sites = set()
        s.err = None
        s.secs = 0
        s.loops = 0
        s.havoc = {}


class Ctx:
    """analysis of one case: helper operations for contracts"""

    def __init__(s, mod, layout, case, group):
        s.m, s.lay, s.case, s.g = mod, layout, case, group
        s.E = Engine(mod)
        s.E.max_steps = 300000
        s.states = 0
        s.pins = 0
        s.al = None
        s.has_align = any(h[0] == "alignment" for h in group.helpers)

    # --- state construction
    def st(s):
        return St()

    def obj(s, st, size, name, probe=False, kind="param"):
        return s.E.new_obj(st, kind, C(size) if isinstance(size, int) else size, name, probe)

    def put(s, st, o, off, n, v, kind="w"):
        s.E.put(st, o, C(off) if isinstance(off, int) else off, n, v, kind)

    def block(s, st, count, tag, probe, live=None, esz=8, name="data", kind="heap"):
        """heap block of `count` elements, elements [0,live) hold init(tag, i)"""
        b = s.E.new_obj(st, kind, count * esz, name, probe)
        o = st.wobj(b)
        j = T.new("j", "q")
        o.log = Node(None, Ev("ctor" if probe else "w", S(j) * esz, esz, Term("init", tag, S(j)), [j], [(S(j), False), ((count if live is None else live) - 1 - S(j), False)]))
        return b

    def elem(s, st, tag, probe):
        """reference parameter"""
        o = s.E.new_obj(st, "param", C(8), tag, probe)
        s.E.put(st, o, ZERO, 8, Term("init", tag), "ctor" if probe else "w")
        return Ptr(o, ZERO)

    def cell(s, st, o, off):
        c = st.objs[o].cells.get(off)
        return c[2] if c else None

    # --- running
    def run(s, st, args, fn=None):
        return s.E.call("@" + (fn or s.g.sym(s.case.name)), args, st)

    def call(s, st, fn, args):
        """call a helper driver of the group"""
        return s.E.call("@" + s.g.sym(fn), args, st)

    # --- checks (location = the case)
    def fail(s, st, kind, msg):
        s.E.curins = None
        s.E.violate(st, kind, msg)

    def expect(s, st, p, kind, msg, eq=False):
        s.E.curins = None
        return s.E.oblige(st, p, kind, msg, eq)

    def expect_val(s, st, v, exp, kind, msg):
        E = s.E
        E.curins = None
        E.obl += 1
        E.sites.add((("case", s.case.name), kind + msg))
        r, d = E.val_eq(st, v, exp)
        if r is True:
            E.proved += 1
            return True
        if r is None:
            E.reports.append(Report(kind, "undecided", ("case", 0), msg + ": value not determined (%s)" % (v,), None, s.case.name))
            return False
        text = "%s: found %s, expected %s" % (msg, v, exp)
        if isinstance(d, Poly):
            any_ = False
            for q in (d - 1, -d - 1):
                r = norm(q, False)
                if r is False:
                    continue
                cs = st.cons + ([] if r is True else [r])
                if feasible(cs):
                    E.record(st, cs, kind, text)
                    any_ = True
                    break
            if not any_:
                E.proved += 1
        elif isinstance(d, St):
            if feasible(d.cons):
                E.record(d, d.cons, kind, text)
        else:
            if feasible(st.cons):
                E.record(st, st.cons, kind, text)
            else:
                E.proved += 1
        return False

    def elem_at(s, st, p, probe, size=8):
        """contents at address p -> [(st, status, val)]"""
        E = s.E
        E.curins = None
        o = E.check_access(st, p, size, "element")
        if o is None:
            return []
        if o == "unk":
            return [(st, "unk", E.fresh_unk(st))]
        return E.query(st, Snap(o.id, o.log, o.cells), p.off, size, probe)

    def pinned(s, st, p, probe, exp, kind, msg, size):
        """the contents are not determined for all sizes: look for definite sizes that show a deviation"""
        E = s.E
        o = st.objs.get(p.o)
        if E.quiet or st.approx or o is None or exp is None:
            return False
        if s.pins > 40:
            return False
        s.pins += 1
        snap = Snap(o.id, o.log, o.cells)
        seen = set()
        for k in range(8):
            w0 = st.fork()
            if k in (1, 2):
                # sizes that differ from each other
                sy = [i for i in sorted(set(i for q, _ in st.cons for i in q.syms())) if not T.info[i][2] and T.info[i][0] != "addr"][:14]
                for b, j in enumerate(sy):
                    for i in sy[:b]:
                        for d in ((S(j) - S(i) - 1, S(i) - S(j) - 1) if k == 1 else (S(i) - S(j) - 1, S(j) - S(i) - 1)):
                            z = w0.fork()
                            if z.assume(d):
                                w0 = z
                                break
            elif k:
                for n, i in enumerate(sorted(set(i for q, _ in st.cons for i in q.syms()))):
                    if T.info[i][2] or T.info[i][0] == "addr":
                        continue
                    z = w0.fork()
                    if z.assume(S(i) - (1 + (n * 7 + k * 3) % 5), True):
                        w0 = z
            w = witness(w0.cons)
            if w is None:
                continue
            if any(T.info[i][0] in IMPRECISE or (T.info[i][2] and T.info[i][0] not in ("div", "rem")) for i in w):
                return False
            key = tuple(sorted(w.items()))
            if key in seen:
                continue
            seen.add(key)
            m = {i: C(v) for i, v in w.items()}
            z = st.fork()
            z.cons, z.cset = [], set()
            if not all([z.add(subst(q, m), eq) for q, eq in st.cons]) or not feasible(z.cons):
                continue
            # what was true of the sizes stays readable in the report
            for i, v in w.items():
                z.cons.append((S(i) - v, True))
            for y, status, v in E.query(z, snap_subst(snap, m), subst(p.off, m), size, probe):
                if status == "unk" or y.approx:
                    continue
                if status == "raw":
                    s.fail(y, kind, "%s: the slot holds no value (%s)" % (msg, v))
                    return True
                if E.val_eq(y, v, subst(exp, m))[0] is False:
                    n = len(E.reports)
                    s.expect_val(y, v, subst(exp, m), kind, msg)
                    if len(E.reports) > n:
                        return True
        return False

    def expect_elem(s, st, p, probe, exp, kind, msg, size=8):
        for y, status, v in s.elem_at(st, p, probe, size):
            if status == "raw":
                if exp is not None or probe:
                    s.fail(y, kind, "%s: the slot holds no value (%s)" % (msg, v))
                continue
            if status == "unk":
                if s.pinned(y, p, probe, exp, kind, msg, size):
                    continue
                s.E.obl += 1
                s.E.reports.append(Report(kind, "undecided", ("case", 0), msg + ": contents not determined", None, s.case.name))
                continue
            if exp is None:
                s.E.obl += 1
                s.E.proved += 1
                continue
            s.expect_val(y, v, exp, kind, msg)

    def no_abort(s, ok=None, guards=True):
        """every abort reached under the precondition is a violation, unless it is an out-of-memory/overflow guard"""
        E = s.E
        for st, loc, stack in E.aborts:
            big = guards and any(abs(c) >= (1 << 28) for p, _ in st.cons for m, c in p.t.items())
            if big:
                continue
            if ok is not None and ok(st):
                continue
            E.curins = None
            E.stack.append(next((f for f in reversed(stack) if "5abortEv" not in f), "?"))
            E.violate(st, "abort", "the operation aborts on a valid input (check at %s:%s)" % loc)
            E.stack.pop()

    def leak_check(s, st, allowed=()):
        for oid, o in list(st.objs.items()):
            if o.kind == "heap" and o.alive and oid not in allowed:
                s.fail(st, "leak", "storage %s is never released" % o.name)


class Group:
    """one translation unit with many drivers"""

    def __init__(s, name, prelude, flags=()):
        s.name, s.prelude, s.flags = name, prelude, list(flags)
        s.helpers = []
        s.cases = []

    def sym(s, n):
        return "d_%s__%s" % (s.name, n)

    def helper(s, name, ret, sig, body):
        s.helpers.append((name, ret, sig, body))

    def case(s, prop, name, sig, body, run, ret="void"):
        c = Case(prop, name, sig, body, run, ret)
        s.cases.append(c)
        return c

    def source(s, only=None):
        out = [s.prelude]
        for n, ret, sig, body in s.helpers:
            out.append('extern "C" %s %s%s { %s }' % (ret, s.sym(n), sig, body))
        for c in (s.cases if only is None else only):
            out.append('extern "C" %s %s%s { %s }' % (c.ret, s.sym(c.name), c.sig, c.body))
        return "\n".join(out) + "\n"


def analyse_case(mod, lay, g, case, budget=None):
    t = time.time()
    r = Result()
    cx = Ctx(mod, lay, case, g)
    try:
        case.run(cx)
    except (Unsupported, Stop, RecursionError) as e:
        r.err = "%s: %s" % (type(e).__name__, e)
    except Anchor as e:
        r.err = "Anchor: %s" % e
    E = cx.E
    r.reports = E.reports
    r.obl, r.proved, r.states = E.obl, E.proved, cx.states
    r.fns, r.sites = E.fnseen, E.sites
    r.loops = E.loopstat[0]
    r.havoc = E.unsupported
    r.secs = time.time() - t
    r.case, r.group = case, g
    return r
