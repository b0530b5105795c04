"""R01 / R02: typestate analyses over the LLVM IR of the code that uses il::Status and std::FILE.

R01  the Status protocol.  A status is pending between the operation that sets it and the operation that examines it.
       SetOk, SetError, move into, error(), destruction             need: not pending
       Ok, AbortOnError, IgnoreError                                need: pending
       SetInfo, setSource                                           need: pending, carrying an error
       return of a function that was given the status to set        need: pending
R02  the FILE protocol and the results of the C input/output calls.
       a stream is used only when it is known to be open, it is closed once, and no path drops it open;
       a path on which a call reported a failure, or was never asked, does not end with a status set to ok.

The functions are explored path by path (phi constants, comparisons with constants, null tests and the result of Ok are
correlated), callees that receive a status or a stream are explored with the state of the call (summaries per entry
state); a recursive call is taken to follow the protocol, which the exploration of the function itself then confirms."""
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))
from harness import compile_ir, demangle, BuildError, REPO

N0, NO, NE = (0, "?"), (0, "o"), (0, "e")
PO, PE, PA = (1, "o"), (1, "e"), (1, "?")
LIMIT = 60000

STREAM_ARG = {"fread": 3, "fwrite": 3, "fgets": 2, "fputs": 1, "fprintf": 0, "fscanf": 0, "__isoc99_fscanf": 0, "__isoc23_fscanf": 0, "fgetc": 0, "getc": 0,
              "ungetc": 1, "fputc": 1, "putc": 1, "fseek": 0, "ftell": 0, "rewind": 0, "feof": 0, "ferror": 0, "fflush": 0, "clearerr": 0, "_IO_getc": 0,
              "vfprintf": 0, "setvbuf": 0, "setbuf": 0, "fgetpos": 0, "fsetpos": 0, "fileno": 0}


class Quit(Exception):
    pass


def split_sig(dm):
    """parameter list of a demangled function name"""
    d = 0
    end = dm.rfind(")")
    i = end
    while i >= 0:
        c = dm[i]
        if c in ")>]":
            d += 1
        elif c in "(<[":
            d -= 1
            if d == 0 and c == "(":
                break
        i -= 1
    body = dm[i + 1:end]
    out, cur, d = [], "", 0
    for c in body:
        if c in "(<[":
            d += 1
        elif c in ")>]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Unit:
    """one translation unit"""

    def __init__(s, mod):
        s.m = mod
        names = list(mod.names())
        allcalled = names + list(mod.decls)
        s.dm = demangle([n.lstrip("@") for n in allcalled])
        s.dm = {("@" + k if not k.startswith("@") else k): v for k, v in s.dm.items()}
        s.ssize = None
        t = mod._rawty.get('%"class.il::Status"')
        if t:
            s.ssize = mod.size(mod.named('%"class.il::Status"'))
        s._info = {}
        s._live = {}
        s._closes = {}

    def name(s, f):
        return s.dm.get(f, f.lstrip("@"))

    def fn(s, f):
        return s.m.fn(f)

    def status_params(s, f):
        """indices of the parameters that are a Status& to be set"""
        k = ("sp", f)
        if k not in s._info:
            fn = s.fn(f)
            sig = [a for a in split_sig(s.name(f)) if re.fullmatch(r"il::Status&", a)]
            out = []
            if sig and fn and "il::Status::" not in s.name(f).split("(")[0]:
                c = [i for i, (t, nm, at) in enumerate(fn.params) if t.k == "ptr" and "sret" not in at and str(at.get("dereferenceable")) == str(s.ssize)]
                out = c[-len(sig):]
            s._info[k] = out
        return s._info[k]

    def file_params(s, f):
        k = ("fp", f)
        if k not in s._info:
            fn = s.fn(f)
            sig = split_sig(s.name(f))
            out = []
            if fn and any("FILE*" in a for a in sig):
                # parameters without a dereferenceable attribute, in order; class arguments without members take none
                c = [i for i, (t, nm, at) in enumerate(fn.params) if t.k == "ptr" and "sret" not in at and "dereferenceable" not in at and "nonnull" not in at]
                # the position among trailing parameters decides
                want = [j for j, a in enumerate(sig) if re.search(r"FILE\*$", a)]
                ptrs = [j for j, a in enumerate(sig) if a.endswith("*")]
                cc = c[-len(ptrs):]
                out = [cc[ptrs.index(j)] for j in want if len(cc) == len(ptrs)]
            s._info[k] = out
        return s._info[k]

    def live(s, f):
        """block -> set of registers live on entry"""
        if f in s._live:
            return s._live[f]
        fn = s.fn(f)
        use, de = {}, {}

        def regs(v, out):
            if v[0] == "r":
                out.add(v[1])
            elif v[0] == "ce":
                return
        for b, B in fn.blocks.items():
            u, d = set(), set()
            for p in B.phis:
                d.add(p.res)
            for i in B.ins:
                o = set()
                for a in i.a:
                    if isinstance(a, tuple) and len(a) == 3 and i.op == "call":
                        regs(a[1], o)
                    elif isinstance(a, tuple) and i.op == "getelementptr":
                        regs(a[1], o)
                    elif isinstance(a, tuple):
                        regs(a, o)
                u |= o - d
                if i.res:
                    d.add(i.res)
            use[b], de[b] = u, d
        liv = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                B = fn.blocks[b]
                o = set()
                for t in B.succ:
                    T = fn.blocks[t]
                    o |= liv[t]
                    for p in T.phis:
                        o.discard(p.res)
                    for p in T.phis:
                        for v, fr in p.x:
                            if fr == b and v[0] == "r":
                                o.add(v[1])
                n = use[b] | (o - de[b])
                if n != liv[b]:
                    liv[b] = n
                    ch = True
        # a flag that was computed from other registers keeps those alive
        src = {}
        for B in fn.blocks.values():
            for i in B.ins:
                if i.res and i.op in ("icmp", "xor", "zext", "sext", "trunc", "and", "or", "freeze", "bitcast"):
                    src[i.res] = [a[1] for a in i.a if a[0] == "r"]
        for b in liv:
            todo = list(liv[b])
            while todo:
                r = todo.pop()
                for q in src.get(r, ()):
                    if q not in liv[b]:
                        liv[b].add(q)
                        todo.append(q)
        s._live[f] = liv
        return liv

    def closes(s, f, seen=None):
        """does f, or anything it calls, close or open a stream?"""
        if f in s._closes:
            return s._closes[f]
        seen = seen if seen is not None else set()
        if f in seen:
            return False
        seen.add(f)
        fn = s.fn(f)
        r = False
        if fn:
            for B in fn.blocks.values():
                for i in B.ins:
                    if i.op == "call" and i.x.startswith("@"):
                        c = i.x.lstrip("@")
                        if c in ("fclose", "fopen", "freopen", "fopen64", "fdopen"):
                            r = True
                        elif s.m.has(i.x) and s.closes(i.x, seen):
                            r = True
                    if r:
                        break
        s._closes[f] = r
        return r


class State:
    __slots__ = ("st", "fi", "io", "env", "cell", "tr")

    def __init__(s, st, fi, io, env, cell, tr):
        s.st, s.fi, s.io, s.env, s.cell, s.tr = st, fi, io, env, cell, tr

    def copy(s):
        return State(dict(s.st), dict(s.fi), dict(s.io), dict(s.env), dict(s.cell), s.tr)

    def key(s):
        return (tuple(sorted(s.st.items())), tuple(sorted(s.fi.items())), tuple(sorted(s.io.items(), key=repr)),
                tuple(sorted(s.env.items(), key=lambda kv: kv[0])), tuple(sorted(s.cell.items(), key=repr)))


PRED = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b,
        "sge": lambda a, b: a >= b, "ult": lambda a, b: a < b, "ule": lambda a, b: a <= b, "ugt": lambda a, b: a > b, "uge": lambda a, b: a >= b}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


class Explorer:
    def __init__(s, unit, prop):
        s.u, s.prop = unit, prop
        s.memo = {}
        s.stack = []
        s.viol = {}
        s.und = {}
        s.obl = set()
        s.fns = set()
        s.steps = 0
        s.recursive = set()
        s.root = None

    # ---- reports
    def rep(s, kind, fn, ins, msg, S, extra=""):
        f, l = s.u.m.loc(ins.dbg) if ins is not None and ins.dbg else (None, 0)
        if f is None and S.tr:
            f, l = S.tr[0]
        path = []
        t = S.tr
        while t and len(path) < 12:
            path.append("%s:%d" % (os.path.relpath(t[0][0], REPO) if t[0][0].startswith(REPO) else os.path.basename(t[0][0]), t[0][1]))
            t = t[1]
        nm = s.u.name(fn)
        k = (kind, short(nm), os.path.relpath(f, REPO) if f and f.startswith(REPO) else f, msg)
        if k not in s.viol:
            s.viol[k] = dict(key="%s|%s|%s" % (short(nm), kind, extra), kind=kind, fn=nm, file=f or "?", line=l, case=s.root, msg=msg,
                             witness="path, newest first: " + " <- ".join(path), stack=[short(s.u.name(x)) for x in s.stack])

    # ---- values
    def val(s, S, v):
        """abstract value of an operand, or None"""
        if v[0] == "i":
            return ("c", v[1])
        if v[0] == "null":
            return ("c", 0)
        if v[0] in ("undef",):
            return None
        if v[0] == "r":
            return S.env.get(v[1])
        return None

    def key(s, fn, v, d=0):
        """structural name of an expression"""
        if v[0] == "i":
            return str(v[1])
        if v[0] != "r" or d > 8:
            return repr(v)
        df = s.defs(fn).get(v[1])
        if df is None:
            return v[1]
        if df.op in ("sext", "zext", "trunc", "bitcast", "freeze"):
            return s.key(fn, df.a[0], d + 1)
        if df.op in ("add", "sub", "mul", "shl", "sdiv", "udiv"):
            return "%s(%s,%s)" % (df.op, s.key(fn, df.a[0], d + 1), s.key(fn, df.a[1], d + 1))
        if df.op == "call" and df.x.startswith("@"):
            return "%s(%s)" % (df.x, ",".join(s.key(fn, a[1], d + 1) for a in df.a))
        if df.op == "load":
            return "*" + s.key(fn, df.a[0], d + 1)
        if df.op == "getelementptr":
            return "&(%s)" % ",".join(s.key(fn, a[1], d + 1) for a in df.a)
        return v[1]

    def defs(s, fn):
        k = ("defs", fn)
        if k not in s.u._info:
            d = {}
            for B in s.u.fn(fn).blocks.values():
                for i in B.ins + B.phis:
                    if i.res:
                        d[i.res] = i
            s.u._info[k] = d
        return s.u._info[k]

    # ---- exploration of one function from one entry state
    def run(s, fn, entry):
        """entry: (status states by parameter, stream states by parameter, constants by parameter, io)
        -> set of (return value, status states, stream states, io)"""
        k = (fn, entry)
        if k in s.memo:
            return s.memo[k]
        if fn in s.stack:
            # recursive call: follows the protocol
            s.recursive.add(fn)
            st = dict(entry[0])
            outs = set()
            for fin in (PO, PE):
                o = tuple(sorted((i, fin) for i in st))
                outs.add((None, o, entry[1], entry[3]))
            return outs
        s.fns.add(fn)
        F = s.u.fn(fn)
        env, st, fi = {}, {}, {}
        for i, x in entry[0]:
            st["p%d" % i] = x
            env[F.params[i][1]] = ("S", "p%d" % i)
        for i, x in entry[1]:
            fi["p%d" % i] = x
            env[F.params[i][1]] = ("F", "p%d" % i)
        for i, c in entry[2]:
            env[F.params[i][1]] = ("c", c)
        S = State(st, fi, dict(entry[3]), env, {}, None)
        s.stack.append(fn)
        outs = set()
        seen = set()
        todo = [(F.order[0], None, S)]
        live = s.u.live(fn)
        try:
            while todo:
                b, pred, S = todo.pop()
                s.steps += 1
                if s.steps > LIMIT:
                    raise Quit("more than %d path steps" % LIMIT)
                B = F.blocks[b]
                if pred is not None:
                    new = {}
                    for p in B.phis:
                        for v, fr in p.x:
                            if fr == pred:
                                a = s.val(S, v)
                                if a is None and v[0] == "r" and p.ty.k == "int":
                                    a = None
                                new[p.res] = a
                    for r, a in new.items():
                        if a is None:
                            S.env.pop(r, None)
                        else:
                            S.env[r] = a
                lv = live[b]
                phs = {p.res for p in B.phis}
                S.env = {r: a for r, a in S.env.items() if r in lv or r in phs or a[0] in ("S",)}
                S.cell = {q: a for q, a in S.cell.items() if q[0] == "this" or q[0] in S.env}
                s.lose(S)
                kk = (b, S.key())
                if kk in seen:
                    continue
                seen.add(kk)
                for T in s.block(fn, F, b, B, S, outs):
                    todo.append(T)
        finally:
            s.stack.pop()
        s.memo[k] = outs
        return outs

    def lose(s, S):
        """results nobody can look at any more: one of them is remembered"""
        if not S.io:
            return
        held = {a[1] for a in S.env.values() if a[0] in ("IO", "IOX")} | {a[1] for a in S.cell.values() if a[0] in ("IO", "IOX")}
        first = was = None
        for site in sorted(S.io, key=repr):
            st = S.io[site]
            if S.io[site].startswith("open") and site not in held and not site[0].startswith("lost "):
                del S.io[site]
                first = first or site
                was = was or st
            elif S.io[site] in ("query", "unknown") and site not in held:
                del S.io[site]
        if first and not any(q[0].startswith("lost ") for q in S.io):
            S.io[("lost " + first[0],) + first[1:]] = was

    def block(s, fn, F, b, B, S, outs):
        cur = [S]
        for ins in B.ins[:-1]:
            nxt = []
            for X in cur:
                r = s.step(fn, F, b, ins, X)
                nxt.extend(r)
            cur = nxt
            if not cur:
                return []
        t = B.ins[-1]
        res = []
        for X in cur:
            f, l = s.u.m.loc(t.dbg) if t.dbg else (None, 0)
            if f and not (X.tr and X.tr[0] == (f, l)):
                X.tr = ((f, l), X.tr)
            if t.op == "ret":
                if t.a and t.ty.k == "int" and t.ty.w <= 8 and t.a[0][0] == "r" and s.val(X, t.a[0]) is None:
                    for want in (1, 0):
                        Y = s.assume(fn, X.copy(), t.a[0], want)
                        if Y is not None:
                            s.ret(fn, F, t, Y, outs)
                else:
                    s.ret(fn, F, t, X, outs)
            elif t.op == "br":
                if not t.a:
                    res.append((t.x[0], b, X))
                else:
                    for want, tgt in ((1, t.x[0]), (0, t.x[1])):
                        Y = s.assume(fn, X.copy(), t.a[0], want)
                        if Y is not None:
                            res.append((tgt, b, Y))
            elif t.op == "switch":
                v = s.val(X, t.a[0])
                if v and v[0] == "c":
                    tg = [x for c, x in t.x[1] if c == v[1]]
                    res.append((tg[0] if tg else t.x[0], b, X))
                else:
                    no = v[1] if v and v[0] == "ne" else ()
                    for c, x in t.x[1]:
                        if c in no:
                            continue
                        Y = X.copy()
                        if t.a[0][0] == "r":
                            Y.env[t.a[0][1]] = ("c", c)
                        res.append((x, b, Y))
                    Y = X.copy()
                    if t.a[0][0] == "r" and (not v or v[0] == "ne"):
                        Y.env[t.a[0][1]] = ("ne", tuple(sorted(set(no) | {c for c, _ in t.x[1]})))
                    res.append((t.x[0], b, Y))
        return res

    # ---- branch conditions
    def assume(s, fn, S, v, want):
        if v[0] == "i":
            return S if v[1] & 1 == want else None
        if v[0] != "r":
            return S
        a = S.env.get(v[1])
        if a is not None:
            if a[0] == "c":
                return S if (a[1] & 1) == want else None
            if a[0] == "ne" and (want in a[1]):
                return None
        d = s.defs(fn).get(v[1])
        if d is not None:
            if d.op in ("freeze", "trunc", "zext", "bitcast") or (d.op == "trunc"):
                S2 = s.assume(fn, S, d.a[0], want) if d.op != "trunc" or s.isbool(fn, d.a[0]) else S
                if S2 is None:
                    return None
                S2.env[v[1]] = ("c", want)
                return S2
            if d.op == "xor" and d.a[1] == ("i", 1) or d.op == "xor" and d.a[1] == ("i", -1):
                S2 = s.assume(fn, S, d.a[0], 1 - want)
                if S2 is None:
                    return None
                S2.env[v[1]] = ("c", want)
                return S2
            if d.op == "icmp":
                if not s.compare(fn, S, d, want):
                    return None
            if d.op in ("and", "or") and d.ty.w == 1:
                if (d.op == "and") == bool(want):
                    for x in d.a:
                        S = s.assume(fn, S, x, want)
                        if S is None:
                            return None
        S.env[v[1]] = ("c", want)
        return S

    def isbool(s, fn, v):
        if v[0] == "i":
            return True
        d = s.defs(fn).get(v[1])
        return d is not None and (d.op == "zext" or (d.op in ("call", "load", "phi")))

    def compare(s, fn, S, d, want):
        """restrict S to icmp d == want; False when impossible"""
        pr = d.x if want else NEG[d.x]
        a, b = d.a
        va, vb = s.val(S, a), s.val(S, b)
        if va is not None and va[0] == "c" and not (vb is not None and vb[0] == "c"):
            a, b, va, vb, pr = b, a, vb, va, SWAP[pr]
        if va is not None and va[0] == "c" and vb is not None and vb[0] == "c":
            return PRED[pr](va[1], vb[1])
        if va is not None and va[0] == "F" and vb == ("c", 0):
            st = S.fi.get(va[1])
            if pr == "eq":
                if st in ("open", "closed"):
                    return False
                if st == "maybe":
                    S.fi[va[1]] = "null"
            elif pr == "ne":
                if st == "null":
                    return False
                if st == "maybe":
                    S.fi[va[1]] = "open"
            return True
        # a number computed from results of input/output calls: what the comparison says about them is not followed
        for x in (a, b):
            site = s.iocall(fn, S, x, "IOX")
            if site is not None and site in S.io and not S.io[site].startswith("fail"):
                S.io[site] = "unknown"
        # result of an input/output call, possibly through a widening
        for (x, y, p) in ((a, b, pr), (b, a, SWAP[pr])):
            c = s.iocall(fn, S, x)
            if c is not None:
                r = s.iodecide(fn, S, c, y, p)
                if r is False:
                    return False
        if vb is not None and vb[0] == "c" and a[0] == "r":
            c = vb[1]
            if va is not None and va[0] == "ne":
                if pr == "eq" and c in va[1]:
                    return False
            if pr == "eq":
                S.env[a[1]] = ("c", c)
            elif pr == "ne":
                S.env[a[1]] = ("ne", tuple(sorted(set(va[1] if va and va[0] == "ne" else ()) | {c})))
        return True

    def iocall(s, fn, S, v, tag="IO"):
        for _ in range(6):
            if v[0] != "r":
                return None
            a = S.env.get(v[1])
            if a is not None and a[0] == tag:
                return a[1]
            d = s.defs(fn).get(v[1])
            if d is None or d.op not in ("sext", "zext", "trunc", "freeze", "bitcast"):
                return None
            v = d.a[0]
        return None

    def iodecide(s, fn, S, site, y, pr):
        """the result of the call at `site` compared with y"""
        if site not in S.io:
            return None
        st = S.io[site]
        name, cnt = site[2], site[3]
        vy = s.val(S, y)
        ok = bad = True
        if name in ("fread", "fwrite"):
            ck = s.key(fn, y)
            if vy is not None and vy[0] == "c" and re.fullmatch(r"-?\d+", cnt):
                n, k = int(cnt), vy[1]
                ok = PRED[pr](n, k)
                bad = any(PRED[pr](r, k) for r in range(0, min(n, 64)))
            elif ck == cnt:
                ok = pr in ("eq", "uge", "ule", "sge", "sle")
                bad = pr in ("ne", "ult", "ule", "slt", "sle")
            elif vy is not None and vy[0] == "c" and vy[1] == 0:
                if pr == "eq":
                    ok = False
            else:
                if ck == site[5] and not ck.lstrip("-").isdigit():
                    s.swapped(site, fn, S)
                if not st.startswith("fail"):
                    S.io[site] = "unknown"
                return None
        elif name in ("fclose", "fflush", "fseek"):
            if vy is None or vy[0] != "c":
                S.io[site] = "unknown"
                return None
            k = vy[1]
            ok = PRED[pr](0, k)
            bad = any(PRED[pr](r, k) for r in (-1, 1))
            if name == "fclose":
                bad = PRED[pr](-1, k)
        elif name in ("ferror", "feof"):
            if vy is None or vy[0] != "c":
                return None
            ok = PRED[pr](0, vy[1])
            bad = PRED[pr](1, vy[1])
        else:   # fputs, fprintf, fputc: negative on failure
            if vy is None or vy[0] != "c":
                S.io[site] = "unknown"
                return None
            k = vy[1]
            if site[2] in ("fputs", "fputc", "putc"):
                bad = PRED[pr](-1, k)
            else:
                bad = PRED[pr](-1, k)
            ok = any(PRED[pr](r, k) for r in (0, 1, 5))
        if not ok and not bad:
            return False
        if st.startswith("fail") and not bad:
            return False
        if name in ("ferror", "feof"):
            if not bad:
                for q in list(S.io):
                    if q[2] == "fclose":
                        continue
                    have = set(S.io[q].split("+")[1:]) | {name}
                    full = have == {"ferror", "feof"} or (q[2] != "fread" and name == "ferror")
                    if S.io[q].startswith("fail"):
                        if full:
                            return False
                        S.io[q] = "+".join(["fail"] + sorted(have))
                        continue
                    if q[2] in ("ferror", "feof") or have == {"ferror", "feof"} or (q[2] != "fread" and name == "ferror"):
                        del S.io[q]
                    else:
                        S.io[q] = "+".join(["open"] + sorted(have))
            elif not ok:
                S.io[site] = "fail"
            return True
        if not bad:
            del S.io[site]
        elif not ok:
            S.io[site] = "fail"
        return True

    # ---- one instruction
    def step(s, fn, F, b, ins, S):
        op = ins.op
        if ins.res:
            S.env.pop(ins.res, None)
        if op == "alloca":
            if repr(ins.ty) == '%"class.il::Status"':
                S.env[ins.res] = ("S", ins.res)
                S.st.pop(ins.res, None)
            else:
                S.env[ins.res] = ("A", ins.res, 0)
            return [S]
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
            a = s.val(S, ins.a[0])
            if a is not None:
                S.env[ins.res] = a
            return [S]
        if op in ("zext", "sext", "trunc"):
            a = s.val(S, ins.a[0])
            if a is not None and a[0] == "c":
                w = ins.ty.w
                c = a[1]
                if op == "zext" and ins.x.w < 64:
                    c &= (1 << ins.x.w) - 1
                if op == "trunc":
                    c &= (1 << w) - 1
                    if w > 1 and c >= 1 << (w - 1):
                        c -= 1 << w
                S.env[ins.res] = ("c", c)
            elif a is not None and a[0] == "F":
                S.env[ins.res] = a
            return [S]
        if op == "getelementptr":
            base = s.val(S, ins.a[0][1])
            if base is None and ins.a[0][1][0] == "r" and ins.a[0][1][1] == F.params[0][1] if F.params else False:
                base = ("A", "this", 0)
            if base is not None and base[0] == "A":
                off = s.gepoff(ins, S)
                if off is not None:
                    S.env[ins.res] = ("A", base[1], base[2] + off)
            return [S]
        if op == "load":
            p = s.ptr(F, S, ins.a[0])
            if p is not None and (p[1], p[2]) in S.cell:
                S.env[ins.res] = S.cell[(p[1], p[2])]
            return [S]
        if op == "store":
            p = s.ptr(F, S, ins.a[1])
            a = s.val(S, ins.a[0])
            if p is not None:
                if a is not None and a[0] in ("c", "F", "IO", "IOX"):
                    S.cell[(p[1], p[2])] = a
                else:
                    S.cell.pop((p[1], p[2]), None)
            elif a is not None and a[0] == "F":
                S.fi.pop(a[1], None)    # escapes to memory that is not followed
            return [S]
        if op == "icmp":
            va, vb = s.val(S, ins.a[0]), s.val(S, ins.a[1])
            if va is not None and vb is not None and va[0] == "c" and vb[0] == "c":
                S.env[ins.res] = ("c", int(PRED[ins.x](va[1], vb[1])))
            return [S]
        if op in ("xor", "and", "or"):
            va, vb = s.val(S, ins.a[0]), s.val(S, ins.a[1])
            if va is not None and vb is not None and va[0] == "c" and vb[0] == "c":
                c = {"xor": va[1] ^ vb[1], "and": va[1] & vb[1], "or": va[1] | vb[1]}[op]
                S.env[ins.res] = ("c", c & 1 if ins.ty.w == 1 else c)
                return [S]
            elif op == "and" and (va == ("c", 0) or vb == ("c", 0)):
                S.env[ins.res] = ("c", 0)
                return [S]
            if ins.ty.w == 1:
                return [S]
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr") or op in ("and", "or", "xor"):
            for v in ins.a[:2]:
                site = s.iocall(fn, S, v) or s.iocall(fn, S, v, "IOX")
                if site is not None:
                    S.env[ins.res] = ("IOX", site)
            return [S]
        if op == "select":
            outs = []
            for want in (1, 0):
                Y = s.assume(fn, S.copy(), ins.a[0], want)
                if Y is not None:
                    a = s.val(Y, ins.a[1] if want else ins.a[2])
                    if a is not None:
                        Y.env[ins.res] = a
                    outs.append(Y)
            return outs
        if op == "call":
            return s.call(fn, F, ins, S)
        return [S]

    def ptr(s, F, S, v):
        a = s.val(S, v)
        if a is not None and a[0] == "A":
            return a
        if a is None and v[0] == "r" and F.params and v[1] == F.params[0][1]:
            return ("A", "this", 0)
        return None

    def gepoff(s, ins, S):
        m = s.u.m
        t = ins.ty
        off = 0
        for j, (ty, v) in enumerate([(a[0], a[1]) for a in ins.a[1:]]):
            if v[0] != "i":
                return None
            if j == 0:
                off += v[1] * m.size(t)
            elif t.k == "struct":
                off += m.field_off(t, v[1])
                t = t.el[v[1]]
            elif t.k in ("array", "vector"):
                off += v[1] * m.size(t.el)
                t = t.el
            else:
                return None
        return off

    def need(s, fn, ins, S, what, ok, kind, msg, obj=""):
        s.obl.add((short(s.u.name(fn)), s.u.m.loc(ins.dbg)[1] if ins.dbg else 0, what))
        if not ok:
            s.rep(kind, fn, ins, msg, S)
        return ok

    def call(s, fn, F, ins, S):
        c = ins.x
        if not c.startswith("@"):
            return s.opaque(fn, F, ins, S)
        nm = s.u.name(c)
        base = c.lstrip("@")
        m = re.match(r"il::Status::(~?\w+|operator=)\(", nm)
        if m:
            return s.status_op(fn, ins, S, m.group(1), nm)
        if base in ("_ZN2il5abortEv", "abort", "exit", "_Exit", "_ZSt9terminatev", "__cxa_pure_virtual"):
            return []
        if base.startswith("llvm."):
            return [S]
        if base in ("fopen", "fopen64", "fdopen", "freopen"):
            fid = ins.res
            if S.fi.get(fid) == "open":
                s.need(fn, ins, S, "leak", False, "file-leaked", "the stream opened here is opened again while still open")
            S.fi[fid] = "maybe"
            S.env[fid] = ("F", fid)
            return [S]
        if base == "fclose":
            a = s.val(S, ins.a[0][1])
            if a is not None and a[0] == "F" and a[1] in S.fi:
                st = S.fi[a[1]]
                s.need(fn, ins, S, "fclose", st == "open", "file-close", {"closed": "fclose of a stream that is already closed", "null": "fclose of a stream that could not be opened",
                                                                      "maybe": "fclose of a stream that was not tested for null"}.get(st, ""))
                S.fi[a[1]] = "closed"
            s.iosite(fn, ins, S, "fclose", "0")
            return [S]
        if base in STREAM_ARG:
            j = STREAM_ARG[base]
            if j < len(ins.a):
                a = s.val(S, ins.a[j][1])
                if a is not None and a[0] == "F" and a[1] in S.fi:
                    st = S.fi[a[1]]
                    s.need(fn, ins, S, "use", st == "open", "file-use", "%s on a stream that %s" % (base, {"closed": "is closed", "null": "could not be opened", "maybe": "was not tested for null"}.get(st, "")))
            if base in ("fread", "fwrite"):
                s.iosite(fn, ins, S, base, s.key(fn, ins.a[2][1]), s.key(fn, ins.a[1][1]))
            elif base in ("rewind", "clearerr"):
                s.retry(S)
            elif base in ("fputs", "fprintf", "fputc", "putc", "fflush", "fseek"):
                s.iosite(fn, ins, S, base, "0")
            elif base in ("ferror", "feof") and ins.res:
                l = s.u.m.loc(ins.dbg)
                site = (fn, ins.res, base, "0", l[1], "")
                if S.io:
                    S.io[site] = "query"
                    S.env[ins.res] = ("IO", site)
            return [S]
        f = s.u.fn(c) if s.u.m.has(c) else None
        tracked = []
        for i, a in enumerate(ins.a):
            v = s.val(S, a[1])
            if v is not None and v[0] in ("S", "F"):
                if v[0] == "S" and v[1] not in S.st:
                    S.st[v[1]] = N0
                tracked.append((i, v))
        if f is None:
            return s.opaque(fn, F, ins, S, tracked)
        io_inside = s.u.file_params(c) or s.uses_io(c)
        if not tracked and not io_inside:
            return s.opaque(fn, F, ins, S, tracked)
        stat, file, const = [], [], []
        for i, v in tracked:
            if v[0] == "S":
                stat.append((i, S.st[v[1]]))
            elif v[1] in S.fi:
                file.append((i, S.fi[v[1]]))
        for i, a in enumerate(ins.a):
            v = s.val(S, a[1])
            if v is not None and v[0] == "c" and a[0].k == "int":
                const.append((i, v[1]))
        if not stat and not file and not io_inside:
            return s.opaque(fn, F, ins, S, tracked)
        outs = s.run(c, (tuple(stat), tuple(file), tuple(const), tuple(sorted(S.io.items(), key=repr))))
        res = []
        tr = S.tr
        l = s.u.m.loc(ins.dbg) if ins.dbg else None
        for (rv, st, fi, io) in sorted(outs, key=repr):
            X = S.copy()
            for i, x in st:
                v = s.val(S, ins.a[i][1])
                X.st[v[1]] = x
            for i, x in fi:
                v = s.val(S, ins.a[i][1])
                if x is None:
                    X.fi.pop(v[1], None)
                else:
                    X.fi[v[1]] = x
            X.io = dict(io)
            if ins.res and rv is not None:
                X.env[ins.res] = rv
            if l and l[0]:
                X.tr = (l, tr)
            s.clobber(c, F, ins, X)
            res.append(X)
        return res

    def clobber(s, c, F, ins, X):
        """cells of objects whose address the callee receives"""
        for a in ins.a:
            p = s.ptr(F, X, a[1]) if a[0].k == "ptr" else None
            if p is not None:
                for q in list(X.cell):
                    if q[0] == p[1]:
                        v = X.cell[q]
                        if v[0] == "F" and not (c.startswith("@") and s.u.m.has(c) and s.u.closes(c)):
                            continue
                        del X.cell[q]

    def uses_io(s, f, seen=None):
        k = ("io", f)
        if k in s.u._info:
            return s.u._info[k]
        s.u._info[k] = False
        r = False
        fnn = s.u.fn(f)
        if fnn:
            for B in fnn.blocks.values():
                for i in B.ins:
                    if i.op == "call" and i.x.startswith("@"):
                        if i.x.lstrip("@") in STREAM_ARG or i.x.lstrip("@") in ("fclose", "fopen"):
                            r = True
                        elif s.u.m.has(i.x) and s.uses_io(i.x):
                            r = True
        s.u._info[k] = r
        return r

    def opaque(s, fn, F, ins, S, tracked=()):
        for i, v in tracked:
            if v[0] == "S":
                if s.prop == "R01" or True:
                    s.und[(short(s.u.name(fn)), short(s.u.name(ins.x)))] = "status passed to a function without a body here"
                raise Quit("a status is passed to %s, whose body is not part of the unit" % short(s.u.name(ins.x)))
            if v[0] == "F":
                S.fi.pop(v[1], None)
        s.clobber(ins.x, F, ins, S)
        return [S]

    def retry(s, S):
        """the position of the stream is set again: what was read before is read again"""
        for q in list(S.io):
            if q[2] == "fread":
                del S.io[q]

    def iosite(s, fn, ins, S, name, cnt, size=""):
        l = s.u.m.loc(ins.dbg) if ins.dbg else ("?", 0)
        if ins.x.startswith("@") and name in ("fread", "fwrite"):
            pass
        site = (fn, ins.res, name, cnt, l[1], size)
        if name in ("fseek",):
            s.retry(S)
            return
        s.obl.add((short(s.u.name(fn)), l[1], name + " result"))
        if not S.io.get(site, "").startswith("fail"):
            S.io[site] = "open"
        if ins.res:
            S.env[ins.res] = ("IO", site)

    # ---- Status operations
    def status_op(s, fn, ins, S, op, nm):
        ctor = op == "Status"
        a = s.val(S, ins.a[0][1]) if ins.a else None
        if op == "operator=" or (ctor and "&&" in nm):
            src = s.val(S, ins.a[1][1])
            if a is None or a[0] != "S":
                return [S]
            if op == "operator=":
                cur = S.st.get(a[1], N0)
                s.need(fn, ins, S, "move into", cur[0] == 0, "status-pending", "a status is moved into one that has not been examined")
            x = S.st.get(src[1], N0) if src is not None and src[0] == "S" else N0
            S.st[a[1]] = (1, x[1])
            if src is not None and src[0] == "S":
                S.st[src[1]] = (0, x[1])
            if ins.res:
                S.env[ins.res] = a
            return [S]
        if a is None or a[0] != "S":
            if op in ("domain",):
                return [S]
            return [S]
        o = a[1]
        if ctor:
            S.st[o] = N0
            return [S]
        cur = S.st.get(o, N0)
        if op == "~Status":
            s.need(fn, ins, S, "destruction", cur[0] == 0, "status-dropped", "a status is destroyed before it was examined")
            S.st.pop(o, None)
            return [S]
        if op in ("SetOk", "SetError"):
            s.need(fn, ins, S, op, cur[0] == 0, "status-pending", "%s on a status that was set and not examined" % op)
            S.st[o] = PO if op == "SetOk" else PE
            return [S]
        if op in ("SetInfo", "setSource"):
            good = s.need(fn, ins, S, op, cur[0] == 1, "status-info", "%s on a status that was not set" % op)
            if good:
                s.need(fn, ins, S, op, cur[1] != "o", "status-info", "%s on a status that was set to ok" % op)
            return [S]
        if op == "Rearm":
            s.need(fn, ins, S, op, cur[0] == 0, "status-pending", "Rearm on a status that was set and not examined")
            S.st[o] = (1, cur[1])
            return [S]
        if op in ("IgnoreError",):
            s.need(fn, ins, S, op, cur[0] == 1, "status-unset", "%s on a status that was not set" % op)
            S.st[o] = (0, cur[1])
            return [S]
        if op == "AbortOnError":
            s.need(fn, ins, S, op, cur[0] == 1, "status-unset", "%s on a status that was not set" % op)
            S.st[o] = NO
            return [S] if cur[1] != "e" else []
        if op == "Ok":
            s.need(fn, ins, S, op, cur[0] == 1, "status-unset", "Ok on a status that was not set")
            res = []
            for r, x in ((1, "o"), (0, "e")):
                if cur[1] in ("?", x):
                    X = S.copy()
                    X.st[o] = (0, x)
                    if ins.res:
                        X.env[ins.res] = ("c", r)
                    res.append(X)
            return res
        if op == "error":
            s.need(fn, ins, S, op, cur[0] == 0, "status-pending", "error() of a status that was not examined")
            return [S]
        return [S]

    # ---- return
    def ret(s, fn, F, t, S, outs):
        rv = s.val(S, t.a[0]) if t.a else None
        # streams that were opened here
        escaped = set()
        for (base, off), v in S.cell.items():
            if v[0] == "F" and base == "this" and s.owner_closes(fn):
                escaped.add(v[1])
        if rv is not None and rv[0] == "F":
            escaped.add(rv[1])
        for fid, st in S.fi.items():
            if fid.startswith("p"):
                continue
            s.obl.add((short(s.u.name(fn)), 0, "stream %s closed at return" % fid))
            if st == "open" and fid not in escaped:
                s.rep("file-leaked", fn, t if not S.tr else None, "this path returns without closing the stream opened in this function", S)
        for r, v in S.env.items():
            pass
        sp = s.u.status_params(fn)
        stat = []
        fin = []
        for o, x in S.st.items():
            if o.startswith("p"):
                stat.append((int(o[1:]), x))
            elif x[0] == 1 and False:
                s.rep("status-dropped", fn, t, "a local status is not examined", S)
        for o, x in S.fi.items():
            if o.startswith("p"):
                fin.append((int(o[1:]), x))
        if rv is not None and rv[0] not in ("c", "IO"):
            rv = None
        keep = S.env
        S.env = {"ret": rv} if rv is not None else {}
        S.cell = {}
        s.lose(S)
        outs.add((rv, tuple(sorted(stat)), tuple(sorted(fin)), tuple(sorted(S.io.items(), key=repr))))
        if len(s.stack) == 1:
            s.exit(fn, F, t, S)

    def owner_closes(s, fn):
        """does the destructor of the class of this member function close a stream?"""
        nm = s.u.name(fn).split("(")[0]
        cls = nm.rsplit("::", 1)[0]
        last = cls.rsplit("::", 1)[-1]
        for f in s.u.m.names():
            if s.u.name(f).startswith("%s::~%s(" % (cls, last)):
                # a class whose destructor is written takes responsibility: it closes, or requires Close to have been called
                return True
        return False

    def exit(s, fn, F, t, S):
        for i in s.u.status_params(fn):
            x = S.st.get("p%d" % i)
            if x is None:
                continue
            s.obl.add((short(s.u.name(fn)), 0, "status set at return"))
            if x[0] == 0:
                s.rep("status-unset", fn, t if not S.tr else None, "this path returns without having set the status it was given", S)
            elif x[1] == "o":
                for site, st in sorted(S.io.items(), key=repr):
                    if site[0].startswith("lost "):
                        site = (site[0][5:],) + site[1:]
                    if st.startswith(("open", "fail")):
                        what = "failed" if st.startswith("fail") else "may have failed (its result is not examined)"
                        s.repio(site, fn, what, S)

    def swapped(s, site, fn, S):
        nm = s.u.name(site[0])
        k = ("io-swapped", short(nm), site[2], site[4])
        if k in s.viol:
            return
        F = s.u.fn(site[0])
        file = s.u.m.loc(next((i.dbg for B in F.blocks.values() for i in B.ins if i.op == "call" and i.res == site[1]), None))[0]
        s.viol[k] = dict(key="%s|io-swapped|%s" % (short(nm), site[2]), kind="io-swapped", fn=nm, file=file, line=site[4], case=s.root,
                         msg="the number of objects returned by %s is compared with the size of one object" % site[2], witness="", stack=[])

    def repio(s, site, fn, what, S):
        nm = s.u.name(site[0])
        k = ("io", short(nm), site[2], site[4])
        if k in s.viol:
            return
        F = s.u.fn(site[0])
        file = s.u.m.loc(next((i.dbg for B in F.blocks.values() for i in B.ins if i.op == "call" and i.res == site[1]), None))[0]
        s.viol[k] = dict(key="%s|io-result|%s" % (short(nm), site[2]), kind="io-result", fn=nm, file=file, line=site[4], case=s.root,
                         msg="%s reports ok on a path on which %s %s" % (short(s.u.name(fn)), site[2], what), witness="", stack=[])


def short(nm):
    # name without parameters and without blanks in template arguments
    d = 0
    out = ""
    for c in nm:
        if c == "(" and d == 0:
            break
        if c == "<":
            d += 1
        if c == ">":
            d -= 1
        out += c
    return out.strip().split(" ")[-1] if "<" not in out else out.strip()


# ---------------------------------------------------------------------------------------------------------------------
INC = """#include <cstdio>
#include <il/core.h>
#include <il/Status.h>
"""
UNITS = [
    ("toml", INC + """#include <il/toml.h>
#include <il/io/toml/toml.cpp>
void ilv_a(const il::String& f, const il::Map<il::String, il::Dynamic>& m, il::Status& s) { il::SaveHelper<il::Map<il::String, il::Dynamic>>::save(m, f, il::io, s); }
void ilv_b(const il::String& f, const il::MapArray<il::String, il::Dynamic>& m, il::Status& s) { il::SaveHelperToml<il::MapArray<il::String, il::Dynamic>>::save(m, f, il::io, s); }
void ilv_c(const il::String& f, il::Status& s) { auto m = il::LoadHelperToml<il::MapArray<il::String, il::Dynamic>>::load(f, il::io, s); }
"""),
    ("numpy", INC + """#include <il/numpy.h>
#include <il/io/numpy/numpy.cpp>
template class il::SaveHelper<il::Array<double>>;
template class il::SaveHelper<il::Array2D<double>>;
template class il::LoadHelper<il::Array<double>>;
template class il::LoadHelper<il::Array<int>>;
template class il::LoadHelper<il::Array2D<double>>;
void ilv_a(const il::String& f, il::Status& s) { auto m = il::LoadHelper<il::SparseMatrixCSR<il::int_t, double>>::load(f, il::io, s); }
void ilv_b(const il::String& f, il::Status& s) { auto m = il::load<il::Array<double>>(f, il::io, s); }
void ilv_c(const std::string& f, il::Status& s) { auto m = il::load<il::Array<double>>(f, il::io, s); }
void ilv_d(const il::Array<double>& v, const il::String& f, il::Status& s) { il::save(v, f, il::io, s); }
"""),
    ("filepack", INC + """#include <iostream>
#include <il/io/filepack/filepack.h>
void ilv_a(const il::String& f, const il::MapArray<il::String, il::Dynamic>& m, il::Status& s) { il::SaveHelperData<il::MapArray<il::String, il::Dynamic>>::save(m, f, il::io, s); }
void ilv_b(const il::String& f, il::Status& s) { auto m = il::LoadHelperData<il::MapArray<il::String, il::Dynamic>>::load(f, il::io, s); }
void ilv_c(const il::String& f, il::Status& s) { auto m = il::LoadHelperData<il::Map<il::String, il::Dynamic>>::load(f, il::io, s); }
"""),
    ("file", INC + """#include <il/io/File.h>
void ilv_a(const il::String& f, il::Status& s, il::Status& t, void* p) { il::File x{f, il::FileMode::Read, il::io, s}; x.Read(1, 4, il::io, p, t); }
void ilv_b(il::File& x, double* p, il::Status& s) { x.Read<4>(il::io, p, s); }
void ilv_c(il::File& x, const void* p, il::Status& s) { x.Write(p, 3, 8, il::io, s); }
void ilv_d(il::File& x, il::Status& s) { x.Close(il::io, s); }
void ilv_f(const il::String& f, il::Status& s) { il::File x{f, il::FileMode::Read, 7, il::io, s}; }
"""),
    ("ppm", INC + """#include <il/io/ppm/ppm.h>
void ilv_a(const std::string& f, il::Status& s) { auto m = il::readPpm(f, il::io, s); }
"""),
    ("dense", INC + """#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
void ilv_a(il::Array2D<double>& A, il::Array<double>& y, il::Status& s) { auto x = il::linearSolve(A, y, il::io, s); }
void ilv_b(il::Array2C<double>& A, il::Array<double>& y, il::Status& s) { auto x = il::linearSolve(A, y, il::io, s); }
void ilv_c(il::BandArray2C<double>& A, il::Array<double>& y, il::Status& s) { auto x = il::linearSolve(A, y, il::io, s); }
void ilv_d(il::TriDiagonal<double>& A, il::Array<double>& y, il::Status& s) { auto x = il::linearSolve(A, y, il::io, s); }
void ilv_e(il::Array2D<double>& A, il::Status& s) { il::LU<il::Array2D<double>> x{A, il::io, s}; }
void ilv_g(il::Array2D<double>& A, il::Status& s) { il::Eigen<il::Array2D<double>> x{A, il::io, s}; }
void ilv_h(il::StaticArray2D<double, 3, 3>& A, il::Status& s) { il::LU<il::StaticArray2D<double, 3, 3>> x{A, il::io, s}; }
void ilv_i(il::StaticArray2D<std::complex<double>, 3, 3>& A, il::Status& s) { il::LU<il::StaticArray2D<std::complex<double>, 3, 3>> x{A, il::io, s}; }
"""),
    ("svd", INC + """#include <il/linearAlgebra/dense/factorization/Singular.h>
void ilv_a(const il::StaticArray2D<double, 3, 3>& A, il::Status& s) { auto x = il::singularValues(A, il::io, s); }
void ilv_b(const il::StaticArray2D<std::complex<double>, 3, 3>& A, il::Status& s) { auto x = il::singularValues(A, il::io, s); }
"""),
    ("free", INC + """#include <il/linearAlgebra/matrixFree/solver/Cg.h>
#include <il/linearAlgebra/matrixFree/solver/Gmres.h>
void ilv_a(il::Cg<double>& c, const il::Array<double>& y, il::Status& s) { auto x = c.Solve(y, il::io, s); }
void ilv_b(il::Gmres<double>& c, il::ArrayView<double> y, il::ArrayEdit<double> x, il::Status& s) { c.Solve(y, 1.0e-6, 100, il::io, x, s); }
"""),
]


def unit(src, name, flags=()):
    return Unit(compile_ir(src, name, list(flags)))


def build(name, src):
    """drop driver lines that do not compile; -> (unit or None, dropped)"""
    lines = src.split("\n")
    try:
        return unit(src, "ts_" + name), []
    except BuildError as e:
        err = str(e)
    head = [l for l in lines if not re.match(r"void ilv_|template class", l)]
    body = [l for l in lines if re.match(r"void ilv_|template class", l)]
    good, bad = [], []
    for l in body:
        try:
            unit("\n".join(head + [l]) + "\n", "ts_" + name)
            good.append(l)
        except BuildError as e:
            bad.append((l.split(" ")[1], (re.findall(r"error: .*", str(e)) or [str(e)[-200:]])[0]))
    if not good:
        return None, bad or [(name, err[-300:])]
    return unit("\n".join(head + good) + "\n", "ts_" + name), bad


def candidates(u):
    """functions of the library that handle a status or open a stream"""
    out = []
    for f in u.m.names():
        nm = u.name(f)
        head = nm.split("(")[0]
        if "il::" not in head or re.match(r"(void )?il::Status::", nm) or "ilv_" in head:
            continue
        fn = u.fn(f)
        own = bool(u.status_params(f))
        calls = {}
        for B in fn.blocks.values():
            for i in B.ins:
                if i.op == "alloca" and repr(i.ty) == '%"class.il::Status"':
                    own = True
                if i.op == "call" and i.x.lstrip("@") in ("fopen", "fopen64"):
                    own = True
        if own:
            out.append(f)
    return out


KINDS = {"R01": ("status-",), "R02": ("file-", "io-")}


def run(prop, tier):
    from concurrent.futures import ThreadPoolExecutor
    viol, und, samples = [], [], []
    obl, fns = set(), set()
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda ns: (ns[0],) + build(*ns), UNITS))
    roots_n = 0
    steps = 0
    for name, u, bad in built:
        for b, why in bad:
            und.append(dict(case="%s: %s" % (name, b), why="does not compile: " + why))
        if u is None:
            continue
        cand = candidates(u)
        called = set()
        for f in cand:
            for B in u.fn(f).blocks.values():
                for i in B.ins:
                    if i.op == "call" and i.x in cand and i.x != f:
                        called.add(i.x)
        roots = [f for f in cand if f not in called] + [f for f in cand if f in called]
        e = Explorer(u, prop)
        done = set()
        for f in roots:
            if f in called and f in e.fns:
                continue
            e.root = short(u.name(f))
            e.steps = 0
            roots_n += 1
            try:
                sp = u.status_params(f)
                fp = u.file_params(f)
                e.run(f, (tuple((i, N0) for i in sp), tuple((i, "open") for i in fp), (), ()))
            except Quit as q:
                und.append(dict(case="%s: %s" % (name, short(u.name(f))), why=str(q)))
                e.stack = []
            steps += e.steps
        for f in e.recursive:
            for (g, entry), outs in e.memo.items():
                if g == f and any(x[0] == 0 for o in outs for _, x in o[1]):
                    k = ("status-unset", f)
                    if k not in e.viol:
                        e.viol[k] = dict(key="%s|status-unset|" % short(u.name(f)), kind="status-unset", fn=u.name(f), file=u.m.loc(u.fn(f).dbg)[0] if u.fn(f).dbg else "?", line=0, case=short(u.name(f)),
                                         msg="a path through this recursive function returns without having set the status it was given", witness="", stack=[])
        for v in e.viol.values():
            if v["kind"].startswith(KINDS[prop]):
                viol.append(v)
        want = {"R01": lambda w: not w.startswith(("stream", "fclose", "use", "fread", "fwrite", "fputs", "fprintf")), "R02": lambda w: w.startswith(("stream", "fclose", "use", "fread", "fwrite", "fputs", "fprintf", "leak"))}[prop]
        mine = {o for o in e.obl if want(o[2])}
        obl |= {(name,) + o for o in mine}
        fns |= {short(u.name(f)) for f in e.fns}
    for o in sorted(obl)[:: max(1, len(obl) // 6)][:6]:
        samples.append(dict(unit=o[0], function=o[1], line=o[2], obligation=o[3]))
    seen = {}
    for v in viol:
        seen.setdefault((v["key"], v["msg"], v["line"]), v)
    viol = list(seen.values())
    nf = len({(v["fn"], v["line"]) for v in viol})
    cov = dict(rule=__doc__.split("\n\n")[1 if prop == "R01" else 2] if False else {"R01": "status protocol on every path", "R02": "stream protocol and examined results on every path"}[prop],
               units=[n for n, u, b in built if u], roots=roots_n, functions=len(fns), path_steps=steps, obligations=len(obl), discharged=max(0, len(obl) - nf), samples=samples, function_names=sorted(fns))
    return viol, cov, und


if __name__ == "__main__":
    import time
    t0 = time.time()
    v, c, u = run(sys.argv[1], "quick")
    for x in v:
        print("VIOL", x["key"], x["line"], x["msg"][:150], "|", x["witness"][:200])
    print({k: x for k, x in c.items() if k not in ("function_names",)})
    for x in u:
        print("UND", x)
    print(time.time() - t0)
