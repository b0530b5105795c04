"""il::Map: the table is analysed at a fixed (small) number of buckets with abstract contents. Keys, values and hash
functions are opaque: the policy class F is only known through its interface, so every hash function and every
collision pattern is covered. Buckets of the initial table are materialised when they are first looked at."""
from harness import *
from absint import *

PRE = '''
#include <il/Map.h>
struct Key { Key(const char (&)[4]); Key(const char*, il::int_t); Key(const Key&); Key(Key&&); Key& operator=(const Key&); Key& operator=(Key&&); ~Key(); long v; };
struct Val { Val(); Val(const Val&); Val(Val&&); Val& operator=(const Val&); Val& operator=(Val&&); ~Val(); long v; };
struct HF { static bool isEmpty(const Key&); static bool isTombstone(const Key&); static void constructEmpty(il::io_t, Key*);
  static void constructTombstone(il::io_t, Key*); static std::size_t hash(const Key&, int p); static bool isEqual(const Key&, const Key&);
  static bool isEmpty(const char (&)[4]); static bool isTombstone(const char (&)[4]); static std::size_t hash(const char (&)[4], int p); static std::size_t hash(const char*, il::int_t, int p);
  static bool isEqual(const Key&, const char (&)[4]); static bool isEqual(const Key&, const char*, il::int_t); };
typedef il::Map<Key, Val, HF> M;
'''
CLS = "il::Map<Key,Val,HF>"


class Gh:
    """specification state: what every key/value slot holds"""
    __slots__ = ("cell", "lazy", "hash", "rel", "alias", "n", "absent", "full")

    def __init__(s):
        s.cell, s.lazy, s.hash, s.rel, s.alias, s.n, s.absent, s.full = {}, {}, {}, {}, {}, 0, frozenset(), {}

    def copy(s):
        t = Gh.__new__(Gh)
        t.cell, t.lazy, t.hash, t.rel, t.alias = dict(s.cell), dict(s.lazy), dict(s.hash), dict(s.rel), dict(s.alias)
        t.n, t.absent, t.full = s.n, s.absent, s.full
        return t

    def id(s, a):
        while a in s.alias:
            a = s.alias[a]
        return a


def where(E, st, p, what):
    """-> (oid, off) or None (reported)"""
    if not isinstance(p, Ptr):
        raise Unsupported("%s through an unknown pointer" % what)
    if p.o is None:
        E.violate(st, "null", "%s a slot at a null pointer" % what)
        return None
    o = st.objs.get(p.o)
    if o is None and p.o in E.gone:
        E.violate(st, "uaf", "%s a local variable of a function that has returned" % what)
        return None
    if o is None:
        raise Unsupported("%s a slot of an unknown object" % what)
    c = p.off.const()
    if c is None:
        raise Unsupported("%s a slot at an unknown offset" % what)
    if not o.alive:
        E.violate(st, "uaf", "%s a slot of storage that was released" % what)
        return None
    if o.size is not None and o.size.const() is not None and not (0 <= c and c + 8 <= o.size.const()):
        E.violate(st, "bounds", "%s a slot outside the buckets" % what)
        return None
    return (p.o, c)


def slot(E, st, p, what):
    """-> list of (st, (oid, off), state); lazily materialises the initial table"""
    w = where(E, st, p, what)
    if w is None:
        return []
    g = st.gh
    s_ = g.cell.get(w)
    if s_ is not None:
        return [(st, w, s_)]
    if w[0] in g.lazy:
        return [(x, w, x.gh.cell[w]) for x in materialise(st, w[0], w[1] // 16)]
    return [(st, w, ("raw",))]


def materialise(st, oid, b):
    out = []
    for k, tag in enumerate("ETF"):
        if st.gh.lazy[oid][k] <= 0:
            continue
        x = st.fork()
        g = x.gh
        rem = list(g.lazy[oid])
        rem[k] -= 1
        g.lazy[oid] = tuple(rem)
        if tag == "F":
            g.cell[(oid, 16 * b)] = ("L", "t%s_%d" % (oid, b))
            g.cell[(oid, 16 * b + 8)] = ("L", "w%s_%d" % (oid, b))
        else:
            g.cell[(oid, 16 * b)] = (tag,)
            g.cell[(oid, 16 * b + 8)] = ("raw",)
        out.append(x)
    return out


def settle(st, oid, m):
    """materialise every bucket of the table"""
    out = [st]
    for b in range(m):
        nxt = []
        for x in out:
            if (oid, 16 * b) in x.gh.cell:
                nxt.append(x)
            else:
                nxt += materialise(x, oid, b)
        out = nxt
    return out


def live(E, st, p, what):
    out = []
    for x, w, s_ in slot(E, st, p, what):
        if s_[0] == "L":
            out.append((x, w, s_[1]))
        else:
            E.violate(x, "life", "%s %s" % (what, {"E": "an empty bucket", "T": "a tombstone", "D": "a destroyed object", "raw": "a slot that holds no object"}[s_[0]]))
    return out


def construct(E, st, p, idv, what):
    out = []
    for x, w, s_ in slot(E, st, p, what):
        if s_[0] == "L":
            E.violate(x, "life", "%s over a live object" % what)
            continue
        x = x.fork()
        x.gh.cell[w] = ("L", idv)
        out.append((x, None))
    return out


def m_default(E, st, name, args):
    return construct(E, st, args[0], "default", "constructing")


def m_copy(E, st, name, args):
    out = []
    for x, w, i in live(E, st, args[1], "copying from"):
        out += construct(E, x, args[0], i, "constructing")
    return out


def m_move(E, st, name, args):
    out = []
    for x, w, i in live(E, st, args[1], "moving from"):
        for y, r in construct(E, x, args[0], i, "constructing"):
            y.gh.cell[w] = ("L", "moved")
            out.append((y, r))
    return out


def m_assign(move):
    def f(E, st, name, args):
        out = []
        for x, w, i in live(E, st, args[1], "assigning from"):
            for y, w2, j in live(E, x, args[0], "assigning to"):
                y = y.fork()
                if move:
                    y.gh.cell[w] = ("L", "moved")
                y.gh.cell[w2] = ("L", i)
                out.append((y, args[0]))
        return out
    return f


def m_dtor(E, st, name, args):
    out = []
    for x, w, i in live(E, st, args[0], "destroying"):
        x = x.fork()
        x.gh.cell[w] = ("D",)
        out.append((x, None))
    return out


def m_is(tag):
    def f(E, st, name, args):
        out = []
        for x, w, s_ in slot(E, st, args[0], "testing"):
            if s_[0] in ("raw", "D"):
                E.violate(x, "life", "a bucket is tested before it is marked empty (%s)" % s_[0])
                continue
            out.append((x, s_[0] == tag))
        return out
    return f


def m_mark(tag):
    def f(E, st, name, args):
        out = []
        for x, w, s_ in slot(E, st, args[-1], "marking"):
            if s_[0] == "L":
                E.violate(x, "life", "a bucket is marked %s while its key is alive" % ("empty" if tag == "E" else "as a tombstone"))
                continue
            x = x.fork()
            x.gh.cell[w] = (tag,)
            out.append((x, None))
        return out
    return f


def m_hash(E, st, name, args):
    p = args[-1]
    pc = p.const() if isinstance(p, Poly) else None
    if pc is None:
        raise Unsupported("hash with an unknown number of buckets")
    out = []
    for x, w, i in live(E, st, args[0], "hashing"):
        if i == "moved":
            E.violate(x, "life", "a moved-from key is hashed")
            continue
        if not 0 < pc <= 62:
            E.violate(x, "post", "the hash function is called for 2^%d buckets" % pc)
            continue
        i = x.gh.id(i)
        h = x.gh.hash.get((i, pc))
        if h is not None:
            out.append((x, C(h)))
            continue
        dom = E.hash_dom.get((i, pc)) or (range(1 << pc) if pc <= E.hash_full else sorted({0, 1, (1 << pc) - 1}))
        for h in dom:
            y = x.fork()
            y.gh.hash[(i, pc)] = h
            out.append((y, C(h)))
    return out


def m_equal(E, st, name, args):
    out = []
    for x, w, a in live(E, st, args[0], "comparing"):
        for y, w2, b in live(E, x, args[1], "comparing"):
            if "moved" in (a, b):
                E.violate(y, "life", "a moved-from key is compared")
                continue
            out += same_key(y, a, b)
    return out


def same_key(st, a, b):
    g = st.gh
    a, b = g.id(a), g.id(b)
    if a == b:
        return [(st, True)]
    if a[0] == "t" and b[0] == "t":
        return [(st, False)]
    k = (min(a, b), max(a, b))
    if k in g.rel:
        return [(st, False)]
    out = []
    y = st.fork()
    y.gh.rel[k] = False
    out.append((y, False))
    if (a in g.absent and b[0] == "t") or (b in g.absent and a[0] == "t"):
        return out
    # equal: b becomes another name of a
    if b[0] != "t":
        a, b = b, a
    z = st.fork()
    h = z.gh
    for (i, p), v in list(h.hash.items()):
        if i == a:
            if h.hash.setdefault((b, p), v) != v:
                return out
    for r in list(h.rel):
        if a in r:
            o = r[0] if r[1] == a else r[1]
            if o == b:
                return out
            h.rel[(min(o, b), max(o, b))] = False
    if a in h.absent:
        h.absent = h.absent | {b}
    h.alias[a] = b
    return [(z, True)] + out


PATS = [
    (r"^@_ZN3ValC[12]Ev$", m_default), (r"^@_ZN3(Key|Val)C[12]ERKS_$", m_copy), (r"^@_ZN3KeyC[12]E(PKcl|RA4_Kc)$", m_copy), (r"^@_ZN3(Key|Val)C[12]EOS_$", m_move),
    (r"^@_ZN3(Key|Val)aSERKS_$", m_assign(False)), (r"^@_ZN3(Key|Val)aSEOS_$", m_assign(True)), (r"^@_ZN3(Key|Val)D[12]Ev$", m_dtor),
    (r"^@_ZN2HF7isEmptyE", m_is("E")), (r"^@_ZN2HF11isTombstoneE", m_is("T")), (r"^@_ZN2HF14constructEmptyE", m_mark("E")),
    (r"^@_ZN2HF18constructTombstoneE", m_mark("T")), (r"^@_ZN2HF4hashE", m_hash), (r"^@_ZN2HF7isEqualE", m_equal),
]


def on_free(E, st, o):
    for (oid, off), s_ in st.gh.cell.items():
        if oid == o.id and s_[0] == "L":
            E.violate(st, "leak", "the buckets are released while an element is still alive")
            return
    if o.id in st.gh.lazy and st.gh.lazy[o.id][2] > 0:
        E.violate(st, "leak", "the buckets are released while elements are still alive")


def install(cx, full=2, hd=None):
    E = cx.E
    E.model_pats = [(re.compile(p), f) for p, f in PATS] + Engine.model_pats
    E.unroll_all = 80
    E.max_steps = 5000000
    E.hash_full = full
    E.hash_dom = hd or {}
    E.on_free = lambda st, o: on_free(E, st, o) if st.gh is not None else None
    E.endless = lambda st: E.violate(st, "post", "the search does not end")
    st = cx.st()
    st.gh = Gh()
    return st


def mk(cx, st, p, ne, nt, name="map"):
    """a map with 2^p buckets (none if p < 0), ne elements and nt tombstones"""
    L = cx.lay
    ob, on, ot, op = L.get(CLS, "bucket_", "nb_elements_", "nb_tombstones_", "p_")
    E = cx.E
    o = cx.obj(st, L.size(CLS), name)
    mem = L.by[L.key(CLS)]
    m = 1 << p if p >= 0 else 0
    if p >= 0:
        b = E.new_obj(st, "heap", C(16 * m), "buckets")
        st.gh.lazy[b] = (m - ne - nt, nt, ne)
        st.gh.full[b] = m
        cx.put(st, o, ob, 8, Ptr(b, ZERO))
    else:
        b = None
        cx.put(st, o, ob, 8, Ptr(None, ZERO))
    cx.put(st, o, on, 8, C(ne))
    cx.put(st, o, ot, 8, C(nt))
    cx.put(st, o, op, 4, C(p))
    if "size_" in mem:
        cx.put(st, o, mem["size_"], 8, C(m))
    if "hash_" in mem:
        cx.put(st, o, mem["hash_"], 8, C(12345))
    return Ptr(o, ZERO), b


def raw(cx, st, name):
    o = cx.obj(st, cx.lay.size(CLS), name)
    return Ptr(o, ZERO)


def keyp(cx, st, idv):
    o = cx.obj(st, 8, idv)
    st.gh.cell[(o, 0)] = ("L", idv)
    return Ptr(o, ZERO)


def out8(cx, st, n=1):
    return Ptr(cx.obj(st, 8 * n, "out"), ZERO)


def find(cx, st, mp, k):
    """-> [(st, index Poly or None if not found, value pointer)] by interpreting the map's own search"""
    o = out8(cx, st, 3)
    res = []
    for x, r in cx.call(st, "find", [mp, k, o]):
        for y, v in cx.E.load(x, Ptr(o.o, ZERO), 8, IR.INT(64)):
            c = v.const() if isinstance(v, Poly) else None
            if c is None:
                raise Unsupported("result of the search not determined")
            if c < 0:
                res.append((y, None, None, None))
            else:
                kp = y.objs[o.o].cells.get(8)[2]
                vp = y.objs[o.o].cells.get(16)[2]
                res.append((y, c, kp, vp))
    return res


def ident(cx, st, p, what):
    """identity of the object at p"""
    w = where(cx.E, st, p, what)
    if w is None:
        return None
    s_ = st.gh.cell.get(w)
    if s_ is None or s_[0] != "L":
        cx.fail(st, "life", "%s: no live object there" % what)
        return None
    return st.gh.id(s_[1])


def expect_found(cx, st, mp, k, kid, vid, what):
    for x, c, kp, vp in find(cx, st, mp, k):
        cx.states += 1
        cx.E.curins = None
        if c is None:
            cx.fail(x, "post", "%s: the key is no longer found" % what)
            continue
        a, b = ident(cx, x, kp, what), ident(cx, x, vp, what)
        if a is None or b is None:
            continue
        cx.E.obl += 2
        if a != x.gh.id(kid):
            cx.fail(x, "post", "%s: the search returns another key" % what)
        elif b != x.gh.id(vid):
            cx.fail(x, "post", "%s: the value is not the one that was stored (%s instead of %s)" % (what, b, vid))
        else:
            cx.E.proved += 2


def expect_absent(cx, st, mp, k, what):
    for x, c, kp, vp in find(cx, st, mp, k):
        cx.states += 1
        cx.E.obl += 1
        if c is not None:
            cx.fail(x, "post", "%s: a key that is not in the map is found" % what)
        else:
            cx.E.proved += 1


def field(cx, st, mp, name):
    off, = cx.lay.get(CLS, name)
    c = st.objs[mp.o].cells.get(off)
    return c[2] if c else None


def expect_count(cx, st, mp, ne, what):
    for x, r in cx.call(st, "count", [mp]):
        cx.expect(x, r - ne, "post", "%s: wrong number of elements" % what, True)
    # the table itself agrees with the counters
    b = field(cx, st, mp, "bucket_")
    if isinstance(b, Ptr) and b.o is not None and b.o in st.objs:
        o = st.objs[b.o]
        if o.size is None or o.size.const() is None:
            return
        m = o.size.const() // 16
        for x, r in cx.call(st, "buckets", [mp]):
            cx.expect(x, r - m, "post", "%s: the number of buckets does not match the storage" % what, True)
        F = sum(1 for i in range(m) if st.gh.cell.get((b.o, 16 * i), ("?",))[0] == "L") + (st.gh.lazy[b.o][2] if b.o in st.gh.lazy else 0)
        T_ = sum(1 for i in range(m) if st.gh.cell.get((b.o, 16 * i), ("?",))[0] == "T") + (st.gh.lazy[b.o][1] if b.o in st.gh.lazy else 0)
        cx.expect(st, C(F - ne), "post", "%s: the table holds another number of elements" % what, True)
        for x, r in cx.call(st, "tombs", [mp]):
            cx.expect(x, r - T_, "post", "%s: wrong number of tombstones" % what, True)
        cx.expect(st, C(m - F - T_ - 1), "post", "%s: no bucket is left empty, a search may not end" % what)
    else:
        cx.expect(st, C(ne), "post", "%s: elements without buckets" % what, True)


def destroy(cx, st, maps, allowed=()):
    """destroy the maps: every element exactly once, all storage released"""
    cur = [st]
    for mp in maps:
        nxt = []
        for x in cur:
            nxt += [y for y, r in cx.call(x, "dtor", [mp])]
        cur = nxt
    for x in cur:
        cx.leak_check(x, allowed)


def distinct(st, a, b):
    a, b = st.gh.id(a), st.gh.id(b)
    st.gh.rel[(min(a, b), max(a, b))] = False


def absent(st, k):
    st.gh.absent = st.gh.absent | {st.gh.id(k)}
    return st


# (p, elements, tombstones)
SHAPES = [(-1, 0, 0), (1, 0, 0), (1, 1, 0), (2, 1, 0), (2, 1, 1), (2, 2, 0), (2, 0, 1), (2, 3, 0)]
BIG = [(3, 5, 1), (3, 6, 0), (3, 4, 2)]


def nm(sh):
    return "p%s_%d_%d" % (("m1" if sh[0] < 0 else sh[0]), sh[1], sh[2])


def build():
    g = Group("map", PRE)
    g.life = "L03"
    g.helper("find", "void", "(M* m, Key* k, void** o)", "il::spot_t i = m->search(*k); if (m->found(i)) { ((long*)o)[0] = i.index; o[1] = (void*)&m->key(i); o[2] = (void*)&m->Value(i); } else ((long*)o)[0] = -1;")
    g.helper("count", "il::int_t", "(M* m)", "return m->nbElements();")
    g.helper("tombs", "il::int_t", "(M* m)", "return m->nbTombstones();")
    g.helper("buckets", "il::int_t", "(M* m)", "return m->nbBuckets();")
    g.helper("dtor", "void", "(M* m)", "m->~M();")

    def hd(sh):
        return {}

    def witness_states(cx, st, mp, k, kid, other=True):
        """key kid is looked up; -> (present states with value id, absent states)"""
        pres, absn = [], []
        for x, c, kp, vp in find(cx, st, mp, k):
            if c is None:
                absn.append(absent(x.fork(), kid))
            else:
                pres.append((x, ident(cx, x, vp, "initial value")))
        return pres, absn

    # ---------------------------------------------------------------- Set
    def set_case(form, sh):
        def run(cx):
            st = install(cx, 2 if sh[0] < 2 else 2)
            if sh[0] >= 2:
                cx.E.hash_dom = {("k", sh[0]): [(1 << sh[0]) - 1]}
            mp, b = mk(cx, st, *sh)
            k, q, v = keyp(cx, st, "k"), keyp(cx, st, "q"), keyp(cx, st, "v")
            quiet = cx.E.quiet
            pres, absn = witness_states(cx, st, mp, k, "k")
            todo = [(x, True) for x, _ in pres] + [(x, False) for x in absn]
            for x, was in todo:
                distinct(x, "k", "q")
                qp, qa = witness_states(cx, x, mp, q, "q")
                for y, qv in [(y, qv) for y, qv in qp] + [(y, None) for y in qa]:
                    kv = y.gh.id("k")
                    n0 = len(cx.E.aborts)
                    k2, v2 = k, v
                    for z, r in cx.run(y, [mp, k2, v2]):
                        cx.states += 1
                        kk = keyp(cx, z, "k")        # the argument may have been moved from
                        expect_count(cx, z, mp, sh[1] + (0 if was else 1), "Set")
                        expect_found(cx, z, mp, kk, "k", "v", "Set of a key")
                        if qv is not None:
                            expect_found(cx, z, mp, q, "q", qv, "Set of another key")
                        else:
                            expect_absent(cx, z, mp, q, "Set of another key")
                        destroy(cx, z, [mp])
            cx.no_abort()
        return run
    forms = {"cc": "m->Set(*k, *v);", "cm": "m->Set(*k, std::move(*v));", "mc": "m->Set(std::move(*k), *(const Val*)v);", "mm": "m->Set(std::move(*k), std::move(*v));"}
    spot = "il::spot_t i = m->search(*k); if (m->found(i)) { m->Value(i) = *v; } else { "
    CS, CN = "*(const char(*)[4])k", "(const char*)k, 3"
    cspot = "il::spot_t i = m->searchCString(%s); if (m->found(i)) { m->Value(i) = *v; } else { m->SetCString(%s, *v, il::io, i); if (!m->found(i)) { il::abort(); } }"
    csf = {"sac": "m->SetCString(%s, *v);" % CS, "sam": "m->SetCString(%s, std::move(*v));" % CS, "sasa": cspot % (CS, CS), "sasn": cspot % (CN, CN)}
    forms.update({"s" + f: spot + b.replace(");", ", il::io, i); if (!m->found(i)) { il::abort(); } }", 1) for f, b in list(forms.items())})
    forms.update(csf)
    for f, body in forms.items():
        for sh in SHAPES:
            c = g.case("H01", "set_%s_%s" % (f, nm(sh)), "(M* m, Key* k, Val* v)", body, set_case(f, sh))
            if sh[0] == 2 and f not in ("cc", "mm", "scm") and sh != (2, 1, 1):
                c.tier = "thorough"
            c.cost = 10 if sh == (2, 3, 0) else 2 if sh[0] == 2 else 1

    # the value is one the map holds
    def set_alias(sh):
        def run(cx):
            st = install(cx)
            if sh[0] >= 2:
                cx.E.hash_dom = {("k", sh[0]): [(1 << sh[0]) - 1]}
            mp, b = mk(cx, st, *sh)
            k, q = keyp(cx, st, "k"), keyp(cx, st, "q")
            pres, absn = witness_states(cx, st, mp, q, "q")
            for x, qv in pres:
                kp, ka = witness_states(cx, x, mp, k, "k")
                for y in [y for y, _ in kp] + ka:
                    same = y.gh.id("k") == y.gh.id("q")
                    for z, r in cx.run(y, [mp, k, q]):
                        expect_found(cx, z, mp, k, "k", qv, "Set with a value of the map")
                        expect_found(cx, z, mp, q, "q", qv, "Set with a value of the map")
                        destroy(cx, z, [mp])
            cx.no_abort()
        return run
    for sh in [(1, 1, 0), (2, 1, 1), (2, 2, 0), (2, 3, 0)]:
        c = g.case("H01", "set_alias_" + nm(sh), "(M* m, Key* k, Key* q)", "il::spot_t j = m->search(*q); m->Set(*k, m->value(j));", set_alias(sh))
        c.cost = 8

    # ---------------------------------------------------------------- erase
    def erase_case(sh):
        def run(cx):
            st = install(cx)
            if sh[0] >= 2:
                cx.E.hash_dom = {("k", sh[0]): [(1 << sh[0]) - 1]}
            mp, b = mk(cx, st, *sh)
            k, q = keyp(cx, st, "k"), keyp(cx, st, "q")
            pres, absn = witness_states(cx, st, mp, k, "k")
            for x, _ in pres:
                distinct(x, "k", "q")
                qp, qa = witness_states(cx, x, mp, q, "q")
                for y, qv in qp + [(y, None) for y in qa]:
                    for z, r in cx.run(y, [mp, k]):
                        cx.states += 1
                        expect_count(cx, z, mp, sh[1] - 1, "erase")
                        expect_absent(cx, z, mp, k, "erase")
                        if qv is not None:
                            expect_found(cx, z, mp, q, "q", qv, "erase of another key")
                        else:
                            expect_absent(cx, z, mp, q, "erase of another key")
                        destroy(cx, z, [mp])
            cx.no_abort()
        return run
    for sh in [s_ for s_ in SHAPES if s_[1] > 0] + [(4, 2, 0), (4, 3, 1)]:
        c = g.case("H01", "erase_" + nm(sh), "(M* m, Key* k)", "m->erase(m->search(*k));", erase_case(sh))
        c.cost = 5
        if sh[0] == 4:
            c.tier = "thorough"

    # ---------------------------------------------------------------- Reserve, Clear
    def keep_case(sh, n):
        def run(cx):
            st = install(cx)
            if sh[0] >= 2:
                cx.E.hash_dom = {("q", sh[0]): [(1 << sh[0]) - 1]}
            mp, b = mk(cx, st, *sh)
            q = keyp(cx, st, "q")
            qp, qa = witness_states(cx, st, mp, q, "q")
            for y, qv in qp + [(y, None) for y in qa]:
                for z, r in cx.run(y, [mp]):
                    cx.states += 1
                    expect_count(cx, z, mp, sh[1], "Reserve")
                    if qv is not None:
                        expect_found(cx, z, mp, q, "q", qv, "Reserve")
                    else:
                        expect_absent(cx, z, mp, q, "Reserve")
                    if n is not None:
                        for w, r in cx.call(z, "buckets", [mp]):
                            cx.expect(w, r * 3 - 4 * n, "post", "Reserve makes room for fewer elements than asked")
                    destroy(cx, z, [mp])
            cx.no_abort()
        return run
    for sh in [(-1, 0, 0), (1, 1, 0), (2, 1, 1), (2, 2, 0), (2, 3, 0)]:
        for n in (0, 1, 2, 4, 7):
            c = g.case("H01", "reserve%d_%s" % (n, nm(sh)), "(M* m)", "m->Reserve(%d);" % n, keep_case(sh, n))
            if sh == (2, 3, 0) and n == 7:
                c.tier = "thorough"
    for sh in [(1, 1, 0), (2, 1, 1), (2, 2, 0), (2, 0, 1)]:
        g.case("H01", "rehash_" + nm(sh), "(M* m)", "m->Rehash();", keep_case(sh, None))

    def clear_case(sh):
        def run(cx):
            st = install(cx)
            mp, b = mk(cx, st, *sh)
            q = keyp(cx, st, "q")
            for z, r in cx.run(st, [mp]):
                cx.states += 1
                expect_count(cx, z, mp, 0, "Clear")
                expect_absent(cx, z, mp, q, "Clear")
                destroy(cx, z, [mp])
            cx.no_abort()
        return run
    for sh in SHAPES:
        g.case("H01", "clear_" + nm(sh), "(M* m)", "m->Clear();", clear_case(sh))

    def dtor_case(sh):
        def run(cx):
            st = install(cx)
            mp, b = mk(cx, st, *sh)
            destroy(cx, st, [mp])
            cx.no_abort()
        return run
    for sh in SHAPES:
        g.case("H01", "dtor_" + nm(sh), "(M* m)", "m->~M();", dtor_case(sh))

    # ---------------------------------------------------------------- lookups
    def value_case(sh, kind):
        def run(cx):
            st = install(cx)
            mp, b = mk(cx, st, *sh)
            q, d = keyp(cx, st, "q"), keyp(cx, st, "d")
            res = raw(cx, st, "res")
            qp, qa = witness_states(cx, st, mp, q, "q")
            for y, qv in qp + [(y, None) for y in qa]:
                for z, r in cx.run(y, [mp, q, d, res]):
                    cx.states += 1
                    got = ident(cx, z, res, "valueForKey")
                    want = qv if qv is not None else ("d" if kind == "d" else "default")
                    cx.E.obl += 1
                    if got is not None and got != want:
                        cx.fail(z, "post", "valueForKey returns %s instead of %s" % (got, want))
                    else:
                        cx.E.proved += 1
                    expect_count(cx, z, mp, sh[1], "valueForKey")
            cx.no_abort()
        return run
    for sh in [(-1, 0, 0), (1, 1, 0), (2, 1, 1), (2, 2, 0)]:
        g.case("H01", "valuefor_d_" + nm(sh), "(M* m, Key* k, Val* d, Val* r)", "new (r) Val(m->valueForKey(*k, *d));", value_case(sh, "d"))
        g.case("H01", "valuefor_cs_d_" + nm(sh), "(M* m, Key* k, Val* d, Val* r)", "new (r) Val(m->valueForCString(*(const char(*)[4])k, *d));", value_case(sh, "d"))
        g.case("H01", "valuefor_cs_" + nm(sh), "(M* m, Key* k, Val* d, Val* r)", "new (r) Val(m->valueForCString(*(const char(*)[4])k));", value_case(sh, ""))
        g.case("H01", "valuefor_" + nm(sh), "(M* m, Key* k, Val* d, Val* r)", "new (r) Val(m->valueForKey(*k));", value_case(sh, ""))

    # ---------------------------------------------------------------- construction
    def ctor_case(n):
        def run(cx):
            st = install(cx)
            mp = raw(cx, st, "map")
            q = keyp(cx, st, "q")
            for z, r in cx.run(st, [mp]):
                cx.states += 1
                expect_count(cx, z, mp, 0, "constructor")
                expect_absent(cx, z, mp, q, "constructor")
                if n:
                    for w, r in cx.call(z, "buckets", [mp]):
                        cx.expect(w, r * 3 - 4 * n, "post", "the constructor makes room for fewer elements than asked")
                destroy(cx, z, [mp])
            cx.no_abort()
        return run
    g.case("H01", "ctor", "(M* m)", "new (m) M{};", ctor_case(0))
    for n in (0, 1, 2, 3, 4, 6, 7):
        g.case("H01", "ctor_%d" % n, "(M* m)", "new (m) M(%d);" % n, ctor_case(n))

    def list_case(n):
        def run(cx):
            st = install(cx)
            mp = raw(cx, st, "map")
            ks = [keyp(cx, st, "k%d" % i) for i in range(n)]
            vs = [keyp(cx, st, "v%d" % i) for i in range(n)]
            q = keyp(cx, st, "q")
            for i in range(n):
                distinct(st, "q", "k%d" % i)
                for j in range(i):
                    distinct(st, "k%d" % i, "k%d" % j)
            for z, r in cx.run(st, [mp] + [a for kv in zip(ks, vs) for a in kv]):
                cx.states += 1
                expect_count(cx, z, mp, n, "initializer list")
                for i in range(n):
                    expect_found(cx, z, mp, ks[i], "k%d" % i, "v%d" % i, "initializer list")
                expect_absent(cx, z, mp, q, "initializer list")
                destroy(cx, z, [mp])
            cx.no_abort()
        return run
    for n in (0, 1, 2, 3):
        c = g.case("H01", "ctor_list%d" % n, "(M* m%s)" % "".join(", Key* k%d, Val* v%d" % (i, i) for i in range(n)), "new (m) M(il::value, std::initializer_list<il::KeyValue<Key, Val>>{%s});" % ", ".join("{*(const Key*)k%d, *(const Val*)v%d}" % (i, i) for i in range(n)), list_case(n))
        if n == 3:
            c.tier = "thorough"

    # ---------------------------------------------------------------- copies and moves
    def copy_case(sh, tsh, move, self_=False):
        def run(cx):
            st = install(cx)
            if sh[0] >= 2:
                cx.E.hash_dom = {("q", sh[0]): [(1 << sh[0]) - 1]}
            mp, b = mk(cx, st, *sh, name="source")
            if self_:
                tp = mp
            elif tsh is None:
                tp = raw(cx, st, "target")
            else:
                tp, _ = mk(cx, st, *tsh, name="target")
            q = keyp(cx, st, "q")
            qp, qa = witness_states(cx, st, mp, q, "q")
            for y, qv in qp + [(y, None) for y in qa]:
                for z, r in cx.run(y, [tp, mp]):
                    cx.states += 1
                    expect_count(cx, z, tp, sh[1], "target")
                    if qv is not None:
                        expect_found(cx, z, tp, q, "q", qv, "target")
                    else:
                        expect_absent(cx, z, tp, q, "target")
                    if self_:
                        destroy(cx, z, [tp])
                        continue
                    if move:
                        expect_count(cx, z, mp, 0, "moved-from source")
                        expect_absent(cx, z, mp, q, "moved-from source")
                    else:
                        expect_count(cx, z, mp, sh[1], "source")
                        if qv is not None:
                            expect_found(cx, z, mp, q, "q", qv, "source")
                        else:
                            expect_absent(cx, z, mp, q, "source")
                    destroy(cx, z, [tp, mp])
            cx.no_abort()
        return run
    for sh in [(-1, 0, 0), (1, 0, 0), (1, 1, 0), (2, 1, 1), (2, 2, 0), (2, 3, 0)]:
        g.case("H02", "copy_" + nm(sh), "(M* t, M* s)", "new (t) M(*s);", copy_case(sh, None, False))
        g.case("H02", "move_" + nm(sh), "(M* t, M* s)", "new (t) M(std::move(*s));", copy_case(sh, None, True))
        g.case("H02", "copy_self_" + nm(sh), "(M* t, M* s)", "*t = *s;", copy_case(sh, None, False, True))
        g.case("H02", "move_self_" + nm(sh), "(M* t, M* s)", "*t = std::move(*s);", copy_case(sh, None, True, True))
        for tsh in [(-1, 0, 0), (1, 1, 0), (2, 1, 1)]:
            g.case("H02", "copy_assign_%s_%s" % (nm(sh), nm(tsh)), "(M* t, M* s)", "*t = *s;", copy_case(sh, tsh, False))
            g.case("H02", "move_assign_%s_%s" % (nm(sh), nm(tsh)), "(M* t, M* s)", "*t = std::move(*s);", copy_case(sh, tsh, True))

    # ---------------------------------------------------------------- iteration
    def iter_case(sh):
        def run(cx):
            st = install(cx)
            mp, b = mk(cx, st, *sh)
            m = max(1 << sh[0], 1) if sh[0] >= 0 else 1
            o = out8(cx, st, m + 2)
            for z, r in cx.run(st, [mp, o]):
                cx.states += 1
                n = r.const() if isinstance(r, Poly) else None
                if n is None:
                    raise Unsupported("iteration count")
                idx = []
                for i in range(n):
                    c = z.objs[o.o].cells.get(8 * i)
                    idx.append(c[2] if c else None)
                want = []
                if b is not None:
                    want = sorted(off for (oid, off), s_ in z.gh.cell.items() if oid == b and off % 16 == 0 and s_[0] == "L")
                    if z.gh.lazy[b][2] > 0:
                        cx.fail(z, "post", "the iteration leaves elements out")
                        continue
                got = sorted((p.off.const() if isinstance(p, Ptr) and p.o == b else -1) for p in idx)
                cx.E.obl += 1
                if got != want:
                    cx.fail(z, "post", "the iteration visits the buckets at %s, the elements are at %s" % (got, want))
                else:
                    cx.E.proved += 1
            cx.no_abort()
        return run
    for sh in SHAPES + [(3, 2, 1)]:
        g.case("H03", "iterate_" + nm(sh), "(M* m, const void** o)", "il::int_t c = 0; for (il::spot_t i = m->spotBegin(); i != m->spotEnd(); i = m->next(i)) { o[c] = &m->key(i); ++c; } return c;", iter_case(sh), ret="il::int_t")
    return g



MACLS = "il::MapArray<Key,Val,HF>"
MCLS = "il::Map<Key,long,HF>"


def build_ma():
    """il::MapArray: a map from keys to positions of an array of (key, value) in insertion order"""
    g = Group("maparray", PRE.replace("#include <il/Map.h>", "#include <il/MapArray.h>") + "typedef il::MapArray<Key, Val, HF> A;\n")
    g.life = "L03"
    g.helper("find", "void", "(A* m, Key* k, void** o)", "il::spot_t i = m->search(*k); if (m->found(i)) { ((long*)o)[0] = i.index; o[1] = (void*)&m->key(i); o[2] = (void*)&m->Value(i); } else ((long*)o)[0] = -1;")
    g.helper("count", "il::int_t", "(A* m)", "return m->nbElements();")
    g.helper("walk", "il::int_t", "(A* m, const void** o)", "il::int_t c = 0; for (il::spot_t i = m->spotBegin(); i != m->spotEnd(); i = m->next(i)) { o[2 * c] = &m->key(i); o[2 * c + 1] = &m->value(i); ++c; } return c;")
    g.helper("dtor", "void", "(A* m)", "m->~A();")

    def mka(cx, st, p, ne, cap, name="map"):
        """-> [(st, Ptr)] one state per placement of the ne elements in the 2^p buckets"""
        import itertools
        L, E = cx.lay, cx.E
        oa, om = L.get(MACLS, "array_", "map_")
        AC = next((k for k in L.by if k.startswith("il::Array<il::KeyValue<Key,Val")), None)
        if AC is None:
            raise Anchor("the array of il::MapArray not found")
        m = 1 << p if p >= 0 else 0
        out = []
        for perm in itertools.permutations(range(m), ne):
            x = st.fork()
            o = cx.obj(x, L.size(MACLS), name)
            mem, amem = L.by[L.key(MCLS)], L.by[AC]
            if p >= 0:
                b = E.new_obj(x, "heap", C(16 * m), "buckets of " + name)
                cx.put(x, o, om + mem["bucket_"], 8, Ptr(b, ZERO))
                for i in range(m):
                    x.gh.cell[(b, 16 * i)] = ("E",)
                for j, i in enumerate(perm):
                    x.gh.cell[(b, 16 * i)] = ("L", "t%s_%d" % (name, j))
                    cx.put(x, b, 16 * i + 8, 8, C(j))
            else:
                cx.put(x, o, om + mem["bucket_"], 8, Ptr(None, ZERO))
            cx.put(x, o, om + mem["nb_elements_"], 8, C(ne))
            cx.put(x, o, om + mem["nb_tombstones_"], 8, C(0))
            cx.put(x, o, om + mem["p_"], 4, C(p))
            for base, mm in ((om, mem), (0, L.by[L.key(MACLS)])):
                if "hash_" in mm:
                    cx.put(x, o, base + mm["hash_"], 8, C(12345))
            if "size_" in mem:
                cx.put(x, o, om + mem["size_"], 8, C(m))
            if cap:
                d = E.new_obj(x, "heap", C(16 * cap), "array of " + name)
                for j in range(ne):
                    x.gh.cell[(d, 16 * j)] = ("L", "t%s_%d" % (name, j))
                    x.gh.cell[(d, 16 * j + 8)] = ("L", "w%s_%d" % (name, j))
                ptr = [Ptr(d, C(16 * v)) for v in (0, ne, cap)]
            else:
                ptr = [Ptr(None, ZERO)] * 3
            for n_, q in zip(("data_", "size_", "capacity_"), ptr):
                cx.put(x, o, oa + amem[n_], 8, q)
            for n_, sz in (("alignment_", 2), ("align_r_", 2), ("align_mod_", 2), ("shift_", 2), ("new_shift_", 2)):
                if n_ in amem:
                    cx.put(x, o, oa + amem[n_], sz, C(0))
            if "debug_size_" in amem:
                cx.put(x, o, oa + amem["debug_size_"], 8, C(ne))
            if "debug_capacity_" in amem:
                cx.put(x, o, oa + amem["debug_capacity_"], 8, C(cap))
            out.append((x, Ptr(o, ZERO)))
        return out

    def walk(cx, st, mp, n, want, what):
        o = out8(cx, st, 2 * n + 4)
        for z, r in cx.call(st, "walk", [mp, o]):
            cx.states += 1
            c = r.const() if isinstance(r, Poly) else None
            if c is None:
                raise Unsupported("iteration count")
            cx.E.obl += 1
            if c != n:
                cx.fail(z, "post", "%s: the iteration visits %d elements instead of %d" % (what, c, n))
                continue
            got = []
            for i in range(2 * n):
                cc = z.objs[o.o].cells.get(8 * i)
                got.append(ident(cx, z, cc[2], what) if cc else None)
            if None in got:
                continue
            exp = [z.gh.id(w) for kv in want for w in kv]
            if got != exp:
                cx.fail(z, "post", "%s: the elements in order are %s instead of %s" % (what, got, exp))
            else:
                cx.E.proved += 1

    def base(name, ne):
        return [("t%s_%d" % (name, j), "w%s_%d" % (name, j)) for j in range(ne)]
    SH = [(-1, 0, 0), (1, 0, 0), (1, 1, 1), (2, 1, 3), (2, 2, 2), (2, 3, 3)]

    def ma_set(sh, f):
        def run(cx):
            st = install(cx)
            if sh[0] >= 2:
                cx.E.hash_dom = {("k", sh[0]): [(1 << sh[0]) - 1]}
            starts = []
            for st, mp in mka(cx, st, *sh):
                if not sh[1]:
                    starts.append((st, mp, None))
                for j in range(min(sh[1], 2)):
                    y = st.fork()
                    qq = keyp(cx, y, "tmap_%d" % j)
                    starts += [(x, mp, j) for x, c, kp, vp in find(cx, y, mp, qq) if c is not None]
            for st, mp, j0 in starts:
                k, v = keyp(cx, st, "k"), keyp(cx, st, "v")
                for x, c, kp, vp in find(cx, st, mp, k):
                    if c is None:
                        absent(x, "k")
                    want = base("map", sh[1])
                    if c is not None:
                        kid = x.gh.id("k")
                        for j, (a, b) in enumerate(want):
                            if a == kid:
                                want[j] = (a, "v")
                    else:
                        want.append(("k", "v"))
                    for z, r in cx.run(x, [mp, k, v]):
                        cx.states += 1
                        kk = keyp(cx, z, "k")
                        for w, r in cx.call(z, "count", [mp]):
                            cx.expect(w, r - len(want), "post", "Set: wrong number of elements", True)
                        expect_found(cx, z, mp, kk, "k", "v", "Set of a key")
                        walk(cx, z, mp, len(want), want, "Set")
                        if j0 is not None:
                            a, b = want[j0]
                            expect_found(cx, z, mp, keyp(cx, z, a), a, b, "Set of another key")
                        destroy(cx, z, [mp])
            cx.no_abort()
        return run
    forms = {"cc": "m->Set(*k, *v);", "cm": "m->Set(*k, std::move(*v));", "mc": "m->Set(std::move(*k), *(const Val*)v);", "mm": "m->Set(std::move(*k), std::move(*v));"}
    spot = "il::spot_t i = m->search(*k); if (m->found(i)) { m->Value(i) = *v; } else { "
    forms.update({"s" + f: spot + b.replace(");", ", il::io, i); if (!m->found(i) || &m->key(i) == k) { il::abort(); } }", 1) for f, b in list(forms.items())})
    for f, body in forms.items():
        for sh in SH:
            c = g.case("H04", "set_%s_p%s_%d_%d" % ((f, "m1" if sh[0] < 0 else sh[0]) + sh[1:]), "(A* m, Key* k, Val* v)", body, ma_set(sh, f))
            if sh == (2, 3, 3) and f not in ("cc", "smm"):
                g.cases.pop()
            elif sh == (2, 3, 3):
                c.tier = "thorough"
                c.cost = 10

    def ma_copy(sh, tsh, move, self_=False):
        def run(cx):
            st = install(cx)
            for st, mp in mka(cx, st, *sh):
                if self_:
                    tgt = [(st, mp)]
                elif tsh is None:
                    o = cx.obj(st, cx.lay.size(MACLS), "target")
                    tgt = [(st, Ptr(o, ZERO))]
                else:
                    tgt = mka(cx, st, *tsh, name="target")[:1]
                for x, tp in tgt:
                    want = base("map", sh[1])
                    for z, r in cx.run(x, [tp, mp]):
                        cx.states += 1
                        walk(cx, z, tp, len(want), want, "target")
                        if not self_:
                            w2 = [] if move else want
                            walk(cx, z, mp, len(w2), w2, "source")
                        destroy(cx, z, [tp] if self_ else [tp, mp])
            cx.no_abort()
        return run
    for sh in SH[:5]:
        tag = "p%s_%d_%d" % (("m1" if sh[0] < 0 else sh[0],) + sh[1:])
        g.case("H04", "copy_" + tag, "(A* t, A* s)", "new (t) A(*s);", ma_copy(sh, None, False))
        g.case("H04", "move_" + tag, "(A* t, A* s)", "new (t) A(std::move(*s));", ma_copy(sh, None, True))
        for i, tsh in enumerate(SH[:4]):
            g.case("H04", "copy_assign%d_%s" % (i, tag), "(A* t, A* s)", "*t = *s;", ma_copy(sh, tsh, False))
            g.case("H04", "move_assign%d_%s" % (i, tag), "(A* t, A* s)", "*t = std::move(*s);", ma_copy(sh, tsh, True))
        g.case("H04", "copy_self_" + tag, "(A* t, A* s)", "*t = *s;", ma_copy(sh, None, False, True))

    def ma_ctor(n):
        def run(cx):
            st = install(cx)
            mp = Ptr(cx.obj(st, cx.lay.size(MACLS), "map"), ZERO)
            q = keyp(cx, st, "q")
            for z, r in cx.run(st, [mp]):
                cx.states += 1
                walk(cx, z, mp, 0, [], "constructor")
                expect_absent(cx, z, mp, q, "constructor")
                destroy(cx, z, [mp])
            cx.no_abort()
        return run
    def ma_list(dup):
        def run(cx):
            st = install(cx)
            mp = Ptr(cx.obj(st, cx.lay.size(MACLS), "map"), ZERO)
            ids = ["k0", "k0" if dup else "k1"]
            ks = [keyp(cx, st, i) for i in ids]
            vs = [keyp(cx, st, "v%d" % i) for i in range(2)]
            distinct(st, "k0", "k1")
            for z, r in cx.run(st, [mp, ks[0], vs[0], ks[1], vs[1]]):
                cx.states += 1
                want = [("k0", "v1")] if dup else [("k0", "v0"), ("k1", "v1")]
                walk(cx, z, mp, len(want), want, "initializer list")
                for a, b in want:
                    expect_found(cx, z, mp, keyp(cx, z, a), a, b, "initializer list")
                destroy(cx, z, [mp])
            cx.no_abort()
        return run
    for d in (False, True):
        g.case("H04", "ctor_list" + ("_dup" if d else ""), "(A* m, Key* k0, Val* v0, Key* k1, Val* v1)", "new (m) A(il::value, std::initializer_list<il::KeyValue<Key, Val>>{{*(const Key*)k0, *(const Val*)v0}, {*(const Key*)k1, *(const Val*)v1}});", ma_list(d))
    g.case("H04", "ctor", "(A* m)", "new (m) A{};", ma_ctor(0))
    for n in (0, 1, 3, 4):
        g.case("H04", "ctor_%d" % n, "(A* m)", "new (m) A(%d);" % n, ma_ctor(n))
    return g


def groups():
    return [build(), build_ma()]
