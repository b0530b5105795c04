"""Textual LLVM-18 IR reader: functions, blocks, instructions, types, debug locations."""
import re


class Ty:
    __slots__ = ("k", "w", "el", "n", "name", "packed", "_sz", "_al")

    def __init__(s, k, w=0, el=None, n=0, name=None, packed=False):
        s.k, s.w, s.el, s.n, s.name, s.packed = k, w, el, n, name, packed
        s._sz = s._al = None

    def __repr__(s):
        if s.k == "int":
            return "i%d" % s.w
        if s.k == "struct":
            return s.name or "{%s}" % ",".join(map(repr, s.el or []))
        if s.k == "array":
            return "[%d x %r]" % (s.n, s.el)
        return s.k


PTR, VOID, DOUBLE, FLOAT = Ty("ptr"), Ty("void"), Ty("double"), Ty("float")
META, LABEL = Ty("metadata"), Ty("label")
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty("int", w)
    return _ints[w]


TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")|
 (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
 (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
 (?P<attr>\#\d+)|
 (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)|
 (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)|
 (?P<word>\.\.\.|[a-zA-Z_$][-a-zA-Z_$.0-9]*)|
 (?P<p>[()\[\]{}<>,=*|:])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "":
                break
            raise ValueError("tok: %r" % s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class Ins:
    __slots__ = ("op", "res", "ty", "a", "dbg", "x", "text")

    def __init__(s, op, res=None, ty=None, a=None, x=None):
        s.op, s.res, s.ty, s.a, s.x, s.dbg, s.text = op, res, ty, a or [], x, None, None


class Block:
    __slots__ = ("name", "ins", "phis", "succ", "pred")

    def __init__(s, name):
        s.name, s.ins, s.phis, s.succ, s.pred = name, [], [], [], []


class Fn:
    def __init__(s):
        s.name = None
        s.params = []   # [(ty,name,attrs)]
        s.ret = None
        s.blocks = {}
        s.order = []
        s.dbg = None
        s.loops = None
        s.vararg = False


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "signext",
               "zeroext", "returned", "inreg", "immarg", "nofree", "swiftself", "noreturn", "allocalign", "allocptr",
               "dead_on_unwind", "writable"}
LINK = {"dso_local", "linkonce_odr", "weak_odr", "internal", "private", "external", "available_externally", "weak",
        "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr", "common", "linkonce", "dso_preemptable",
        "comdat", "constant", "global", "thread_local", "appending", "fastcc", "ccc", "coldcc"}


class P:
    """token cursor"""

    def __init__(s, mod, toks):
        s.m, s.t, s.i = mod, toks, 0

    def peek(s, o=0):
        return s.t[s.i + o][1] if s.i + o < len(s.t) else None

    def kind(s, o=0):
        return s.t[s.i + o][0] if s.i + o < len(s.t) else None

    def next(s):
        v = s.t[s.i][1]
        s.i += 1
        return v

    def eat(s, v):
        if s.peek() == v:
            s.i += 1
            return True
        return False

    def need(s, v):
        if not s.eat(v):
            raise ValueError("expected %s got %s in %r" % (v, s.peek(), s.t))

    # ---- types
    def type(s):
        k, v = s.t[s.i]
        s.i += 1
        if k == "word":
            if re.match(r"i\d+$", v):
                t = INT(int(v[1:]))
            elif v == "ptr":
                t = PTR
            elif v in ("void", "double", "float", "metadata", "label", "half", "x86_fp80", "fp128", "token"):
                t = {"void": VOID, "double": DOUBLE, "float": FLOAT, "metadata": META, "label": LABEL}.get(v) or Ty(v)
            elif v == "opaque":
                t = Ty("opaque")
            else:
                raise ValueError("type? %s in %r" % (v, s.t))
        elif k == "loc":
            t = s.m.named(v)
        elif v == "[":
            n = int(s.next())
            s.need("x")
            e = s.type()
            s.need("]")
            t = Ty("array", el=e, n=n)
        elif v == "<":
            if s.peek() == "{":
                s.next()
                t = s._struct(True)
                s.need(">")
            else:
                n = int(s.next())
                s.need("x")
                e = s.type()
                s.need(">")
                t = Ty("vector", el=e, n=n)
        elif v == "{":
            t = s._struct(False)
        else:
            raise ValueError("type? %r in %r" % (v, s.t))
        while s.peek() == "(" and t.k != "label":   # function type
            d = 0
            while True:
                x = s.next()
                d += (x == "(") - (x == ")")
                if d == 0:
                    break
            t = Ty("fn", el=t)
        return t

    def _struct(s, packed):
        el = []
        while not s.eat("}"):
            el.append(s.type())
            s.eat(",")
        return Ty("struct", el=el, packed=packed)

    # ---- operands; value repr: ('r',name) ('g',name) ('i',int) ('f',txt) ('null',) ('undef',) ('ce',...) ('zero',) ('agg',[..])
    def attrs(s):
        out = {}
        while True:
            v = s.peek()
            if v in PARAM_ATTRS:
                out[v] = 1
                s.next()
            elif v == "align":
                s.next()
                if s.eat("("):
                    s.next()
                    s.need(")")
                else:
                    s.next()
            elif v in ("dereferenceable", "dereferenceable_or_null", "allocsize", "memory", "captures"):
                s.next()
                s.need("(")
                out[v] = s.next()
                while not s.eat(")"):
                    s.next()
            elif v in ("sret", "byval", "byref", "elementtype", "preallocated", "inalloca"):
                s.next()
                s.need("(")
                out[v] = s.type()
                s.need(")")
            else:
                return out

    def tval(s):
        t = s.type()
        at = s.attrs()
        return t, s.val(t), at

    def val(s, t):
        k, v = s.t[s.i]
        s.i += 1
        if k == "loc":
            return ("r", v)
        if k == "glob":
            return ("g", v)
        if k == "num":
            if t.k == "int":
                return ("i", int(v))
            return ("f", v)
        if k == "str":
            return ("cstr", v)
        if v == "true":
            return ("i", 1)
        if v == "false":
            return ("i", 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if v in ("getelementptr", "bitcast", "ptrtoint", "inttoptr", "sub", "add", "addrspacecast", "trunc"):
            while s.peek() in ("inbounds", "nuw", "nsw", "inrange"):
                s.next()
            s.need("(")
            if v == "getelementptr":
                bt = s.type()
                s.need(",")
                ops = []
                while True:
                    s.eat("inrange")
                    tt = s.type()
                    ops.append((tt, s.val(tt)))
                    if not s.eat(","):
                        break
                s.need(")")
                return ("ce", "gep", bt, ops)
            tt = s.type()
            x = s.val(tt)
            if s.eat("to"):
                s.type()
                s.need(")")
                return ("ce", v, tt, x)
            ys = [(tt, x)]
            while s.eat(","):
                tt = s.type()
                ys.append((tt, s.val(tt)))
            s.need(")")
            return ("ce", v, tt, ys)
        if v in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[v]
            if v == "<" and s.peek() == "{":
                s.next()
                close = "}"
            out = []
            while not s.eat(close):
                tt = s.type()
                out.append((tt, s.val(tt)))
                s.eat(",")
            if v == "<" and close == "}":
                s.need(">")
            return ("agg", out)
        if v == "metadata" or k == "meta":
            return ("meta", v)
        raise ValueError("val? %s %s in %r" % (k, v, s.t))


class Module:
    def __init__(self, text):
        self.structs = {}
        self.fns = {}
        self.decls = {}
        self.alias = {}
        self.globals = {}
        self.md = {}
        self._mdcache = {}
        self._rawty = {}
        lines = text.split("\n")
        i = 0
        n = len(lines)
        pend = []
        while i < n:
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                nm, _, d = ln.partition(" = type ")
                self._rawty[nm] = d
            elif ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                pend.append((ln, lines[i + 1:j]))
                i = j
            elif ln.startswith("declare"):
                m = re.search(r"@(\"[^\"]*\"|[-\w$.]+)\(", ln)
                self.decls["@" + m.group(1)] = ln
            elif ln.startswith("@"):
                nm, _, d = ln.partition(" = ")
                m = re.match(r"(?:[\w()]+ )*alias .*, ptr (@(?:\"[^\"]*\"|[-\w$.]+))", d)
                if m:
                    self.alias[nm] = m.group(1)
                else:
                    self.globals[nm] = d
            elif ln.startswith("!"):
                m = re.match(r"!(\d+) = (.*)", ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1
        self._pend = {}
        for h, body in pend:
            f = self._header(h)
            self._pend[f.name] = (f, body)

    def named(self, nm):
        if nm not in self.structs:
            t = Ty("struct", name=nm)
            self.structs[nm] = t
            d = self._rawty.get(nm, "opaque")
            if d != "opaque":
                p = P(self, tokenize(d))
                t2 = p.type()
                t.el, t.packed = t2.el, t2.packed
        return self.structs[nm]

    # ---- layout
    def align(self, t):
        if t._al is None:
            if t.k == "int":
                a = 1
                while a * 8 < t.w:
                    a *= 2
                t._al = min(a, 16)
            elif t.k in ("array", "vector"):
                t._al = self.align(t.el) if t.k == "array" else self.size(t)
            elif t.k == "struct":
                t._al = 1 if t.packed else max([self.align(e) for e in (t.el or [])] + [1])
            elif t.k == "float":
                t._al = 4
            elif t.k in ("x86_fp80", "fp128"):
                t._al = 16
            else:
                t._al = 8
        return t._al

    def size(self, t):
        if t._sz is None:
            if t.k == "int":
                b = (t.w + 7) // 8
                a = self.align(t)
                t._sz = (b + a - 1) // a * a
            elif t.k in ("array", "vector"):
                t._sz = t.n * self.size(t.el)
            elif t.k == "struct":
                o = 0
                for e in (t.el or []):
                    if not t.packed:
                        a = self.align(e)
                        o = (o + a - 1) // a * a
                    o += self.size(e)
                a = self.align(t)
                t._sz = (o + a - 1) // a * a
            elif t.k == "float":
                t._sz = 4
            elif t.k in ("x86_fp80", "fp128"):
                t._sz = 16
            elif t.k in ("ptr", "double"):
                t._sz = 8
            else:
                t._sz = 0
        return t._sz

    def field_off(self, t, idx):
        o = 0
        for j, e in enumerate(t.el):
            if not t.packed:
                a = self.align(e)
                o = (o + a - 1) // a * a
            if j == idx:
                return o
            o += self.size(e)
        raise IndexError

    # ---- functions
    def has(self, name):
        return self.alias.get(name, name) in self._pend

    def fn(self, name):
        name = self.alias.get(name, name)
        if name in self.fns:
            return self.fns[name]
        if name not in self._pend:
            return None
        f, body = self._pend[name]
        self._body(f, body)
        self.fns[name] = f
        return f

    def names(self):
        return list(self._pend)

    def _header(self, h):
        f = Fn()
        m = re.search(r"!dbg !(\d+)", h)
        f.dbg = int(m.group(1)) if m else None
        toks = tokenize(re.sub(r"\{$", "", h))
        p = P(self, toks)
        p.need("define")
        while p.peek() in LINK or p.peek() in PARAM_ATTRS or p.peek() in ("dereferenceable", "align"):
            if p.peek() in LINK:
                p.next()
            else:
                p.attrs()
        f.ret = p.type()
        f.name = p.next()
        p.need("(")
        idx = 0
        while not p.eat(")"):
            if p.eat("..."):
                f.vararg = True
                continue
            t = p.type()
            at = p.attrs()
            if p.kind() == "loc":
                nm = p.next()
            else:
                nm = "%%%d" % idx
            idx += 1
            f.params.append((t, nm, at))
            p.eat(",")
        return f

    def _body(self, f, lines):
        cur = None
        # first label: number of unnamed params
        first = True
        k = 0
        n = len(lines)
        while k < n:
            ln = lines[k]
            k += 1
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            m = re.match(r'^((?:"[^"]*")|[-\w$.]+):', ln)
            if m:
                cur = Block("%" + m.group(1))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                first = False
                continue
            if first:
                cnt = sum(1 for (_, nm, _) in f.params if re.match(r"%\d+$", nm))
                cur = Block("%%%d" % cnt)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                first = False
            if ln.lstrip().startswith("switch"):
                while "]" not in ln:
                    ln += " " + lines[k]
                    k += 1
            if "@llvm.dbg." in ln:
                continue
            ins = self._ins(ln)
            if ins is None:
                continue
            (cur.phis if ins.op == "phi" else cur.ins).append(ins)
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == "br":
                b.succ = t.x
            elif t.op == "switch":
                b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
        for b in f.blocks.values():
            for s in dict.fromkeys(b.succ):
                f.blocks[s].pred.append(b.name)

    def _ins(self, ln):
        dbg = None
        m = re.search(r", !dbg !(\d+)", ln)
        if m:
            dbg = int(m.group(1))
        raw = ln
        ln = re.sub(r",? ![\w.]+ !\d+", "", ln)
        p = P(self, tokenize(ln))
        res = None
        if p.kind() == "loc" and p.peek(1) == "=":
            res = p.next()
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        ins = self._ins2(p, op)
        if ins is None:
            raise ValueError("unsupported instruction: " + raw)
        ins.res, ins.dbg, ins.text = res, dbg, raw
        return ins

    def _ins2(self, p, op):
        BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd",
               "fsub", "fmul", "fdiv", "frem"}
        if op in BIN:
            fl = []
            while p.peek() in ("nsw", "nuw", "exact", "fast", "disjoint", "contract", "reassoc", "nnan", "ninf", "nsz", "arcp", "afn"):
                fl.append(p.next())
            t = p.type()
            a = p.val(t)
            p.need(",")
            b = p.val(t)
            return Ins(op, ty=t, a=[a, b], x=fl)
        if op == "fneg":
            t = p.type()
            return Ins(op, ty=t, a=[p.val(t)])
        if op in ("icmp", "fcmp"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "samesign"):
                p.next()
            pr = p.next()
            t = p.type()
            a = p.val(t)
            p.need(",")
            return Ins(op, ty=t, a=[a, p.val(t)], x=pr)
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t = p.type()
            a = p.val(t)
            p.need("to")
            return Ins(op, ty=p.type(), a=[a], x=t)
        if op == "load":
            p.eat("volatile")
            p.eat("atomic")
            t = p.type()
            p.need(",")
            p.type()
            return Ins(op, ty=t, a=[p.val(PTR)])
        if op == "store":
            p.eat("volatile")
            p.eat("atomic")
            t = p.type()
            v = p.val(t)
            p.need(",")
            p.type()
            return Ins(op, ty=t, a=[v, p.val(PTR)])
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            bt = p.type()
            p.need(",")
            ops = []
            while True:
                t = p.type()
                ops.append((t, p.val(t)))
                if not p.eat(","):
                    break
            return Ins(op, ty=bt, a=ops)
        if op == "alloca":
            t = p.type()
            cnt = ("i", 1)
            if p.eat(",") and p.peek() != "align":
                ct = p.type()
                cnt = p.val(ct)
            return Ins(op, ty=t, a=[cnt])
        if op == "br":
            if p.peek() == "label":
                p.next()
                return Ins(op, x=[p.next()])
            p.type()
            c = p.val(INT(1))
            p.need(",")
            p.need("label")
            x = p.next()
            p.need(",")
            p.need("label")
            return Ins(op, a=[c], x=[x, p.next()])
        if op == "switch":
            t = p.type()
            v = p.val(t)
            p.need(",")
            p.need("label")
            d = p.next()
            p.need("[")
            cs = []
            while not p.eat("]"):
                tt = p.type()
                c = p.val(tt)
                p.need(",")
                p.need("label")
                cs.append((c[1], p.next()))
            return Ins(op, ty=t, a=[v], x=(d, cs))
        if op == "ret":
            if p.peek() == "void":
                return Ins(op)
            t = p.type()
            return Ins(op, ty=t, a=[p.val(t)])
        if op == "unreachable":
            return Ins(op)
        if op == "phi":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "contract"):
                p.next()
            t = p.type()
            x = []
            while True:
                p.need("[")
                v = p.val(t)
                p.need(",")
                x.append((v, p.next()))
                p.need("]")
                if not p.eat(","):
                    break
            return Ins(op, ty=t, x=x)
        if op == "select":
            p.type()
            c = p.val(INT(1))
            p.need(",")
            t = p.type()
            a = p.val(t)
            p.need(",")
            p.type()
            return Ins(op, ty=t, a=[c, a, p.val(t)])
        if op in ("extractvalue", "insertvalue"):
            t = p.type()
            v = p.val(t)
            p.need(",")
            a = [v]
            et = None
            if op == "insertvalue":
                et = p.type()
                a.append(p.val(et))
                p.need(",")
            idx = [int(p.next())]
            while p.eat(","):
                idx.append(int(p.next()))
            return Ins(op, ty=t, a=a, x=idx)
        if op in ("extractelement",):
            t = p.type()
            v = p.val(t)
            p.need(",")
            it = p.type()
            return Ins(op, ty=t, a=[v, p.val(it)])
        if op == "insertelement":
            t = p.type()
            v = p.val(t)
            p.need(",")
            et = p.type()
            e = p.val(et)
            p.need(",")
            it = p.type()
            return Ins(op, ty=t, a=[v, e, p.val(it)])
        if op == "freeze":
            t = p.type()
            return Ins(op, ty=t, a=[p.val(t)])
        if op == "call":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "contract", "fastcc", "ccc"):
                p.next()
            p.attrs()
            t = p.type()
            if t.k == "fn":
                t = t.el
            callee = p.next()
            if callee == "asm":
                return Ins("asm", ty=t)
            p.need("(")
            args = []
            while not p.eat(")"):
                if p.peek() == "metadata":
                    d = 0
                    while not (d == 0 and p.peek() in (")", ",")):
                        x = p.next()
                        d += (x == "(") - (x == ")")
                    p.eat(",")
                    args.append((META, ("meta",), {}))
                    continue
                args.append(p.tval())
                p.eat(",")
            return Ins("call", ty=t, a=args, x=callee)
        return None

    # ---- debug info
    def mdfields(self, n):
        if n in self._mdcache:
            return self._mdcache[n]
        s = self.md.get(n, "")
        d = {}
        m = re.match(r"(?:distinct )?!(\w+)\((.*)\)$", s)
        if m:
            d["_k"] = m.group(1)
            for mm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|![\w]+\([^)]*\)|[^,]+)', m.group(2)):
                d[mm.group(1)] = mm.group(2)
        elif s.startswith("!{") or s.startswith("distinct !{"):
            d["_k"] = "list"
            d["items"] = re.findall(r"!(\d+)|null", s)
        self._mdcache[n] = d
        return d

    def loc(self, dbg):
        """-> (file, line) of an instruction"""
        if dbg is None:
            return ("?", 0)
        d = self.mdfields(dbg)
        line = int(d.get("line", "0"))
        sc = d.get("scope")
        f = "?"
        seen = 0
        while sc and sc.startswith("!") and seen < 50:
            seen += 1
            e = self.mdfields(int(sc[1:]))
            if "file" in e:
                fe = self.mdfields(int(e["file"][1:]))
                f = fe.get("filename", '"?"').strip('"')
                if not f.startswith("/"):
                    f = fe.get("directory", '""').strip('"') + "/" + f
                break
            sc = e.get("scope")
        return (f, line)

    def di_struct(self, pred):
        """all DICompositeType with member offsets: yields (name, identifier, {member: byteoff})"""
        out = []
        self.disize = {}
        for n, s in self.md.items():
            if "DICompositeType(tag: DW_TAG_class_type" in s or "DICompositeType(tag: DW_TAG_structure_type" in s or "DICompositeType(tag: DW_TAG_union_type" in s:
                d = self.mdfields(n)
                if not pred(d):
                    continue
                mem = {}
                el = d.get("elements")
                if el and el.startswith("!"):
                    for it in self.mdfields(int(el[1:])).get("items", []):
                        if not it:
                            continue
                        e = self.mdfields(int(it))
                        if e.get("_k") == "DIDerivedType" and e.get("tag") == "DW_TAG_member" and "flags" not in {} and "DIFlagStaticMember" not in e.get("flags", ""):
                            mem[e.get("name", '"?"').strip('"')] = int(e.get("offset", "0")) // 8
                out.append((self._qual(d) + d.get("name", '""').strip('"'), d.get("identifier", '""').strip('"'), mem))
                if "size" in d:
                    self.disize.setdefault(out[-1][0], int(d["size"]) // 8)
        return out

    def _qual(self, d):
        q = ""
        sc = d.get("scope")
        for _ in range(20):
            if not sc or not sc.startswith("!"):
                break
            e = self.mdfields(int(sc[1:]))
            if e.get("_k") not in ("DINamespace", "DICompositeType"):
                break
            if "name" in e and "DIFlagExportSymbols" not in e.get("flags", "") and e.get("exportSymbols") != "true":
                q = e["name"].strip('"') + "::" + q
            sc = e.get("scope")
        return q


def load(path):
    with open(path) as fh:
        return Module(fh.read())
