"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) the checks need."""
import re

_TOK = re.compile(r'''
    \s+ |
    (?P<str>c?"(?:[^"\\]|\\.)*") |
    (?P<name>[%@]"(?:[^"\\]|\\.)*" | [%@][-A-Za-z$._0-9]+) |
    (?P<meta>![A-Za-z0-9_.]*) |
    (?P<attr>\#[0-9]+) |
    (?P<num>-?[0-9]+(?![A-Za-z0-9_.])) |
    (?P<word>[A-Za-z$._][-A-Za-z$._0-9]*) |
    (?P<flt>-?[0-9]+\.[0-9]+(e[+-]?[0-9]+)?|0x[0-9A-Fa-f]+) |
    (?P<dots>\.\.\.) |
    (?P<p>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = _TOK.match(s, pos)
        if not m:
            raise SyntaxError("tok %r in %r" % (s[pos:pos + 20], s))
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append(m.group(0))
    return out


# ---- types: ("i",n) ("ptr",) ("void",) ("arr",n,t) ("st",(t...),packed) ("named",name) ("fp",kind) ("vec",n,t)
class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (type, init tokens or None, const)
        self.funcs = {}       # name -> Func
        self.decls = {}
        self.aliases = {}

    def resolve(self, t):
        while t[0] == "named":
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            n = t[1]
            b = 1
            while b * 8 < n:
                b *= 2
            return min(b, 16)
        if k == "ptr":
            return 8
        if k in ("arr", "vec"):
            return self.align(t[2])
        if k == "st":
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        if k == "fp":
            return {"float": 4, "double": 8, "x86_fp80": 16}[t[1]]
        raise ValueError(t)

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            a = self.align(t)
            n = (t[1] + 7) // 8
            return (n + a - 1) // a * a
        if k == "ptr":
            return 8
        if k in ("arr", "vec"):
            return t[1] * self.size(t[2])
        if k == "st":
            return self.layout(t)[1]
        if k == "fp":
            return {"float": 4, "double": 8, "x86_fp80": 16}[t[1]]
        raise ValueError(t)

    def layout(self, t):
        t = self.resolve(t)
        offs = []
        o = 0
        al = 1
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(x)
        o = (o + al - 1) // al * al
        return offs, o


class Func:
    __slots__ = ("name", "ret", "params", "blocks", "order", "ipdom", "linkage", "module")


class Ins:
    __slots__ = ("op", "res", "ty", "a", "x", "text")

    def __repr__(self):
        return self.text


_PATTR = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "writeonly",
          "readnone", "returned", "noreturn", "nounwind", "immarg", "nofree", "allocptr", "swiftself", "nest",
          "writable", "dead_on_unwind", "noext"}
_PATTR_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "byref", "inalloca",
              "elementtype", "preallocated", "captures", "initializes", "nofpclass"}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError("expected %r got %r in %r" % (x, y, self.t))

    def type(self):
        x = self.next()
        if re.fullmatch(r"i[0-9]+", x):
            t = ("i", int(x[1:]))
        elif x == "ptr":
            t = ("ptr",)
            if self.peek() == "addrspace":
                self.next(); self.next(); self.next(); self.next()
        elif x == "void":
            t = ("void",)
        elif x in ("float", "double", "x86_fp80"):
            t = ("fp", x)
        elif x == "metadata":
            t = ("metadata",)
        elif x == "label":
            t = ("label",)
        elif x == "opaque":
            t = ("st", (), False)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "{":
            t = ("st", tuple(self.typelist("}")), False)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                ts = self.typelist("}")
                self.expect(">")
                t = ("st", tuple(ts), True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif x[0] == "%":
            t = ("named", unq(x))
        else:
            raise SyntaxError("type %r in %r" % (x, self.t))
        # function type  ret (args)
        while self.peek() == "(" and t[0] != "label":
            # function type: skip
            d = 0
            while True:
                y = self.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
                    if d == 0:
                        break
            t = ("fn", t)
        return t

    def typelist(self, end):
        ts = []
        if self.eat(end):
            return ts
        while True:
            ts.append(self.type())
            if self.eat(end):
                return ts
            self.expect(",")

    def skip_attrs(self):
        info = {}
        while True:
            x = self.peek()
            if x in _PATTR:
                self.next()
            elif x in _PATTR_ARG:
                self.next()
                if self.peek() == "(":
                    j = self.i
                    self.skip_paren()
                    info[x] = self.t[j + 1:self.i - 1]
                elif x == "align":
                    self.next()
            elif x is not None and x[0] == '"':
                self.next()
                if self.eat("="):
                    self.next()
            else:
                return info

    def skip_paren(self):
        d = 0
        while True:
            y = self.next()
            if y in "([{":
                d += 1
            elif y in ")]}":
                d -= 1
                if d == 0:
                    return

    def value(self, ty):
        """operand of known type -> tuple"""
        x = self.next()
        if x[0] == "%":
            return ("r", unq(x))
        if x[0] == "@":
            return ("g", unq(x))
        if re.fullmatch(r"-?[0-9]+", x):
            return ("c", int(x))
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x[0] == "c" and x[1] == '"' or x[0] == '"':
            return ("str", cstr(x[1:] if x[0] == "c" else x))
        if x in ("[", "{", "<"):
            end = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and self.peek() == "{":
                self.next()
                vs = self.valuelist("}")
                self.expect(">")
                return ("agg", vs)
            return ("agg", self.valuelist(end))
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.next()
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    self.skip_paren()
            self.expect("(")
            st = self.type()
            self.expect(",")
            vs = self.valuelist(")")
            return ("cgep", st, vs)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext"):
            self.expect("(")
            t1 = self.type()
            v = self.value(t1)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ccast", x, t1, v, t2)
        if re.match(r"0x|[0-9.]+e|-?[0-9]+\.", x):
            return ("flt", x)
        if x in ("add", "sub"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            vs = self.valuelist(")")
            return ("cbin", x, vs)
        raise SyntaxError("value %r in %r" % (x, self.t))

    def valuelist(self, end):
        vs = []
        if self.eat(end):
            return vs
        while True:
            while self.peek() == "inrange":
                self.next()
            t = self.type()
            self.skip_attrs()
            vs.append((t, self.value(t)))
            if self.eat(end):
                return vs
            self.expect(",")

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


def unq(x):
    n = x[1:]
    if n[:1] == '"':
        n = n[1:-1]
    return n


def cstr(s):
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


_LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
            "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default",
            "unnamed_addr", "local_unnamed_addr", "thread_local", "constant", "global", "alias", "externally_initialized",
            "fastcc", "ccc", "coldcc", "tail", "musttail", "notail", "noundef", "nnan"}


def parse(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith("%") and " = type " in ln:
            toks = tokenize(ln)
            p = P(toks, m)
            name = unq(p.next())
            p.expect("=")
            p.expect("type")
            m.types[name] = p.type()
        elif ln.startswith("@"):
            _global(m, ln)
        elif ln.startswith("declare"):
            mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)\(', ln)
            m.decls[unq("@" + mm.group(1))] = ln
        elif ln.startswith("define"):
            hdr = ln
            body = []
            i += 1
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            _func(m, hdr, body)
        i += 1
    return m


def _global(m, ln):
    toks = tokenize(ln)
    p = P(toks, m)
    name = unq(p.next())
    p.expect("=")
    isconst = False
    isalias = False
    ext = False
    while p.peek() in _LINKAGE:
        x = p.next()
        if x == "constant":
            isconst = True
        if x == "alias":
            isalias = True
        if x == "external" or x == "extern_weak":
            ext = True
        if x == "thread_local" and p.peek() == "(":
            p.skip_paren()
        if x in ("constant", "global", "alias"):
            break
    t = p.type()
    if isalias:
        p.expect(",")
        tt, v = p.tv()
        m.aliases[name] = v[1]
        return
    init = None
    if not ext and p.peek() not in (",", None):
        init = p.value(t)
    m.globals[name] = (t, init, isconst)


def _func(m, hdr, body):
    f = Func()
    f.module = m
    mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)\(', hdr)
    f.name = unq("@" + mm.group(1))
    pre = P(tokenize(hdr[len("define"):mm.start()]), m)
    f.linkage = []
    while pre.peek() in _LINKAGE or pre.peek() in _PATTR or pre.peek() in _PATTR_ARG:
        if pre.peek() in _LINKAGE:
            f.linkage.append(pre.next())
        else:
            pre.skip_attrs()
    f.ret = pre.type()
    # params
    rest = hdr[mm.end() - 1:]
    d = 0
    for j, ch in enumerate(rest):
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
            if d == 0:
                break
    pp = P(tokenize(rest[1:j]), m)
    f.params = []
    k = 0
    while pp.peek() is not None:
        if pp.peek() == "...":
            pp.next()
            break
        t = pp.type()
        at = pp.skip_attrs()
        nm = pp.peek()
        if nm is not None and nm[0] == "%":
            pp.next()
            nm = unq(nm)
        else:
            nm = str(k)
        f.params.append((t, nm, at))
        k += 1
        pp.eat(",")
    # blocks
    f.blocks = {}
    f.order = []
    cur = None
    # implicit entry label = number of unnamed params; compute as next unnamed value
    entry = None
    lines = body
    j = 0
    buf = []
    while j < len(lines):
        s = lines[j]
        if s.strip() == "" or s.lstrip().startswith(";"):
            j += 1
            continue
        if not s.startswith(" "):
            lab = s.split(":")[0] if not s.startswith('"') else re.match(r'"(.*?)":', s).group(1)
            cur = lab
            f.blocks[cur] = []
            f.order.append(cur)
            j += 1
            continue
        if cur is None:
            # count unnamed params
            cnt = sum(1 for (_, nm, _) in f.params if nm.isdigit())
            cur = str(cnt)
            f.blocks[cur] = []
            f.order.append(cur)
        st = s
        if s.strip().startswith("switch") and "]" not in s:
            while "]" not in lines[j]:
                j += 1
                st += " " + lines[j]
        f.blocks[cur].append(st)
        j += 1
    f.ipdom = None
    m.funcs[f.name] = f


_BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
_CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"}


def parse_ins(m, s):
    # drop trailing metadata
    k = s.find(", !")
    if k >= 0 and "metadata" not in s[:k]:
        s = s[:k]
    toks = tokenize(s)
    p = P(toks, m)
    ins = Ins()
    ins.text = s.strip()
    ins.res = None
    ins.x = None
    ins.a = None
    ins.ty = None
    if len(toks) > 1 and toks[0][0] == "%" and toks[1] == "=":
        ins.res = unq(toks[0])
        p.i = 2
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    ins.op = op
    if op in _BIN:
        fl = set()
        while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ins.ty = t
        ins.a = (a, b)
        ins.x = fl
    elif op in _CAST:
        fl = set()
        while p.peek() in ("nneg", "nuw", "nsw"):
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect("to")
        ins.ty = p.type()
        ins.a = (t, a)
        ins.x = fl
    elif op == "icmp":
        if p.peek() == "samesign":
            p.next()
        ins.x = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ins.ty = t
        ins.a = (a, b)
    elif op == "alloca":
        ins.ty = p.type()
        ins.a = None
        if p.eat(","):
            if p.peek() != "align":
                ins.a = p.tv()
    elif op == "load":
        p.eat("volatile")
        p.eat("atomic")
        ins.ty = p.type()
        p.expect(",")
        ins.a = p.tv()
    elif op == "store":
        p.eat("volatile")
        p.eat("atomic")
        v = p.tv()
        p.expect(",")
        ins.a = (v, p.tv())
    elif op == "getelementptr":
        fl = set()
        while p.peek() in ("inbounds", "nuw", "nusw"):
            fl.add(p.next())
        ins.x = fl
        ins.ty = p.type()
        p.expect(",")
        vs = []
        while True:
            vs.append(p.tv())
            if not p.eat(","):
                break
        ins.a = vs
    elif op == "select":
        c = p.tv()
        p.expect(",")
        a = p.tv()
        p.expect(",")
        b = p.tv()
        ins.a = (c, a, b)
    elif op == "phi":
        ins.ty = p.type()
        vs = []
        while True:
            p.expect("[")
            v = p.value(ins.ty)
            p.expect(",")
            lab = unq(p.next())
            p.expect("]")
            vs.append((v, lab))
            if not p.eat(","):
                break
        ins.a = vs
    elif op == "br":
        if p.peek() == "label":
            p.next()
            ins.a = (unq(p.next()),)
        else:
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = unq(p.next())
            p.expect(",")
            p.expect("label")
            b = unq(p.next())
            ins.a = (c, a, b)
    elif op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        dflt = unq(p.next())
        p.expect("[")
        cases = []
        while not p.eat("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv[1], unq(p.next())))
        ins.ty = t
        ins.a = (v, dflt, cases)
    elif op == "ret":
        t = p.type()
        ins.ty = t
        ins.a = None if t[0] == "void" else p.value(t)
    elif op == "call":
        while p.peek() in _LINKAGE:
            p.next()
        p.skip_attrs()
        t = p.type()
        if t[0] == "fn":
            t = t[1]
        callee = p.next()
        ins.ty = t
        p.expect("(")
        args = []
        if not p.eat(")"):
            while True:
                at = p.type()
                info = p.skip_attrs()
                if at[0] == "metadata":
                    while p.peek() not in (",", ")"):
                        p.next()
                    args.append((at, None, info))
                else:
                    args.append((at, p.value(at), info))
                if p.eat(")"):
                    break
                p.expect(",")
        ins.a = args
        ins.x = ("g", unq(callee)) if callee[0] == "@" else ("r", unq(callee))
    elif op == "extractvalue":
        v = p.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        ins.a = v
        ins.x = idx
    elif op == "insertvalue":
        v = p.tv()
        p.expect(",")
        w = p.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        ins.a = (v, w)
        ins.x = idx
    elif op == "freeze":
        ins.a = p.tv()
    elif op == "unreachable":
        pass
    else:
        raise SyntaxError("instruction " + s)
    return ins


def prepare(f):
    """parse instructions lazily, compute successors and immediate post-dominators"""
    if f.ipdom is not None:
        return
    m = f.module
    for lab in f.order:
        f.blocks[lab] = [parse_ins(m, s) for s in f.blocks[lab]]
    succ = {}
    for lab in f.order:
        t = f.blocks[lab][-1]
        if t.op == "br":
            succ[lab] = list(t.a) if len(t.a) == 1 else [t.a[1], t.a[2]]
        elif t.op == "switch":
            succ[lab] = [t.a[1]] + [c[1] for c in t.a[2]]
        elif t.op == "ret":
            succ[lab] = ["$exit"]
        else:
            succ[lab] = []          # unreachable
    # post-dominators: sets (small functions); blocks that cannot reach exit get no constraint
    nodes = f.order + ["$exit"]
    # nodes reaching exit
    preds = {b: [] for b in nodes}
    for b in f.order:
        for s in succ[b]:
            preds[s].append(b)
    reach = set()
    st = ["$exit"]
    while st:
        b = st.pop()
        if b in reach:
            continue
        reach.add(b)
        st.extend(preds[b])
    # reverse post order from exit over preds
    order = []
    seen = set()

    def dfs(root):
        stack = [(root, iter(preds[root]))]
        seen.add(root)
        while stack:
            b, it = stack[-1]
            for c in it:
                if c not in seen:
                    seen.add(c)
                    stack.append((c, iter(preds[c])))
                    break
            else:
                order.append(b)
                stack.pop()
    dfs("$exit")
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {"$exit": "$exit"}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for s in succ[b]:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        x, y = s, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    f.ipdom = {b: idom.get(b, "$exit") for b in f.order}
