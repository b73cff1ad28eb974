"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that clang emits
for the harnesses in this directory.  Produces plain data; semantics live in symex.py."""
import re

class Ty:
    __slots__ = ("k", "n", "e", "fs", "size", "align", "offs", "packed")
    def __init__(self, k, n=0, e=None, fs=None):
        self.k, self.n, self.e, self.fs = k, n, e, fs
        self.size = self.align = None
        self.offs = None
        self.packed = False
    def __repr__(self):
        return f"Ty({self.k},{self.n})"

_int_cache = {}
def int_ty(n):
    t = _int_cache.get(n)
    if t is None:
        t = Ty("int", n)
        b = 1
        while b * 8 < n:
            b *= 2
        if n > 64:
            b = (n + 63) // 64 * 8
        t.size = b
        t.align = min(b, 16)
        _int_cache[n] = t
    return t

def _mk(k, size):
    t = Ty(k)
    t.size = t.align = size
    return t
T_FLOAT, T_DOUBLE, T_PTR, T_VOID = _mk("float", 4), _mk("double", 8), _mk("ptr", 8), _mk("void", 0)
T_LABEL, T_META = _mk("label", 0), _mk("metadata", 0)

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[HKLMR]?[0-9A-Fa-f]+|\d+(?:\.\d+(?:e[-+]?\d+)?)?))
 | (?P<word>[A-Za-z_][\w.$]*)
 | (?P<punc>\.\.\.|[()\[\]{}<>,=*:])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise SyntaxError("tok: " + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        if not self.accept(x):
            raise SyntaxError(f"expected {x} got {self.t[self.i:self.i+6]}")

    def type(self):
        k, x = self.t[self.i]
        self.i += 1
        if k == "word":
            if x[0] == "i" and x[1:].isdigit():
                t = int_ty(int(x[1:]))
            elif x == "ptr":
                t = T_PTR
            elif x == "float":
                t = T_FLOAT
            elif x == "double":
                t = T_DOUBLE
            elif x == "void":
                t = T_VOID
            elif x == "label":
                t = T_LABEL
            elif x == "metadata":
                t = T_META
            elif x == "x86_fp80":
                t = Ty("x86_fp80"); t.size = t.align = 16
            else:
                raise SyntaxError("type " + x)
        elif k == "lid":
            t = self.mod.named(x)
        elif x == "[":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect("]")
            t = Ty("array", n, e)
        elif x == "{":
            t = self._struct("}")
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = self._struct("}")
                t.packed = True
                self.expect(">")
            else:
                n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">")
                t = Ty("vec", n, e)
        else:
            raise SyntaxError("type tok " + str(x))
        # function types "ret (args)" appear only in calls of varargs
        return t
    def _struct(self, end):
        fs = []
        if not self.accept(end):
            fs.append(self.type())
            while self.accept(","):
                fs.append(self.type())
            self.expect(end)
        return Ty("struct", len(fs), None, fs)

ATTR_WORDS = set("""noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg returned
 nofree immarg allocptr swiftself noreturn nounwind nest mustprogress willreturn nosync writable dead_on_unwind
 inrange""".split())

class Operand:
    __slots__ = ("k", "v", "ty")
    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty
    def __repr__(self):
        return f"<{self.k} {self.v}>"

def skip_attrs(p):
    while True:
        x = p.peek()
        if x in ATTR_WORDS:
            p.next()
        elif x in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "allocalign", "range",
                   "captures", "memory", "nofpclass", "elementtype", "preallocated", "inalloca"):
            p.next()
            if p.peek() == "(":
                d = 0
                while True:
                    y = p.next()
                    if y == "(":
                        d += 1
                    elif y == ")":
                        d -= 1
                        if d == 0:
                            break
            elif x == "align":
                p.next()
        else:
            return

def parse_value(p, ty):
    k, x = p.t[p.i]
    p.i += 1
    if k == "lid":
        return Operand("reg", x, ty)
    if k == "gid":
        return Operand("glob", x, ty)
    if k == "num":
        if ty.k in ("float", "double"):
            return Operand("fp", x, ty)
        return Operand("int", int(x, 0), ty)
    if k == "str":
        return Operand("cstr", x, ty)
    if k == "meta":
        return Operand("meta", x, ty)
    if k == "word":
        if x == "true":
            return Operand("int", 1, ty)
        if x == "false":
            return Operand("int", 0, ty)
        if x in ("null", "zeroinitializer"):
            return Operand("zero", 0, ty)
        if x in ("undef", "poison"):
            return Operand("undef", 0, ty)
        if x == "getelementptr":
            while p.peek() in ("inbounds", "nusw", "nuw"):
                p.next()
            if p.peek() == "inrange":
                p.next()
                p.expect("(")
                while p.next() != ")":
                    pass
            p.expect("(")
            bt = p.type(); p.expect(",")
            ops = []
            while True:
                skip_attrs(p)
                t = p.type(); skip_attrs(p)
                ops.append(parse_value(p, t))
                if not p.accept(","):
                    break
            p.expect(")")
            return Operand("cgep", (bt, ops), ty)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            p.expect("(")
            t = p.type(); v = parse_value(p, t)
            p.expect("to"); t2 = p.type(); p.expect(")")
            return Operand("ccast", (x, v, t2), ty)
        if x in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
            while p.peek() in ("nuw", "nsw", "exact"):
                p.next()
            p.expect("(")
            t = p.type(); a = parse_value(p, t); p.expect(",")
            t = p.type(); b = parse_value(p, t); p.expect(")")
            return Operand("cbin", (x, a, b), ty)
        if x == "splat":
            p.expect("(")
            t = p.type(); a = parse_value(p, t); p.expect(")")
            return Operand("agg", [a] * ty.n, ty)
    if x in ("[", "{", "<"):
        end = {"[": "]", "{": "}", "<": ">"}[x]
        if x == "<" and p.peek() == "{":
            p.next()
            vals = _agg(p, "}")
            p.expect(">")
            return Operand("agg", vals, ty)
        return Operand("agg", _agg(p, end), ty)
    raise SyntaxError("value " + repr((k, x)))

def _agg(p, end):
    vals = []
    if p.accept(end):
        return vals
    while True:
        t = p.type()
        vals.append(parse_value(p, t))
        if not p.accept(","):
            break
    p.expect(end)
    return vals

class Inst:
    __slots__ = ("op", "res", "ty", "ops", "x", "flags", "text")
    def __init__(self, op, res, ty=None, ops=(), x=None, flags=()):
        self.op, self.res, self.ty, self.ops, self.x, self.flags = op, res, ty, list(ops), x, flags
        self.text = None

class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}      # label -> [Inst]
        self.order = []

class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}
    def named(self, x):
        t = self.types.get(x)
        if t is None:
            t = Ty("struct")
            self.types[x] = t
        return t

def layout(t):
    if t.size is not None:
        return t
    if t.k in ("array", "vec"):
        layout(t.e)
        t.align = t.e.align
        t.size = t.n * t.e.size
        if t.k == "vec":
            t.align = t.size
    elif t.k == "struct":
        off, al, offs = 0, 1, []
        for f in t.fs or []:
            layout(f)
            a = 1 if t.packed else f.align
            off = (off + a - 1) // a * a
            offs.append(off)
            off += f.size
            al = max(al, a)
        t.offs = offs
        t.align = al
        t.size = (off + al - 1) // al * al
    return t

BIN = set("add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem".split())
CAST = set("trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast freeze addrspacecast".split())
FLAGW = set("nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc disjoint nneg volatile tail musttail notail samesign nusw".split())

def parse_inst(p):
    res = None
    if p.kind() == "lid" and p.t[p.i + 1][1] == "=":
        res = p.next(); p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    fl = []
    while p.peek() in FLAGW:
        fl.append(p.next())
    if op in BIN:
        t = p.type(); a = parse_value(p, t); p.expect(","); b = parse_value(p, t)
        return Inst(op, res, t, [a, b], None, fl)
    if op == "fneg":
        t = p.type(); return Inst(op, res, t, [parse_value(p, t)], None, fl)
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGW:
            fl.append(p.next())
        c = p.next()
        t = p.type(); a = parse_value(p, t); p.expect(","); b = parse_value(p, t)
        return Inst(op, res, t, [a, b], c, fl)
    if op in CAST:
        t = p.type(); a = parse_value(p, t)
        if op == "freeze":
            return Inst(op, res, t, [a], t)
        p.expect("to")
        t2 = p.type()
        return Inst(op, res, t2, [a], t, fl)
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = parse_value(p, t); p.expect(","); l = p.next(); p.expect("]")
            inc.append((v, l))
            if not p.accept(","):
                break
            if p.kind() == "meta":
                break
        return Inst(op, res, t, [], inc)
    if op == "br":
        if p.peek() == "label":
            p.next(); return Inst("jmp", None, None, [], p.next())
        t = p.type(); c = parse_value(p, t); p.expect(","); p.expect("label"); a = p.next(); p.expect(","); p.expect("label"); b = p.next()
        return Inst("br", None, t, [c], (a, b))
    if op == "switch":
        t = p.type(); c = parse_value(p, t); p.expect(","); p.expect("label"); d = p.next(); p.expect("[")
        cases = []
        while not p.accept("]"):
            t2 = p.type(); v = parse_value(p, t2); p.expect(","); p.expect("label"); cases.append((v.v, p.next()))
        return Inst("switch", None, t, [c], (d, cases))
    if op == "ret":
        t = p.type()
        if t is T_VOID:
            return Inst("ret", None, t, [])
        return Inst("ret", None, t, [parse_value(p, t)])
    if op == "unreachable":
        return Inst("unreachable", None)
    if op == "alloca":
        t = p.type()
        n = None
        if p.accept(","):
            if p.peek() != "align":
                t2 = p.type(); n = parse_value(p, t2)
        return Inst("alloca", res, t, [n] if n else [])
    if op == "load":
        t = p.type(); p.expect(","); t2 = p.type(); a = parse_value(p, t2)
        return Inst("load", res, t, [a])
    if op == "store":
        t = p.type(); v = parse_value(p, t); p.expect(","); t2 = p.type(); a = parse_value(p, t2)
        return Inst("store", None, t, [v, a])
    if op == "getelementptr":
        while p.peek() in FLAGW:
            p.next()
        bt = p.type(); p.expect(",")
        ops = []
        while True:
            t = p.type(); ops.append(parse_value(p, t))
            if not p.accept(","):
                break
            if p.kind() == "meta":
                break
        return Inst("gep", res, bt, ops)
    if op == "select":
        t = p.type(); c = parse_value(p, t); p.expect(","); t1 = p.type(); a = parse_value(p, t1); p.expect(","); t2 = p.type(); b = parse_value(p, t2)
        return Inst("select", res, t1, [c, a, b])
    if op in ("call",):
        while p.peek() in FLAGW or p.peek() in ("fastcc", "ccc", "cc"):
            p.next()
        skip_attrs(p)
        t = p.type()
        if p.peek() == "(":       # function type
            d = 0
            while True:
                y = p.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
                    if d == 0:
                        break
        callee = parse_value(p, T_PTR)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                at = p.type()
                if at is T_META:
                    # swallow metadata operand
                    p.next()
                    while p.peek() not in (",", ")"):
                        p.next()
                    args.append(Operand("meta", 0, at))
                else:
                    skip_attrs(p)
                    args.append(parse_value(p, at))
                if not p.accept(","):
                    break
            p.expect(")")
        return Inst("call", res, t, args, callee)
    if op == "extractvalue":
        t = p.type(); a = parse_value(p, t); idx = []
        while p.accept(","):
            if p.kind() == "meta":
                break
            idx.append(int(p.next()))
        return Inst(op, res, t, [a], idx)
    if op == "insertvalue":
        t = p.type(); a = parse_value(p, t); p.expect(","); t2 = p.type(); b = parse_value(p, t2); idx = []
        while p.accept(","):
            if p.kind() == "meta":
                break
            idx.append(int(p.next()))
        return Inst(op, res, t, [a, b], idx)
    if op in ("extractelement",):
        t = p.type(); a = parse_value(p, t); p.expect(","); t2 = p.type(); b = parse_value(p, t2)
        return Inst(op, res, t, [a, b])
    if op == "insertelement":
        t = p.type(); a = parse_value(p, t); p.expect(","); t2 = p.type(); b = parse_value(p, t2); p.expect(","); t3 = p.type(); c = parse_value(p, t3)
        return Inst(op, res, t, [a, b, c])
    if op == "shufflevector":
        t = p.type(); a = parse_value(p, t); p.expect(","); t2 = p.type(); b = parse_value(p, t2); p.expect(","); t3 = p.type(); c = parse_value(p, t3)
        return Inst(op, res, t, [a, b, c])
    raise SyntaxError("inst " + op)

def parse_module(text):
    mod = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in (";", "!", "^") or ln.startswith(("target", "source_filename", "attributes", "module asm")):
            continue
        if ln[0] == "%":
            p = P(tokenize(ln), mod)
            nm = p.next(); p.expect("="); p.expect("type")
            t = mod.named(nm)
            if p.peek() == "opaque":
                t.fs = []
                continue
            s = p.type()
            t.fs, t.n, t.packed = s.fs, s.n, s.packed
            continue
        if ln[0] == "$":
            continue
        if ln[0] == "@":
            mod_glob(mod, ln)
            continue
        if ln.startswith("declare"):
            m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
            if m:
                mod.decls[m.group(1)] = ln
            continue
        if ln.startswith("define"):
            body = []
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            i += 1
            f = parse_func(mod, ln, body)
            mod.funcs[f.name] = f
    return mod

GL = re.compile(r'^(@(?:"[^"]*"|[-\w$.]+)) = (.*?)\b(global|constant)\b (.*)$')
def mod_glob(mod, ln):
    m = GL.match(ln)
    if not m:
        return
    if "external" in m.group(2):
        mod.globals[m.group(1)] = (None, None, False)
        return
    mod.globals[m.group(1)] = (m.group(4), None, m.group(3) == "constant")   # lazily parsed

def glob_init(mod, name):
    src, val, const = mod.globals[name]
    if val is None and src is not None:
        p = P(tokenize(src), mod)
        t = p.type()
        v = parse_value(p, t)
        mod.globals[name] = val_t = (src, (t, v), const)
        return t, v
    return val

def parse_func(mod, head, body):
    m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', head)
    name = m.group(1)
    # return type: tokens between attributes and name
    pre = head[len("define"):m.start()]
    toks = tokenize(pre)
    p = P(toks, mod)
    while p.i < len(toks):
        x = p.peek()
        if x in ("dso_local", "linkonce_odr", "internal", "private", "weak_odr", "available_externally", "hidden", "fastcc", "weak", "local_unnamed_addr", "unnamed_addr", "protected"):
            p.next()
        else:
            skip_attrs(p)
            x = p.peek()
            if x in ("fastcc",):
                continue
            break
    ret = p.type()
    # params
    j = m.end()
    d = 1
    k = j
    while d:
        if head[k] == "(":
            d += 1
        elif head[k] == ")":
            d -= 1
        k += 1
    ptoks = tokenize(head[j:k - 1])
    p = P(ptoks, mod)
    params = []
    idx = 0
    while p.i < len(ptoks):
        if p.peek() == "...":
            break
        t = p.type(); skip_attrs(p)
        if p.kind() == "lid":
            params.append((p.next(), t))
        else:
            params.append(("%" + str(idx), t))
        idx += 1
        p.accept(",")
    f = Func(name, ret, params)
    cur = None
    # join switch lines
    joined = []
    acc = None
    for ln in body:
        s = ln.strip()
        if not s or s[0] == ";":
            continue
        if acc is not None:
            acc += " " + s
            if s.startswith("]"):
                joined.append(acc); acc = None
            continue
        if s.startswith("switch") and not s.rstrip().endswith("]"):
            acc = s
            continue
        joined.append(s)
    entry_label = None
    for s in joined:
        lm = re.match(r'^("(?:[^"]*)"|[-\w$.]+):(\s*;.*)?$', s)
        if lm:
            cur = "%" + lm.group(1)
            f.blocks[cur] = []; f.order.append(cur)
            continue
        if cur is None:
            # implicit entry label: number after params
            nnum = sum(1 for a, _ in params if a[1:].isdigit())
            cur = "%" + str(nnum)
            f.blocks[cur] = []; f.order.append(cur)
        c = s.find("; ")
        # keep comments out (no string constants appear in function bodies)
        if c > 0 and '"' not in s:
            s = s[:c]
        f.blocks[cur].append(s)
    return f

def parse_blocks(mod, f):
    """second phase, done lazily for functions that are actually executed"""
    for l in f.order:
        ins = []
        for s in f.blocks[l]:
            p = P(tokenize(s), mod)
            it = parse_inst(p)
            it.text = s
            ins.append(it)
        f.blocks[l] = ins
    return f
