"""Parser for the textual LLVM IR that rustc emits (opt-level 0 subset)."""
import re

class Ty:
    __slots__ = ("k", "n", "el", "fs", "_size", "_align")
    def __init__(s, k, n=0, el=None, fs=None):
        s.k = k; s.n = n; s.el = el; s.fs = fs
    def __repr__(s):
        return {"i": "i%d" % s.n, "p": "ptr", "v": "void"}.get(s.k, s.k)

PTR = Ty("p"); VOID = Ty("v")
_ints = {}
def I(n):
    if n not in _ints: _ints[n] = Ty("i", n)
    return _ints[n]

class Fn:
    __slots__ = ("name", "dem", "params", "ret", "blocks", "order", "entry", "body", "parsed", "mod", "dbgnames", "regw")

class ParseErr(Exception):
    pass

TOK = re.compile(r'''c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@!#][\w.$\-]*|"[^"]*"|<\{|\}>|\.\.\.|-?\d+|[\w.$]+|[(){}\[\]<>,=*:]''')

class P:
    def __init__(s, txt, mod):
        s.t = TOK.findall(txt); s.i = 0; s.mod = mod
    def peek(s, o=0):
        return s.t[s.i + o] if s.i + o < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1; return v
    def accept(s, v):
        if s.peek() == v:
            s.i += 1; return True
        return False
    def expect(s, v):
        x = s.next()
        if x != v: raise ParseErr("expected %s got %s in %s" % (v, x, " ".join(s.t)[:200]))
    def type(s):
        t = s.next()
        if t == "void": return VOID
        if t == "ptr": return PTR
        if t[0] == "i" and t[1:].isdigit(): return I(int(t[1:]))
        if t == "[":
            n = int(s.next()); s.expect("x"); el = s.type(); s.expect("]")
            return Ty("a", n, el)
        if t == "{" or t == "<{":
            fs = []
            end = "}" if t == "{" else "}>"
            while not s.accept(end):
                fs.append(s.type()); s.accept(",")
            return Ty("s" if t == "{" else "S", 0, None, fs)
        if t == "<":
            n = int(s.next()); s.expect("x"); el = s.type(); s.expect(">")
            return Ty("vec", n, el)
        if t[0] == "%":
            return s.mod.types[t]
        if t in ("float", "double", "half", "metadata", "token", "x86_fp80", "fp128", "label"):
            return Ty(t)
        raise ParseErr("type? " + t + " :: " + " ".join(s.t)[:200])
    def value(s, ty):
        """operand -> ('c',int) ('l',name) ('g',name) ('undef',) ('zero',ty) ('agg',[..]) ('gep',base,off) ('null',)"""
        t = s.next()
        if t[0] == "%": return ("l", t)
        if t[0] == "@": return ("g", t)
        if t == "true": return ("c", 1)
        if t == "false": return ("c", 0)
        if t in ("undef", "poison"): return ("undef",)
        if t == "null": return ("c", 0)
        if t == "zeroinitializer":
            return ("zero", ty)
        if t[0] == "-" or t.isdigit():
            v = int(t)
            if ty.k == "i": v &= (1 << ty.n) - 1
            return ("c", v)
        if t[0] == "c" and t[1:2] == '"':
            return ("bytes", unesc(t[2:-1]))
        if t == "[":
            vs = []
            while not s.accept("]"):
                et = s.type(); vs.append((et, s.value(et))); s.accept(",")
            return ("agg", vs)
        if t in ("<{", "{"):
            end = "}" if t == "{" else "}>"
            vs = []
            while not s.accept(end):
                et = s.type(); vs.append((et, s.value(et))); s.accept(",")
            return ("agg", vs)
        if t == "getelementptr":
            while s.peek() != "(": s.next()
            s.expect("(")
            bt = s.type(); s.expect(",")
            pt = s.type(); base = s.value(pt)
            idx = []
            while s.accept(","):
                it = s.type(); idx.append((it, s.value(it)))
            s.expect(")")
            return ("gep", bt, base, idx)
        if t in ("inttoptr", "ptrtoint", "bitcast", "trunc"):
            s.expect("("); st = s.type(); v = s.value(st); s.expect("to"); dt = s.type(); s.expect(")")
            return ("cast", t, st, v, dt)
        if t in ("sub", "add"):
            raise ParseErr("constexpr " + t)
        raise ParseErr("value? " + t + " :: " + " ".join(s.t)[:300])

def unesc(x):
    out = bytearray(); i = 0
    while i < len(x):
        if x[i] == "\\":
            if x[i + 1] == "\\": out.append(92); i += 2
            else:
                out.append(int(x[i + 1:i + 3], 16)); i += 3
        else:
            out += x[i].encode("utf8"); i += 1
    return bytes(out)

def size_align(t):
    try:
        return t._size, t._align
    except AttributeError:
        pass
    if t.k == "i":
        b = (t.n + 7) // 8; s = 1
        while s < b: s *= 2
        r = (s, min(s, 16))
    elif t.k == "p": r = (8, 8)
    elif t.k == "a":
        s, a = size_align(t.el); r = (s * t.n, a)
    elif t.k == "vec":
        s, a = size_align(t.el); r = (s * t.n, s * t.n)
    elif t.k == "S":
        r = (sum(size_align(f)[0] for f in t.fs), 1)
    elif t.k == "s":
        off = 0; al = 1
        for f in t.fs:
            s, a = size_align(f); al = max(al, a)
            off = (off + a - 1) // a * a + s
        r = ((off + al - 1) // al * al, al)
    else:
        raise ParseErr("size of " + t.k)
    t._size, t._align = r
    return r

def sizeof(t): return size_align(t)[0]

def field_off(t, i):
    if t.k == "S":
        return sum(size_align(f)[0] for f in t.fs[:i])
    off = 0
    for j, f in enumerate(t.fs):
        s, a = size_align(f)
        off = (off + a - 1) // a * a
        if j == i: return off
        off += s

ATTRS = {"align", "sret", "noundef", "nonnull", "dereferenceable", "zeroext", "signext", "noalias", "nocapture",
         "readonly", "writeonly", "captures", "allocptr", "allocalign", "immarg", "range", "returned", "inreg",
         "readnone", "byval", "dead_on_return", "initializes", "align"}

class Module:
    def __init__(s):
        s.types = {}; s.globals = {}; s.fns = {}; s.decls = {}; s.bydem = {}; s.meta = []
    def load(s, path):
        text = open(path, encoding="utf8").read()
        s.nfiles = getattr(s, "nfiles", 0) + 1
        if s.nfiles > 1:
            # separate name spaces for metadata and module-local constants
            k = s.nfiles
            text = re.sub(r"!(\d+)", lambda m: "!%d" % (int(m.group(1)) + k * 10**7), text)
            text = re.sub(r"@(vtable\.|anon\.|switch\.|str\.|const)", lambda m: "@f%d_%s" % (k, m.group(1)), text)
            text = re.sub(r"@(\d+)\b", lambda m: "@f%d_%s" % (k, m.group(1)), text)
        lines = text.split("\n")
        n = len(lines)
        # named types first (opaque until all are known)
        tl = [l for l in lines if l.startswith("%") and " = type " in l]
        pend = {}
        for l in tl:
            nm, d = l.split(" = type ", 1)
            s.types[nm] = Ty("named")
            pend[nm] = d
        for nm, d in pend.items():
            if d.startswith("opaque"):
                continue
            t = P(d, s).type()
            o = s.types[nm]; o.k = t.k; o.n = t.n; o.el = t.el; o.fs = t.fs
        prev = ""; i = 0
        while i < n:
            l = lines[i]
            if l.startswith("@"):
                s.globals.setdefault(l.split(" ", 1)[0], l)
            elif l.startswith("!") and " = " in l:
                s.meta.append(l)
            elif l.startswith("define"):
                j = i
                while lines[j] != "}": j += 1
                f = Fn(); f.parsed = False; f.mod = s
                m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', l)
                f.name = "@" + m.group(1)
                dem = ""
                for back in (1, 2, 3):
                    pl = lines[i - back]
                    if pl.startswith("; ") and not pl.startswith("; Function Attrs"):
                        dem = pl[2:]; break
                    if not pl.startswith("; Function Attrs"): break
                f.dem = dem
                f.body = lines[i:j]
                if f.name not in s.fns:
                    s.fns[f.name] = f
                    s.bydem.setdefault(dem, []).append(f)
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', l)
                dem = lines[i - 1]
                for back in (1, 2, 3):
                    pl = lines[i - back]
                    if pl.startswith("; ") and not pl.startswith("; Function Attrs"):
                        s.decls["@" + m.group(1)] = pl[2:]; break
                    if not pl.startswith("; Function Attrs"): break
            i += 1
        s.lines = lines
    # ------------------------------------------------------------------ functions
    def fn(s, name):
        f = s.fns.get(name)
        if f is None: return None
        if not f.parsed: s.parse_fn(f)
        return f
    def parse_params(s, p):
        out = []
        while not p.accept(")"):
            if p.accept("..."): continue
            ty = p.type(); sret = None
            while p.peek() not in (",", ")") and p.peek()[0] not in "%":
                a = p.next()
                if a == "sret":
                    p.expect("("); sret = p.type(); p.expect(")")
                elif p.peek() == "(":
                    d = 0
                    while True:
                        x = p.next()
                        if x == "(": d += 1
                        if x == ")":
                            d -= 1
                            if d == 0: break
                elif a == "align":
                    p.next()
            nm = p.next() if p.peek()[0] == "%" else None
            out.append((ty, nm, sret)); p.accept(",")
        return out
    def skip_attrs(s, p):
        while True:
            t = p.peek()
            if t in ("void", "ptr", "{", "[", "<{", "<") or (t[0] == "i" and t[1:].isdigit()) or t[0] == "%":
                return
            p.next()
            if p.peek() == "(":
                d = 0
                while True:
                    x = p.next()
                    if x == "(": d += 1
                    if x == ")":
                        d -= 1
                        if d == 0: break
            elif t == "align":
                p.next()
    def parse_fn(s, f):
        hdr = f.body[0]
        p = P(hdr, s)
        p.next()
        s.skip_attrs(p)
        f.ret = p.type()
        nm = p.next(); p.expect("(")
        f.params = s.parse_params(p)
        f.blocks = {}; f.order = []
        cur = None; lab = None
        f.dbgnames = {}
        k = 1
        body = f.body
        pendcall = None
        while k < len(body):
            l = body[k]; k += 1
            if not l.strip(): continue
            if l[0] != " ":
                if l.startswith(";"):
                    if l.startswith("; call "): pendcall = l[7:]
                    continue
                m = re.match(r'("?[^":]+"?|"[^"]*"):', l)
                lab = "%" + m.group(1)
                cur = []; f.blocks[lab] = cur; f.order.append(lab)
                continue
            if l.lstrip().startswith("#dbg"):
                m = re.match(r'\s+#dbg_declare\(ptr (%[\w.]+|%"[^"]*"), (!\d+)', l)
                if m: f.dbgnames[m.group(1)] = m.group(2)
                continue
            if cur is None:
                lab = "%0"; cur = []; f.blocks[lab] = cur; f.order.append(lab)
            txt = l.strip()
            if txt.startswith("switch"):
                while not txt.rstrip().split(", !dbg")[0].endswith("]"):
                    txt += " " + body[k].strip(); k += 1
            if txt.startswith("invoke") or " = invoke" in txt:
                txt += " " + body[k].strip(); k += 1
            cur.append(s.parse_instr(txt, pendcall)); 
            pendcall = None
        f.entry = f.order[0]
        f.parsed = True
    def parse_instr(s, txt, dem):
        # strip metadata
        c = txt.find(", !")
        if c >= 0: txt = txt[:c]
        p = P(txt, s)
        dst = None
        if p.peek()[0] == "%" and p.peek(1) == "=":
            dst = p.next(); p.next()
        op = p.next()
        if op == "tail" or op == "musttail" or op == "notail": op = p.next()
        if op == "alloca":
            t = p.type()
            return ("alloca", dst, sizeof(t))
        if op == "load":
            if p.peek() in ("volatile", "atomic"): p.next()
            t = p.type(); p.expect(","); pt = p.type(); v = p.value(pt)
            return ("load", dst, t, v)
        if op == "store":
            if p.peek() in ("volatile", "atomic"): p.next()
            t = p.type(); v = p.value(t); p.expect(","); pt = p.type(); a = p.value(pt)
            return ("store", None, t, v, a)
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            bt = p.type(); p.expect(","); pt = p.type(); base = p.value(pt); idx = []
            while p.accept(","):
                it = p.type(); idx.append((it, p.value(it)))
            return ("gep", dst, bt, base, idx)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"): p.next()
            t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
            return ("bin", dst, op, t, a, b)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            while p.peek() in ("nuw", "nsw", "nneg"): p.next()
            t = p.type(); a = p.value(t)
            if op == "freeze": return ("cast", dst, "freeze", t, a, t)
            p.expect("to"); dt = p.type()
            return ("cast", dst, op, t, a, dt)
        if op == "icmp":
            while p.peek() in ("samesign",): p.next()
            pred = p.next(); t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
            return ("icmp", dst, pred, t, a, b)
        if op == "select":
            t = p.type(); c = p.value(t); p.expect(","); t1 = p.type(); a = p.value(t1); p.expect(",")
            t2 = p.type(); b = p.value(t2)
            return ("select", dst, c, t1, a, b)
        if op == "br":
            if p.accept("label"): return ("br", None, p.next())
            t = p.type(); c = p.value(t); p.expect(","); p.expect("label"); a = p.next(); p.expect(","); p.expect("label")
            return ("cbr", None, c, a, p.next())
        if op == "switch":
            t = p.type(); v = p.value(t); p.expect(","); p.expect("label"); d = p.next(); p.expect("[")
            cs = []
            while not p.accept("]"):
                ct = p.type(); cv = p.value(ct); p.expect(","); p.expect("label"); cs.append((cv[1], p.next()))
            return ("switch", None, t, v, d, cs)
        if op == "ret":
            t = p.type()
            if t.k == "v": return ("ret", None, None, None)
            return ("ret", None, t, p.value(t))
        if op == "unreachable": return ("unreachable", None)
        if op == "resume": return ("unreachable", None)
        if op == "extractvalue":
            t = p.type(); v = p.value(t); ix = []
            while p.accept(","): ix.append(int(p.next()))
            return ("extract", dst, v, ix)
        if op == "insertvalue":
            t = p.type(); v = p.value(t); p.expect(","); et = p.type(); e = p.value(et); ix = []
            while p.accept(","): ix.append(int(p.next()))
            return ("insert", dst, t, v, e, ix)
        if op == "phi":
            t = p.type(); inc = []
            while True:
                p.expect("["); v = p.value(t); p.expect(","); lb = p.next(); p.expect("]"); inc.append((v, lb))
                if not p.accept(","): break
            return ("phi", dst, t, inc)
        if op in ("call", "invoke"):
            s.skip_attrs(p)
            rt = p.type()
            if p.peek() == "(":   # function type
                d = 0
                while True:
                    x = p.next()
                    if x == "(": d += 1
                    if x == ")":
                        d -= 1
                        if d == 0: break
            callee = p.value(PTR)
            p.expect("(")
            args = []
            while not p.accept(")"):
                ty = p.type(); sret = None
                if ty.k == "metadata":
                    while p.peek() not in (",", ")"): p.next()
                    p.accept(","); continue
                while p.peek() in ATTRS or (p.peek()[0].isalpha() and p.peek() not in
                        ("true", "false", "undef", "poison", "null", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "c")
                        and not p.peek().startswith('c"')):
                    a = p.next()
                    if a == "align": p.next()
                    elif p.peek() == "(":
                        if a == "sret":
                            p.expect("("); sret = p.type(); p.expect(")")
                        else:
                            d = 0
                            while True:
                                x = p.next()
                                if x == "(": d += 1
                                if x == ")":
                                    d -= 1
                                    if d == 0: break
                args.append((ty, p.value(ty), sret)); p.accept(",")
            nl = None
            if op == "invoke":
                while p.peek() != "to": p.next()
                p.expect("to"); p.expect("label"); nl = p.next()
            return ("call", dst, rt, callee, args, dem, nl)
        if op == "fence": return ("call", None, None, ("g", "@llvm.lifetime.fence"), [], None, None)
        if op == "atomicrmw":
            if p.peek() == "volatile": p.next()
            ao = p.next(); pt = p.type(); a = p.value(pt); p.expect(","); t = p.type(); v = p.value(t)
            return ("atomicrmw", dst, ao, t, a, v)
        if op == "cmpxchg":
            while p.peek() in ("weak", "volatile"): p.next()
            pt = p.type(); a = p.value(pt); p.expect(","); t = p.type(); e = p.value(t); p.expect(","); p.type(); v = p.value(t)
            return ("cmpxchg", dst, t, a, e, v)
        if op == "landingpad": return ("unreachable", None)
        return ("unsupported", dst, txt)
    def init_bytes(s, name):
        """global initialiser -> (size, [(off, n, value)]) value int or ('g',name,off)"""
        l = s.globals[name]
        m = re.search(r' (?:constant|global) ', l)
        txt = l[m.end():]
        p = P(txt, s)
        t = p.type(); v = p.value(t)
        out = []
        def emit(t, v, off):
            k = v[0]
            if k == "bytes":
                b = v[1]; out.append((off, len(b), int.from_bytes(b, "little")))
            elif k == "zero":
                if sizeof(t): out.append((off, sizeof(t), 0))
            elif k == "undef": pass
            elif k == "c": out.append((off, sizeof(t), v[1]))
            elif k == "g": out.append((off, 8, ("g", v[1], 0)))
            elif k == "gep":
                o = sum(sizeof(v[1]) * ix[1][1] for ix in v[3])
                out.append((off, 8, ("g", v[2][1], o)))
            elif k == "agg":
                for i, (et, e) in enumerate(v[1]):
                    o = off + (i * sizeof(et) if t.k == "a" else field_off(t, i))
                    emit(et, e, o)
            elif k == "cast": out.append((off, 8, v[3][1]))
            else: raise ParseErr("init " + k)
        emit(t, v, 0)
        return sizeof(t), out
