"""Trusted model of the hex crate (encode, decode_to_slice, decode) and of the thread random generator."""
import re
from dom import *
from interp import *
import rope, dwarf, ir

DIG = b"0123456789abcdef"
def enc(ctx, bs):
    """lower-case hex text of byte values; two uninterpreted digits per symbolic byte"""
    m = ctx.__dict__.setdefault("hexm", {}); inv = ctx.__dict__.setdefault("hexinv", {})
    out = []
    for b in bs:
        k = rope.bkey(ctx, b)
        if isinstance(k, int): out += [DIG[k >> 4], DIG[k & 15]]; continue
        if k not in m:
            m[k] = (ctx.fresh("hexd", 8, 48, 102), ctx.fresh("hexd", 8, 48, 102))
            inv[tuple(rope.bkey(ctx, x) for x in m[k])] = b
        out += list(m[k])
    return out
def dec(it, text, assume=False):
    """byte values of a text of even length, or None when it is not hex (forks on one uninterpreted validity bit)"""
    ctx = it.ctx
    inv = ctx.__dict__.setdefault("hexinv", {}); vals = ctx.__dict__.setdefault("hexval", {}); memo = ctx.__dict__.setdefault("hexok", {})
    out = []; open_ = []
    for i in range(0, len(text), 2):
        k = tuple(rope.bkey(ctx, x) for x in text[i:i + 2])
        if all(isinstance(x, int) for x in k):
            try: out.append(int(bytes(k).decode("ascii"), 16) if re.match(rb"^[0-9a-fA-F]{2}$", bytes(k)) else None)
            except ValueError: out.append(None)
            if out[-1] is None: return None
            continue
        if k in inv: out.append(inv[k]); continue
        for x in k:
            if isinstance(x, int) and chr(x) not in "0123456789abcdefABCDEF": return None
        if k not in vals: vals[k] = ctx.fresh("hexv", 8)
        out.append(vals[k]); open_.append(k)
    if open_:
        key = tuple(open_)
        if key not in memo: memo[key] = ctx.atom("hexvalid", 0, 1).id
        i = memo[key]
        if ctx.atoms[i].const is None: ctx.decide(i, [1] if assume else [1, 0])
        if not ctx.atoms[i].const: return None
    return out

def D(it): return it.mod.__dict__.get("dwarf") or it.mod.__dict__.setdefault("dwarf", dwarf.Dwarf(it.mod))
def find_off(d, i, names):
    """offset of a nested field given acceptable names on the way (first match, depth first)"""
    for n, (o, t) in d.members(i).items():
        if n == names[0]:
            if len(names) == 1: return o
            return o + find_off(d, t, names[1:])
    raise Unsupported("layout")
def string_parts(it, p):
    """(data pointer, length) of a String / Vec<u8> at p"""
    d = D(it); v = d.find("Vec<u8, alloc::alloc::Global>")
    lo = d.members(v)["len"][0]; b, bt = d.members(v)["buf"]
    i, itp = d.members(bt)["inner"]
    m = d.members(itp)
    po = b + i + m["ptr"][0]; co = b + i + m["cap"][0]
    return po, co, lo
def read_string(it, p):
    po, co, lo = string_parts(it, p)
    return it.mem.read(p.obj, p.off + po, 8), it.mem.read(p.obj, p.off + lo, 8)
def write_string(it, p, bs):
    po, co, lo = string_parts(it, p)
    o = Obj("heap", len(bs))
    for i, b in enumerate(bs): it.mem.write(o, i, 1, b)
    it.mem.write(p.obj, p.off + po, 8, Ptr(o, 0)); it.mem.write(p.obj, p.off + co, 8, len(bs)); it.mem.write(p.obj, p.off + lo, 8, len(bs))

def source(it, dem, args):
    """(pointer, length, remaining args) of a T: AsRef<[u8]> argument"""
    t = re.search(r"::<(.*)>$", dem).group(1)
    while t.startswith("&&"): raise Unsupported("hex argument " + t)
    m = re.match(r"^&?\[u8; (\d+)\]$", t)
    if m: return args[0], int(m.group(1)), args[1:]
    if t in ("&str", "&[u8]"): return args[0], args[1], args[2:]
    if t in ("&alloc::string::String", "alloc::string::String", "&alloc::vec::Vec<u8>", "alloc::vec::Vec<u8>"):
        p, n = read_string(it, args[0]); return p, n, args[1:]
    raise Unsupported("hex argument " + t)
def err(it, sret, rt, name):
    d = D(it); f = d.write_enum(it, sret, rt, "Err"); o, ty = f["__0"]
    f = d.write_enum(it, Ptr(sret.obj, sret.off + o), ty, name)
    for n, (fo, ft) in f.items():
        w = 4 if n == "c" else 8
        it.mem.write(sret.obj, sret.off + o + fo, w, it.ctx.fresh("hexerr", 8 * w, 0, 127))
def m_decode_to_slice(it, args, dem, fn):
    ctx = it.ctx; sret = args[0]
    p, n, rest = source(it, dem, args[1:]); out, no = rest
    rt = D(it).find("Result<(), hex::error::FromHexError>")
    n = ctx.refresh(n); no = ctx.force(no)
    if not ctx.truth(ctx.icmp("eq", n, 2 * no, 64)): err(it, sret, rt, "InvalidStringLength"); return None
    sq = rope.seq_of(it, p, 2 * no)
    if any(s[0] != "b" for s in sq): raise Unsupported("hex text of symbolic content")
    text = [b for s in sq for b in s[1]]
    v = dec(it, text)
    if v is None: err(it, sret, rt, "InvalidHexCharacter"); return None
    for i, b in enumerate(v): it.mem.write(out.obj, out.off + i, 1, b)
    D(it).write_enum(it, sret, rt, "Ok"); return None
def m_encode(it, args, dem, fn):
    p, n, rest = source(it, dem, args[1:])
    sq = rope.seq_of(it, p, it.ctx.force(n))
    if any(s[0] != "b" for s in sq): raise Unsupported("hex of symbolic content")
    write_string(it, args[0], enc(it.ctx, [b for s in sq for b in s[1]])); return None
def m_fill(it, args, dem, fn):
    n = it.ctx.force(args[2]); r = it.ctx.__dict__.setdefault("rnd", [])
    for i in range(n):
        r.append(it.ctx.fresh("rnd%d" % len(r), 8)); it.mem.write(args[1].obj, args[1].off + i, 1, r[-1])
    return None
def m_rng(it, args, dem, fn): return Ptr(Obj("rng", 64), 0)
def noop(it, args, dem, fn): return None
MODELS = [(re.compile(r"hex::decode_to_slice::<.*>$"), m_decode_to_slice), (re.compile(r"hex::encode::<.*>$"), m_encode),
          (re.compile(r"rand::rngs::thread::thread_rng$"), m_rng), (re.compile(r"<rand::rngs::thread::ThreadRng as rand_core::RngCore>::fill_bytes$"), m_fill),
          (re.compile(r"core::ptr::drop_(in_place|glue)::<rand::rngs::thread::ThreadRng>$"), noop)]
