"""Models of the allocator (trusted: allocation succeeds and returns fresh, non-overlapping memory)."""
import re
from dom import *
from interp import *

def alloc(it, args, dem, fn):
    n = it.ctx.refresh(args[0]) if not isinstance(args[0], int) else args[0]
    if not isinstance(n, int): return Ptr(Obj("heap", n, kind="rope", d=[]), 0)
    return Ptr(Obj("heap", n, kind=None), 0)
def alloc_zeroed(it, args, dem, fn):
    p = alloc(it, args, dem, fn)
    if p.obj.kind == "rope": raise Unsupported("zeroed symbolic allocation")
    it.mem.write(p.obj, 0, p.obj.size, 0)
    return p
def dealloc(it, args, dem, fn): return None
def realloc(it, args, dem, fn):
    old, osz, al, nsz = args
    p = alloc(it, [nsz], dem, fn)
    o = old.obj
    if p.obj.kind is None and o.kind is None:
        it.memcpy(p, old, min(it.ctx.force(osz), p.obj.size)); return p
    # contents move to the new block (growing only)
    if p.obj.kind is None: raise Unsupported("shrinking reallocation")
    if o.kind == "rope": p.obj.d = list(o.d); return p
    bs = []
    for i in range(o.size):
        v = it.mem.read(o, i, 1)
        if v is UNDEF: break
        bs.append(v)
    if any(x >= len(bs) for x in o.own): raise Unsupported("reallocation of a sparse block")
    p.obj.d = [("b", bs)] if bs else []
    return p
def grow_one(it, args, dem, fn):
    """RawVec<u8>::grow_one (liballoc): amortised growth by at least one element"""
    import dwarf
    d = it.mod.__dict__.get("dwarf") or it.mod.__dict__.setdefault("dwarf", dwarf.Dwarf(it.mod))
    mem = d.members(d.find("RawVecInner<alloc::alloc::Global>"))
    v = args[0]; po, co = mem["ptr"][0], mem["cap"][0]
    cap = it.mem.read(v.obj, v.off + co, 8); p = it.mem.read(v.obj, v.off + po, 8)
    cap = it.ctx.refresh(cap)
    if isinstance(cap, int):
        n = max(8, 2 * cap)
        q = Ptr(Obj("heap", n), 0) if cap == 0 else realloc(it, [p, cap, 1, n], dem, fn)
    else:
        n = it.ctx.mul(cap, 2, 64); q = realloc(it, [p, cap, 1, n], dem, fn)
    it.mem.write(v.obj, v.off + po, 8, q); it.mem.write(v.obj, v.off + co, 8, n)
def noop(it, args, dem, fn): return None
MODELS = [(re.compile(r"<alloc::raw_vec::RawVec<u8>>::grow_one$"), grow_one), (re.compile(r"(.*::)?__rust_alloc$"), alloc), (re.compile(r"(.*::)?__rust_alloc_zeroed$"), alloc_zeroed),
          (re.compile(r"(.*::)?__rust_dealloc$"), dealloc), (re.compile(r"(.*::)?__rust_realloc$"), realloc),
          (re.compile(r"(.*::)?__rust_no_alloc_shim_is_unstable(_v2)?$"), noop)]
