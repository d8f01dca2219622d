"""Models of core/alloc operations used by the analysed program. Everything else is analysed from its own MIR."""
import re
from .terms import *
from .interp import Unsupported, NeedSplit
# library functions whose work does not grow with a length (or whose rounds are accounted where they are summarised);
# every other modelled function is charged the lengths it is given
CONSTANT_TIME = re.compile(r"(from|to)_(le|ne|be)_bytes$|(to|from)_bits$|<impl [iu](8|16|32|64|128|size)>::|^std::cmp::(min|max)$|Ord::(min|max)$|Ord for [iu].*>::(min|max)$|"
    r"^std::mem::|^std::hint::|^std::intrinsics::(?!copy)|^std::ptr::(?!copy)|precondition_check|ub_checks|from_raw_parts|slice_from_raw_parts|"
    r"::(index|index_mut|get|get_mut|get_unchecked|get_unchecked_mut|split_at\w*|first|first_mut|last|last_mut|split_first\w*|split_last\w*|as_ptr|as_mut_ptr|len|is_empty|swap|iter|iter_mut|into_iter|"
    r"next|next_back|size_hint|count|nth|as_slice|as_mut_slice|as_ref|as_mut|try_from|as_bytes|new|with_capacity|clear|capacity|push|truncate|deref|deref_mut|from|into|borrow|borrow_mut|"
    r"position|any|all|find|rposition|for_each|fold|find_map|rev|take|skip|enumerate|zip|chain|copied|cloned|map|peekable|step_by|chunks\w*|windows|unwrap\w*|ok_or\w*|map_err|and_then|is_some|is_none|is_ok|is_err|ok|err)$")

MODELS = {}
MODEL_RX = []
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def rx(*pats):
    def d(f):
        for p in pats: MODEL_RX.append((re.compile(p), f))
        return f
    return d

NUM = r"core::num::<impl ([iu](?:8|16|32|64|128|size))>::"
def none(dt): return Agg(dt, 0, ())
def some(dt, v): return Agg(dt, 1, (v,))
def adt_name(I, v):
    if isinstance(v, Agg) and isinstance(v.ty, int):
        t = I.T[v.ty]
        return t["path"] if t["k"] == "adt" else t["k"]
    return None
def deref(I, st, v):
    while isinstance(v, Ptr) and v.sl is None:
        v = I.load(st, v)
    return v

# ---------------------------------------------------------------- integers
@rx(NUM + r"from_(le|ne|be)_bytes$", r"core::f(32|64)::<impl f(?:32|64)>::from_(le|ne|be)_bytes$")
def m_from_bytes(I, st, args, dt, ref, at):
    seq = args[0]
    if (ref["rpath"] or ref["path"]).endswith("from_be_bytes"):
        n = I.T[dt]["bits"] // 8
        seq = Seq((("lit", tuple(I.seq_at(st, seq, Lin(n - 1 - i)) for i in range(n))),))
    return [(st, I.from_le(st, seq, I.T[dt]))]

@rx(NUM + r"to_(le|ne|be)_bytes$", r"core::f(32|64)::<impl f(?:32|64)>::to_(le|ne|be)_bytes$")
def m_to_bytes(I, st, args, dt, ref, at):
    t = I.T[at[0]]
    s = I.to_le(args[0] if t["k"] == "float" else I.as_lin(args[0]), t)
    if (ref["rpath"] or ref["path"]).endswith("to_be_bytes"):
        s = Seq((("lit", tuple(reversed(s.segs[0][1]))),))
    return [(st, s)]

@rx(r"core::f(32|64)::<impl f(?:32|64)>::(to_bits|from_bits)$")
def m_fbits(I, st, args, dt, ref, at):
    return [(st, I.cast(st, "Transmute", args[0], at[0], dt))]

def int_split_sat(I, st, l, bits, sg):
    lo, hi = rng_of(bits, sg)
    if st.decide(lt(l, Lin(lo))): return Lin(lo)
    if st.decide(lt(Lin(hi), l)): return Lin(hi)
    return l

@rx(NUM + r"saturating_(add|sub|mul)$", r"^(core|std)::intrinsics::saturating_(add|sub)$")
def m_sat(I, st, args, dt, ref, at):
    bits, sg = I.int_ty(dt)
    a, b = I.as_lin(args[0]), I.as_lin(args[1])
    n = ref["path"]
    if n.endswith("add"): l = a + b
    elif n.endswith("sub"): l = a - b
    else:
        if b.is_const(): l = a * b.c
        elif a.is_const(): l = b * a.c
        else: return NotImplemented
    return [(st, int_split_sat(I, st, l, bits, sg))]

@rx(NUM + r"(wrapping_|unsigned_|saturating_)?abs$")
def m_abs(I, st, args, dt, ref, at):
    bits, sg = I.int_ty(at[0]); lo, hi = rng_of(bits, True); x = I.as_lin(args[0])
    if st.decide(le(ZERO, x)): return [(st, x)]
    n = ref["path"].rsplit("::", 1)[-1]
    if n == "unsigned_abs": return [(st, -x)]
    if st.decide(eq(x, Lin(lo))):
        if n == "wrapping_abs": return [(st, Lin(lo))]
        if n == "saturating_abs": return [(st, Lin(hi))]
        I.model_panic("overflow:abs", st)
        return []
    st.assume(lt(Lin(lo), x))
    return [(st, -x)]

@rx(NUM + r"wrapping_(add|sub|mul|neg|shl|shr)$", r"^(core|std)::intrinsics::wrapping_(add|sub|mul)$")
def m_wrapping(I, st, args, dt, ref, at):
    op = ref["path"].rsplit("_", 1)[1]
    if op == "neg":
        return [(st, I.binop(st, "Sub", ZERO, I.as_lin(args[0]), dt))]
    return [(st, I.binop(st, {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr"}[op], args[0], args[1], dt))]

@rx(NUM + r"(swap_bytes|reverse_bits|rotate_left|rotate_right)$", r"^(core|std)::intrinsics::(bswap|bitreverse|rotate_left|rotate_right)$")
def m_permute(I, st, args, dt, ref, at):
    """operations that only move bits"""
    bits, sg = I.int_ty(at[0]); op = ref["path"].rsplit("::", 1)[-1]
    bs = to_bits(I.as_lin(args[0]), bits)
    if bs is None: return NotImplemented
    if op in ("swap_bytes", "bswap"): bs = [b for k in range(bits - 8, -1, -8) for b in bs[k:k + 8]]
    elif op in ("reverse_bits", "bitreverse"): bs = bs[::-1]
    else:
        n = I.as_lin(args[1])
        if not n.is_const(): return NotImplemented
        k = n.c % bits
        if op == "rotate_right": k = bits - k
        bs = bs[bits - k:] + bs[:bits - k] if k % bits else bs
    return [(st, from_bits(bs, sg))]
@rx(NUM + r"(count_ones|count_zeros)$", r"^(core|std)::intrinsics::ctpop$")
def m_ctpop(I, st, args, dt, ref, at):
    bits, sg = I.int_ty(at[0])
    bs = to_bits(I.as_lin(args[0]), bits)
    if bs is None: return NotImplemented
    n = ZERO
    for b in bs: n = n + (from_bits([b]) if isinstance(b, tuple) else Lin(b))
    return [(st, Lin(bits) - n if ref["path"].endswith("count_zeros") else n)]
@rx(NUM + r"(leading|trailing)_(zeros|ones)$", r"^(core|std)::intrinsics::(ctlz|cttz)(_nonzero)?$")
def m_ctz(I, st, args, dt, ref, at):
    """splits on the position of the first bit that ends the run"""
    bits, sg = I.int_ty(at[0]); op = ref["path"].rsplit("::", 1)[-1]
    bs = to_bits(I.as_lin(args[0]), bits)
    if bs is None: return NotImplemented
    if op.startswith(("leading", "ctlz")): bs = bs[::-1]
    end = 0 if op.endswith("ones") else 1
    n = 0
    for b in bs:
        x = from_bits([b]) if isinstance(b, tuple) else Lin(b)
        if st.decide(eq(x, Lin(end))): break
        n += 1
    return [(st, Lin(n))]
@rx(NUM + r"overflowing_(add|sub|mul)$")
def m_overflowing(I, st, args, dt, ref, at):
    op = {"add": "AddWithOverflow", "sub": "SubWithOverflow", "mul": "MulWithOverflow"}[ref["path"].rsplit("_", 1)[1]]
    return [(st, I.binop(st, op, args[0], args[1], at[0]))]

@rx(NUM + r"checked_(add|sub|mul)$")
def m_checked(I, st, args, dt, ref, at):
    op = {"add": "AddWithOverflow", "sub": "SubWithOverflow", "mul": "MulWithOverflow"}[ref["path"].rsplit("_", 1)[1]]
    r = I.binop(st, op, args[0], args[1], at[0], True)
    if st.decide(r.f[1]): return [(st, none(dt))]
    return [(st, some(dt, r.f[0]))]

@rx(NUM + r"(min_value|max_value)$")
def m_minmax_value(I, st, args, dt, ref, at):
    lo, hi = rng_of(*I.int_ty(dt))
    return [(st, Lin(lo if ref["path"].endswith("min_value") else hi))]

@model("std::cmp::min", "std::cmp::max", "std::intrinsics::integer_min", "std::intrinsics::integer_max")
def m_minmax(I, st, args, dt, ref, at):
    if not I.int_ty(dt): return NotImplemented
    a, b = I.as_lin(args[0]), I.as_lin(args[1])
    r = st.decide(le(a, b))
    if ref["path"].endswith("min"): return [(st, a if r else b)]
    return [(st, b if r else a)]
@rx(r"^std::cmp::impls::<impl std::cmp::Ord for [iu].*>::(min|max)$", r"^std::cmp::Ord::(min|max)$")
def m_minmax2(I, st, args, dt, ref, at):
    if not I.int_ty(dt): return NotImplemented
    return m_minmax(I, st, args, dt, ref, at)

@rx(NUM + r"(div_ceil|next_multiple_of)$")
def m_divceil(I, st, args, dt, ref, at):
    a, b = I.as_lin(args[0]), I.as_lin(args[1])
    if not b.is_const() or b.c <= 0: return NotImplemented
    q = floordiv(a + (b.c - 1), b.c)
    return [(st, q if ref["path"].endswith("div_ceil") else q * b.c)]

# ---------------------------------------------------------------- mem
@model("std::mem::replace")
def m_replace(I, st, args, dt, ref, at):
    old = I.load(st, args[0]); I.store(st, args[0], args[1]); return [(st, old)]
@model("std::mem::swap")
def m_swap(I, st, args, dt, ref, at):
    a, b = I.load(st, args[0]), I.load(st, args[1]); I.store(st, args[0], b); I.store(st, args[1], a); return [(st, UNIT)]
@rx(r"^std::ptr::read$", r"^std::ptr::(mut|const)_ptr::<impl \*(mut|const) T>::read$")
def m_read(I, st, args, dt, ref, at):
    elem_check(I, st, args[0], "read", False)
    return [(st, I.load(st, args[0]))]
@rx(r"^std::ptr::write$", r"^std::ptr::mut_ptr::<impl \*mut T>::write$")
def m_write(I, st, args, dt, ref, at):
    elem_check(I, st, args[0], "write", False)
    I.store(st, args[0], args[1]); return [(st, UNIT)]
def elem_check(I, st, p, what, ok_end):
    """a raw pointer to an element: its index lies inside (or, with ok_end, at the end of) its backing storage"""
    if isinstance(p, Ptr) and (p.sl is not None or p.path and p.path[-1][0] == "i"):
        q = raw_range(I, st, p, Lin(0 if ok_end else 1))
        I.unsafe_op(st, what, b_and(le(ZERO, q.sl[0]), le(q.sl[0] + q.sl[1], backing_len(I, st, q))), "at %s" % show(q.sl[0]))
def ptr_off(I, st, p, d, ref):
    q = I.ptr_add(p, d)
    if ref and ref.get("safe") is False: elem_check(I, st, q, "pointer offset", True)
    return [(st, q)]

@rx(r"^std::ptr::(mut|const)_ptr::<impl \*(mut|const) T>::add$", r"^std::intrinsics::(arith_)?offset$")
def m_ptradd(I, st, args, dt, ref, at): return ptr_off(I, st, args[0], I.as_lin(args[1]), ref)
@rx(r"^std::ptr::(mut|const)_ptr::<impl \*(mut|const) T>::sub$")
def m_ptrsub(I, st, args, dt, ref, at): return ptr_off(I, st, args[0], -I.as_lin(args[1]), ref)
@rx(r"^std::mem::drop$", r"^std::mem::forget$", r"^std::hint::(assert_unchecked|cold_path|black_box)$", r"^std::intrinsics::(assume|cold_path)$")
def m_drop(I, st, args, dt, ref, at): return [(st, UNIT if I.T[dt]["k"] == "tuple" else args[0])]
@rx(r"precondition_check$", r"^std::intrinsics::assert_inhabited$")
def m_precheck(I, st, args, dt, ref, at): return [(st, UNIT)]
@rx(r"^core::ub_checks::check_")
def m_ubc(I, st, args, dt, ref, at): return [(st, False)]

def raw_range(I, st, p, n):
    """slice view of n elements from an element pointer"""
    if p.path and p.path[-1][0] == "i": return Ptr(p.al, p.path[:-1], (p.path[-1][1], n))
    if p.sl: return Ptr(p.al, p.path, (p.sl[0], n))
    return Ptr(p.al, p.path, (ZERO, n))
def backing_len(I, st, p):
    v = I.load(st, Ptr(p.al, p.path))
    if isinstance(v, Agg) and v.var == "vec": return v.f[0].length()
    return v.length() if isinstance(v, Seq) else Lin(1)

@rx(r"^std::ptr::copy$", r"^std::ptr::copy_nonoverlapping$", r"^std::intrinsics::copy(_nonoverlapping)?$")
def m_ptrcopy(I, st, args, dt, ref, at):
    src, dst, n = raw_range(I, st, args[0], I.as_lin(args[2])), raw_range(I, st, args[1], I.as_lin(args[2])), I.as_lin(args[2])
    for what, p in (("read", src), ("write", dst)):
        ok = b_and(le(ZERO, p.sl[0]), le(p.sl[0] + n, backing_len(I, st, p)))
        I.unsafe_op(st, what, ok, "%s bytes at %s" % (show(n), show(p.sl[0])))
    if "nonoverlapping" in ref["path"] and src.al == dst.al and src.path == dst.path:
        ok = b_or(le(src.sl[0] + n, dst.sl[0]), le(dst.sl[0] + n, src.sl[0]), eq(n, ZERO))
        I.unsafe_op(st, "nonoverlap", ok, "%s bytes" % show(n))
    write_slice(I, st, dst, I.load_slice(st, src))
    return [(st, UNIT)]

@rx(r"^(std|core)::slice::(raw::)?from_raw_parts(_mut)?$", r"^std::ptr::slice_from_raw_parts(_mut)?$")
def m_rawparts(I, st, args, dt, ref, at):
    n = I.as_lin(args[1]); q = raw_range(I, st, args[0], n)
    I.unsafe_op(st, "slice from raw parts", b_and(le(ZERO, q.sl[0]), le(q.sl[0] + n, backing_len(I, st, q))), "%s elements at %s" % (show(n), show(q.sl[0])))
    return [(st, q)]

def write_slice(I, st, dst, seq):
    """overwrite the slice dst with seq (same length)"""
    off, n = dst.sl
    base = I.load(st, Ptr(dst.al, dst.path))
    vec = isinstance(base, Agg) and base.var == "vec"
    b = base.f[0] if vec else base
    if not isinstance(b, Seq): raise Unsupported("slice write into %r" % (base,))
    total = b.length()
    pre = I.seq_slice(st, b, ZERO, off)
    post = I.seq_slice(st, b, off + n, total - off - n)
    nb = pre + seq + post
    I.store(st, Ptr(dst.al, dst.path), base.with_f(0, nb) if vec else nb)

# ---------------------------------------------------------------- slices
def as_slice(I, st, p):
    """a Ptr with .sl from any pointer to slice/array/vec"""
    if not isinstance(p, Ptr):
        raise Unsupported("slice expected, got %r" % (p,))
    if p.sl is not None: return p
    v = I.load(st, p)
    if isinstance(v, Ptr): return as_slice(I, st, v)
    if isinstance(v, Seq): return Ptr(p.al, p.path, (ZERO, v.length()))
    if isinstance(v, Agg) and v.var == "vec": return Ptr(p.al, p.path, (ZERO, v.f[0].length()))
    raise Unsupported("slice expected at %r" % (p,))

def range_of(I, st, r, n):
    """(start, end, needs checking) of a range value over a sequence of length n; None for a plain index"""
    nm = adt_name(I, r)
    if isinstance(r, Lin): return None
    if nm is None: raise Unsupported("range %r" % (r,))
    k = nm.rsplit("::", 1)[-1]
    if k == "Range": return r.f[0], r.f[1]
    if k == "RangeFrom": return r.f[0], n
    if k == "RangeTo": return ZERO, r.f[0]
    if k == "RangeFull": return ZERO, n
    if k == "RangeInclusive": return r.f[0], r.f[1] + 1
    if k == "RangeToInclusive": return ZERO, r.f[0] + 1
    raise Unsupported("range type " + nm)

def check(I, st, cond, kind):
    """panic unless cond; refines st; returns False when cond is impossible"""
    if cond is True: return True
    d = st.facts.decide(cond)
    if d is True: return True
    bad = st.fork()
    if d is False or bad.assume(neg(cond)): I.model_panic(kind, bad)
    if d is False: return False
    return st.assume(cond)

@rx(r"^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$",
    r"^(std|core)::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$",
    r"^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$",
    r"^alloc::vec::.*Index(Mut)?<I>.*::index(_mut)?$")
def m_index(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0])
    n = p.sl[1]
    r = range_of(I, st, args[1], n)
    if r is None:
        if not check(I, st, lt(args[1], n), "index out of bounds"): return []
        return [(st, Ptr(p.al, p.path + (("i", p.sl[0] + args[1]),)))]
    a, b = r
    if not check(I, st, le(a, b), "slice index order"): return []
    if not check(I, st, le(b, n), "slice end out of range"): return []
    return [(st, Ptr(p.al, p.path, (p.sl[0] + a, b - a)))]

@rx(r"^<.*(usize|Range\w*(<usize>)?) as std::slice::SliceIndex<\[T\]>>::(index|index_mut)$")
def m_sliceindex(I, st, args, dt, ref, at):
    return m_index(I, st, [args[1], args[0]], dt, ref, at)

@rx(r"^core::slice::<impl \[T\]>::get(_mut)?$", r"^<.*(usize|Range\w*(<usize>)?) as std::slice::SliceIndex<\[T\]>>::get(_mut)?$")
def m_get(I, st, args, dt, ref, at):
    if "SliceIndex" in (ref["rpath"] or ref["path"]): args = [args[1], args[0]]
    p = as_slice(I, st, args[0]); n = p.sl[1]
    r = range_of(I, st, args[1], n)
    if r is None:
        if st.decide(lt(args[1], n)): return [(st, some(dt, Ptr(p.al, p.path + (("i", p.sl[0] + args[1]),))))]
        return [(st, none(dt))]
    a, b = r
    if not st.decide(le(a, b)): return [(st, none(dt))]
    if not st.decide(le(b, n)): return [(st, none(dt))]
    return [(st, some(dt, Ptr(p.al, p.path, (p.sl[0] + a, b - a))))]

@rx(r"^core::slice::<impl \[T\]>::get_unchecked(_mut)?$", r"^<.*(usize|Range\w*(<usize>)?) as std::slice::SliceIndex<\[T\]>>::get_unchecked(_mut)?$")
def m_getu(I, st, args, dt, ref, at):
    if "SliceIndex" in (ref["rpath"] or ref["path"]): args = [args[1], args[0]]
    p = as_slice(I, st, args[0]); n = p.sl[1]
    r = range_of(I, st, args[1], n)
    if r is None: ok = lt(args[1], n)
    else: ok = b_and(le(r[0], r[1]), le(r[1], n))
    I.unsafe_op(st, "get_unchecked", ok, show(ok))
    if r is None: return [(st, Ptr(p.al, p.path + (("i", p.sl[0] + args[1]),)))]
    return [(st, Ptr(p.al, p.path, (p.sl[0] + r[0], r[1] - r[0])))]

@rx(r"^core::slice::<impl \[T\]>::split_at(_mut)?(_unchecked)?$", r"^core::str::<impl str>::split_at$")
def m_splitat(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0]); k = I.as_lin(args[1])
    if not check(I, st, le(k, p.sl[1]), "split_at out of range"): return []
    return [(st, Agg("tuple", 0, (Ptr(p.al, p.path, (p.sl[0], k)), Ptr(p.al, p.path, (p.sl[0] + k, p.sl[1] - k)))))]
@rx(r"^core::slice::<impl \[T\]>::split_at(_mut)?_checked$")
def m_splitatc(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0]); k = I.as_lin(args[1])
    if st.decide(le(k, p.sl[1])):
        return [(st, some(dt, Agg("tuple", 0, (Ptr(p.al, p.path, (p.sl[0], k)), Ptr(p.al, p.path, (p.sl[0] + k, p.sl[1] - k))))))]
    return [(st, none(dt))]

@rx(r"^core::slice::<impl \[T\]>::(first|last)(_mut)?$")
def m_first(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0])
    if st.decide(eq(p.sl[1], ZERO)): return [(st, none(dt))]
    i = ZERO if "first" in ref["path"] else p.sl[1] - 1
    return [(st, some(dt, Ptr(p.al, p.path + (("i", p.sl[0] + i),))))]
@rx(r"^core::slice::<impl \[T\]>::split_(first|last)(_mut)?$")
def m_splitfirst(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0])
    if st.decide(eq(p.sl[1], ZERO)): return [(st, none(dt))]
    if "first" in ref["path"]: i, rest = ZERO, (p.sl[0] + 1, p.sl[1] - 1)
    else: i, rest = p.sl[1] - 1, (p.sl[0], p.sl[1] - 1)
    return [(st, some(dt, Agg("tuple", 0, (Ptr(p.al, p.path + (("i", p.sl[0] + i),)), Ptr(p.al, p.path, rest)))))]

@rx(r"^core::slice::<impl \[T\]>::(as_ptr|as_mut_ptr)$")
def m_asptr(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0])
    return [(st, Ptr(p.al, p.path + (("i", p.sl[0]),)))]
@rx(r"^core::slice::<impl \[T\]>::len$", r"^core::str::<impl str>::len$")
def m_slen(I, st, args, dt, ref, at): return [(st, as_slice(I, st, args[0]).sl[1])]
@rx(r"^core::slice::<impl \[T\]>::is_empty$", r"^core::str::<impl str>::is_empty$")
def m_sempty(I, st, args, dt, ref, at): return [(st, eq(as_slice(I, st, args[0]).sl[1], ZERO))]

@rx(r"^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
def m_copyfrom(I, st, args, dt, ref, at):
    d, s_ = as_slice(I, st, args[0]), as_slice(I, st, args[1])
    if not check(I, st, eq(d.sl[1], s_.sl[1]), "copy_from_slice length mismatch"): return []
    write_slice(I, st, d, I.load_slice(st, s_))
    return [(st, UNIT)]
@rx(r"^core::slice::<impl \[T\]>::copy_within$")
def m_copywithin(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0])
    a, b = range_of(I, st, args[1], p.sl[1]); d = I.as_lin(args[2])
    if not check(I, st, le(a, b), "slice index order"): return []
    if not check(I, st, le(b, p.sl[1]), "slice end out of range"): return []
    if not check(I, st, le(d, p.sl[1] - (b - a)), "copy_within dest out of bounds"): return []
    seq = I.load_slice(st, Ptr(p.al, p.path, (p.sl[0] + a, b - a)))
    write_slice(I, st, Ptr(p.al, p.path, (p.sl[0] + d, b - a)), seq)
    return [(st, UNIT)]
@rx(r"^core::slice::<impl \[T\]>::fill$")
def m_fill(I, st, args, dt, ref, at):
    d = as_slice(I, st, args[0])
    write_slice(I, st, d, Seq((("rep", args[1], d.sl[1]),)))
    return [(st, UNIT)]
@rx(r"^core::slice::<impl \[T\]>::swap$")
def m_sswap(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0])
    for i in (1, 2):
        if not check(I, st, lt(I.as_lin(args[i]), p.sl[1]), "index out of bounds"): return []
    pa, pb = (Ptr(p.al, p.path + (("i", p.sl[0] + args[i]),)) for i in (1, 2))
    a, b = I.load(st, pa), I.load(st, pb)
    I.store(st, pa, b); I.store(st, pb, a)
    return [(st, UNIT)]

@rx(r"^core::slice::<impl \[T\]>::iter(_mut)?$", r"^core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$",
    r"^std::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$", r"^std::array::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$",
    r"^<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$")
def m_iter(I, st, args, dt, ref, at):
    return [(st, Agg(dt, "iter", (as_slice(I, st, args[0]),)))]

def iter_ptr(I, st, v):
    p = v if isinstance(v, Ptr) else None
    it = I.load(st, v) if p else v
    if isinstance(it, Agg) and it.var == "iter": return p, it, it.f[0]
    return p, it, None
@rx(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$")
def m_iternext(I, st, args, dt, ref, at):
    p, it, sl = iter_ptr(I, st, args[0])
    if sl is None: return NotImplemented
    off, n = sl.sl
    if st.decide(eq(n, ZERO)): return [(st, none(dt))]
    back = ref["path"].endswith("next_back")
    e = off + n - 1 if back else off
    I.store(st, p, it.with_f(0, Ptr(sl.al, sl.path, (off, n - 1) if back else (off + 1, n - 1))))
    return [(st, some(dt, Ptr(sl.al, sl.path + (("i", e),))))]
@rx(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::(Iterator|ExactSizeIterator)>::(size_hint|len|count)$", r"^<std::slice::Iter(Mut)?<'_, T> as std::iter::(Iterator|ExactSizeIterator)>::(size_hint|len|count|is_empty)$")
def m_iterlen(I, st, args, dt, ref, at):
    p, it, sl = iter_ptr(I, st, args[0])
    if sl is None: return NotImplemented
    if ref["path"].endswith("size_hint"):
        ot = I.T[dt]["elems"][1]
        return [(st, Agg("tuple", 0, (sl.sl[1], some(ot, sl.sl[1]))))]
    return [(st, sl.sl[1])]
@rx(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::(nth)$")
def m_iternth(I, st, args, dt, ref, at):
    p, it, sl = iter_ptr(I, st, args[0])
    if sl is None: return NotImplemented
    off, n = sl.sl; k = I.as_lin(args[1])
    if not st.decide(lt(k, n)):
        I.store(st, p, it.with_f(0, Ptr(sl.al, sl.path, (off + n, ZERO))))
        return [(st, none(dt))]
    I.store(st, p, it.with_f(0, Ptr(sl.al, sl.path, (off + k + 1, n - k - 1))))
    return [(st, some(dt, Ptr(sl.al, sl.path + (("i", off + k),))))]
@rx(r"^<std::slice::Iter<'_, T> as std::clone::Clone>::clone$")
def m_iterclone(I, st, args, dt, ref, at): return [(st, I.load(st, args[0]))]
@rx(r"^std::slice::Iter::<'a, T>::as_slice$")
def m_iterslice(I, st, args, dt, ref, at):
    p, it, sl = iter_ptr(I, st, args[0]); return [(st, sl)]

# slice::Iter search methods: executed as the textbook loop through `next` (their own MIR works on raw pointers)
@rx(r"^std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$", r"^<std::ops::Range<A> as std::iter::range::RangeIteratorImpl>::spec_next$")
def m_rangenext(I, st, args, dt, ref, at):
    r = I.load(st, args[0])
    if not isinstance(r, Agg): return NotImplemented
    a, b = r.f
    if not (isinstance(a, Lin) and isinstance(b, Lin)): return NotImplemented
    if st.decide(lt(a, b)):
        I.store(st, args[0], r.with_f(0, a + 1))
        return [(st, some(dt, a))]
    return [(st, none(dt))]
@rx(r"^std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back$")
def m_rangenextback(I, st, args, dt, ref, at):
    r = I.load(st, args[0])
    if not isinstance(r, Agg): return NotImplemented
    a, b = r.f
    if not (isinstance(a, Lin) and isinstance(b, Lin)): return NotImplemented
    if st.decide(lt(a, b)):
        I.store(st, args[0], r.with_f(1, b - 1))
        return [(st, some(dt, b - 1))]
    return [(st, none(dt))]
@rx(r"^std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next$")
def m_rangeinext(I, st, args, dt, ref, at):
    r = I.load(st, args[0])
    if not isinstance(r, Agg): return NotImplemented
    a, b, ex = r.f
    if not (isinstance(a, Lin) and isinstance(b, Lin)): return NotImplemented
    if st.decide(ex): return [(st, none(dt))]
    if not st.decide(le(a, b)): return [(st, none(dt))]
    if st.decide(lt(a, b)): I.store(st, args[0], Agg(r.ty, 0, (a + 1, b, ex)))
    else: I.store(st, args[0], Agg(r.ty, 0, (a, b, True)))
    return [(st, some(dt, a))]
@rx(r"^std::ops::RangeInclusive::<Idx>::new$")
def m_rinew(I, st, args, dt, ref, at): return [(st, Agg(dt, 0, (args[0], args[1], False)))]

# array by-value iteration
@rx(r"^(std|core)::array::(iter::)?<impl std::iter::IntoIterator for \[T; N\]>::into_iter$")
def m_arrinto(I, st, args, dt, ref, at):
    if not isinstance(args[0], Seq): return NotImplemented
    return [(st, Agg(dt, "arriter", (args[0], ZERO, args[0].length())))]
@rx(r"^<std::array::IntoIter<T, N> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$")
def m_arrnext(I, st, args, dt, ref, at):
    it = I.load(st, args[0])
    if not (isinstance(it, Agg) and it.var == "arriter"): return NotImplemented
    s, a, b = it.f
    if st.decide(le(b, a)): return [(st, none(dt))]
    if ref["path"].endswith("next_back"):
        v = I.seq_at(st, s, b - 1); I.store(st, args[0], it.with_f(2, b - 1))
    else:
        v = I.seq_at(st, s, a); I.store(st, args[0], it.with_f(1, a + 1))
    return [(st, some(dt, v))]
@rx(r"^(std|core)::array::<impl .*Default for \[T; .*\]>::default$")
def m_arrdefault(I, st, args, dt, ref, at):
    t = I.T[dt]; e = I.T[t["elem"]]
    z = {"int": ZERO, "bool": False}.get(e["k"])
    if e["k"] == "float": z = fconst(0.0)
    if z is None:
        return NotImplemented
    return [(st, Seq((("lit", (z,) * t["n"]),)))]
@rx(r"^(std|core)::array::<impl .*AsRef<\[T\]> for \[T; N\]>::as_ref$", r"^(std|core)::array::<impl \[T; N\]>::as_(mut_)?slice$", r"^(std|core)::array::<impl .*Borrow(Mut)?<\[T\]> for \[T; N\]>::borrow(_mut)?$",
    r"^std::convert::AsRef::as_ref$")
def m_arrasref(I, st, args, dt, ref, at):
    try: return [(st, as_slice(I, st, args[0]))]
    except Unsupported: return NotImplemented
@rx(r"^(std|core)::array::.*TryFrom<&'a (mut )?\[T\]> for &'a (mut )?\[T; N\]>::try_from$")
def m_tryfrom_ref(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0]); t = I.T[dt]
    okt = t["variants"][0]["f"][0][1]; n = I.T[I.T[okt]["to"]]["n"]
    if n is None: return NotImplemented
    if st.decide(eq(p.sl[1], Lin(n))): return [(st, Agg(dt, 0, (Ptr(p.al, p.path, p.sl),)))]
    return [(st, Agg(dt, 1, (SymV(t["variants"][1]["f"][0][1], "TryFromSliceError"),)))]
@rx(r"^(std|core)::array::.*TryFrom<&(?:'_ )?(mut )?\[T\]> for \[T; N\]>::try_from$")
def m_tryfrom(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0]); t = I.T[dt]
    okt = t["variants"][0]["f"][0][1]; n = I.T[okt]["n"]
    if n is None: return NotImplemented
    if st.decide(eq(p.sl[1], Lin(n))):
        s = I.load_slice(st, p)
        return [(st, Agg(dt, 0, (Seq((("lit", tuple(I.seq_at(st, s, Lin(i)) for i in range(n))),)),)))]
    return [(st, Agg(dt, 1, (SymV(t["variants"][1]["f"][0][1], "TryFromSliceError"),)))]

# slice equality
def seq_eq(I, st, a, b):
    if a == b: return True
    if a.length() != b.length():
        r = st.facts.decide(eq(a.length(), b.length()))
        if r is False: return False
        if r is None: return ("ba", atom("seqeq", tuple(sorted((a, b), key=show)), 0, 1))
    n = a.length()
    if n.is_const() and n.c <= 64 and st.holds(eq(a.length(), b.length())):
        return b_and(*[veq(I, I.seq_at(st, a, Lin(i)), I.seq_at(st, b, Lin(i))) for i in range(n.c)])
    return ("ba", atom("seqeq", tuple(sorted((a, b), key=show)), 0, 1))
def veq(I, a, b):
    if isinstance(a, Lin) and isinstance(b, Lin): return eq(a, b)
    if I.is_bool(a) and I.is_bool(b): return eq(b2i(a), b2i(b))
    raise Unsupported("equality of %r and %r" % (a, b))
@rx(r"^core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$", r"^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$",
    r"^(std|core)::array::equality::<impl std::cmp::PartialEq<.*>::(eq|ne)$", r"^alloc::vec::partial_eq::.*::(eq|ne)$",
    r"^std::vec::partial_eq::.*::(eq|ne)$")
def m_sliceeq(I, st, args, dt, ref, at):
    sq = []
    for a in args:
        v = a
        if isinstance(v, Seq): sq.append(v)
        else: sq.append(I.load_slice(st, as_slice(I, st, v)))
    r = seq_eq(I, st, *sq)
    return [(st, neg(r) if ref["path"].endswith("ne") else r)]
@rx(r"^core::slice::<impl \[T\]>::(starts_with|ends_with)$")
def m_starts(I, st, args, dt, ref, at):
    p, q = as_slice(I, st, args[0]), as_slice(I, st, args[1])
    if not st.decide(le(q.sl[1], p.sl[1])): return [(st, False)]
    off = p.sl[0] if ref["path"].endswith("starts_with") else p.sl[0] + p.sl[1] - q.sl[1]
    return [(st, seq_eq(I, st, I.load_slice(st, Ptr(p.al, p.path, (off, q.sl[1]))), I.load_slice(st, q)))]

# ---------------------------------------------------------------- str
@model("std::str::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8")
def m_utf8(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0])
    s = I.load_slice(st, p)
    ok = utf8_atom(s)
    if st.decide(ok): return [(st, Agg(dt, 0, (p,)))]
    t = I.T[dt]
    return [(st, Agg(dt, 1, (SymV(t["variants"][1]["f"][0][1], "utf8err(%s)" % show(s)),)))]
def utf8_atom(s):
    if s.length() == ZERO: return True
    if len(s.segs) == 1 and s.segs[0][0] == "lit" and all(isinstance(x, Lin) and x.is_const() for x in s.segs[0][1]):
        try: bytes(x.c for x in s.segs[0][1]).decode(); return True
        except UnicodeDecodeError: return False
    return ("ba", atom("utf8", (s,), 0, 1))
@rx(r"^(std|core)::str::(converts::)?from_utf8_unchecked$")
def m_utf8u(I, st, args, dt, ref, at):
    p = as_slice(I, st, args[0])
    I.unsafe_op(st, "from_utf8_unchecked", bool(st.holds(utf8_atom(I.load_slice(st, p)))))
    return [(st, p)]
@rx(r"^core::str::<impl str>::as_bytes$")
def m_asbytes(I, st, args, dt, ref, at): return [(st, args[0])]

# ---------------------------------------------------------------- Vec / growable containers
def vec_of(I, st, p):
    while True:
        v = I.load(st, p)
        if isinstance(v, Ptr): p = v; continue
        break
    if isinstance(v, Agg) and v.var == "vec": return p, v
    if isinstance(v, SymV) and I.T[v.ty]["k"] == "param" and I.grow_params:
        nv = Agg(v.ty, "vec", (Seq((("sub", v.name, ZERO, sym("len(%s)" % v.name, 0, MAXL)),)),))
        I.store(st, p, nv)
        return p, nv
    return p, None
MAXL = (1 << 63) - 1
@rx(r"^std::vec::Vec::<T>::(new|with_capacity)$", r"^<std::vec::Vec<T> as std::default::Default>::default$")
def m_vecnew(I, st, args, dt, ref, at): return [(st, Agg(dt, "vec", (Seq(()),)))]
@rx(r"^std::vec::Vec::<T, A>::len$")
def m_veclen(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0]); return [(st, v.f[0].length())] if v else NotImplemented
@rx(r"^std::vec::Vec::<T, A>::is_empty$")
def m_vecempty(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0]); return [(st, eq(v.f[0].length(), ZERO))] if v else NotImplemented
@rx(r"^std::vec::Vec::<T, A>::clear$")
def m_vecclear(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    I.store(st, p, v.with_f(0, Seq(()))); return [(st, UNIT)]
@rx(r"^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$")
def m_vecres(I, st, args, dt, ref, at):
    st.eff = st.eff + (("reserve", args[1] if len(args) > 1 else None),)
    return [(st, UNIT)]
@rx(r"^std::vec::Vec::<T, A>::capacity$")
def m_veccap(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    n = v.f[0].length()
    k = st.fresh("cap"); slack = sym("slack.%s" % (k,), 0, MAXL)      # any slack: what the allocator chose
    return [(st, n + slack)]
@rx(r"^std::vec::Vec::<T, A>::append$")
def m_vecappend(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0]); q, w = vec_of(I, st, args[1])
    if v is None or w is None: return NotImplemented
    I.store(st, p, v.with_f(0, v.f[0] + w.f[0])); I.store(st, q, w.with_f(0, Seq(())))
    return [(st, UNIT)]
@rx(r"^std::vec::Vec::<T, A>::split_off$")
def m_vecsplit(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    n, k = v.f[0].length(), I.as_lin(args[1])
    if not check(I, st, le(k, n), "split_off index"): return []
    tail = I.seq_slice(st, v.f[0], k, n - k)
    I.store(st, p, v.with_f(0, I.seq_slice(st, v.f[0], ZERO, k)))
    return [(st, Agg(dt, "vec", (tail,)))]
@rx(r"^std::vec::Vec::<T, A>::resize$")
def m_vecresize(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    n, k = v.f[0].length(), I.as_lin(args[1])
    if st.decide(lt(n, k)): I.store(st, p, v.with_f(0, v.f[0] + Seq((("rep", args[2], k - n),))))
    else: I.store(st, p, v.with_f(0, I.seq_slice(st, v.f[0], ZERO, k)))
    return [(st, UNIT)]
@rx(r"^std::vec::Vec::<T, A>::push$")
def m_vecpush(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    I.store(st, p, v.with_f(0, v.f[0] + Seq((("lit", (args[1],)),)))); return [(st, UNIT)]
@rx(r"^std::vec::Vec::<T, A>::extend_from_slice$")
def m_vecext(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    I.store(st, p, v.with_f(0, v.f[0] + I.load_slice(st, as_slice(I, st, args[1])))); return [(st, UNIT)]
@rx(r"^std::vec::Vec::<T, A>::truncate$")
def m_vectrunc(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    n = I.as_lin(args[1])
    if st.decide(lt(n, v.f[0].length())): I.store(st, p, v.with_f(0, I.seq_slice(st, v.f[0], ZERO, n)))
    return [(st, UNIT)]
@rx(r"^std::vec::Vec::<T, A>::drain$")
def m_vecdrain(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    n = v.f[0].length()
    a, b = range_of(I, st, args[1], n)
    if not check(I, st, le(a, b), "drain range order"): return []
    if not check(I, st, le(b, n), "drain end out of range"): return []
    pre = I.seq_slice(st, v.f[0], ZERO, a); mid = I.seq_slice(st, v.f[0], a, b - a); post = I.seq_slice(st, v.f[0], b, n - b)
    I.store(st, p, v.with_f(0, pre + post))
    return [(st, Agg(dt, "arriter", (mid, ZERO, mid.length())))]
@rx(r"^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::ops::Deref(Mut)?::deref(_mut)?$", r"^std::vec::Vec::<T, A>::as_(mut_)?slice$",
    r"^<std::vec::Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref$")
def m_vecderef(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    return [(st, Ptr(p.al, p.path, (ZERO, v.f[0].length())))]
@rx(r"^core::slice::<impl \[T\]>::to_vec$", r"^std::slice::<impl \[T\]>::(to_vec|into_vec)$")
def m_tovec(I, st, args, dt, ref, at):
    return [(st, Agg(dt, "vec", (I.load_slice(st, as_slice(I, st, args[0])),)))]

def consume_iter(I, st, it, ity):
    """the sequence produced by a fully consumed modelled iterator, or None"""
    if isinstance(it, Ptr) and it.sl is None:
        v = I.load(st, it)
        if isinstance(v, Seq): return v       # &[T; N]: by-copy extend from references
        return None
    if isinstance(it, Ptr): return I.load_slice(st, it)
    if isinstance(it, Seq): return it
    if isinstance(it, Agg):
        if it.var == "iter": return I.load_slice(st, it.f[0])
        if it.var == "arriter": return I.seq_slice(st, it.f[0], it.f[1], it.f[2] - it.f[1])
        if it.var == "vec": return it.f[0]
        nm = adt_name(I, it) or ""
        if nm.endswith("::Once"):
            o = it
            while isinstance(o, Agg) and not (adt_name(I, o) or "").endswith("::Option"): o = o.f[0]
            if o.var == 1: return Seq((("lit", (o.f[0],)),))
            return Seq(())
        if nm.endswith("::Option"):
            return Seq((("lit", (it.f[0],)),)) if it.var == 1 else Seq(())
        if nm.endswith("::Copied") or nm.endswith("::Cloned"): return consume_iter(I, st, it.f[0], None)
        if nm.endswith("::Chain"):
            out = Seq(())
            for h in it.f:
                if h.var == 1:
                    s = consume_iter(I, st, h.f[0], None)
                    if s is None: return None
                    out = out + s
            return out
    return None
@rx(r"^std::iter::Extend::extend$", r"^<std::vec::Vec<T, A> as std::iter::Extend<(T|&'a T)>>::extend$")
def m_extend(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    s = consume_iter(I, st, args[1], at[1])
    if s is None: raise Unsupported("extend from %r" % (args[1],))
    I.store(st, p, v.with_f(0, v.f[0] + s))
    return [(st, UNIT)]
@rx(r"^std::io::(impls::)?.*Write.*(Vec<u8, A>|Vec<u8>).*::(write|write_all)$", r"^<std::vec::Vec<u8(, A)?> as std::io::Write>::(write|write_all)$", r"^std::io::impls::<impl std::io::Write for std::vec::Vec<u8(, A)?>>::(write|write_all)$",
    r"^std::io::Write::(write|write_all)$")
def m_vecwrite(I, st, args, dt, ref, at):
    p, v = vec_of(I, st, args[0])
    if v is None: return NotImplemented
    s = I.load_slice(st, as_slice(I, st, args[1]))
    I.store(st, p, v.with_f(0, v.f[0] + s))
    okv = UNIT if ref["path"].endswith("write_all") else s.length()
    return [(st, Agg(dt, 0, (okv,)))]

# ---------------------------------------------------------------- conversions
@rx(r"^<T as std::convert::From<T>>::from$", r"^<I as std::iter::IntoIterator>::into_iter$", r"^<T as std::borrow::Borrow(Mut)?<T>>::borrow(_mut)?$")
def m_ident(I, st, args, dt, ref, at): return [(st, args[0])]
@rx(r"^std::clone::impls::<impl std::clone::Clone for .*>::clone$")
def m_clone(I, st, args, dt, ref, at): return [(st, I.load(st, args[0]))]
@rx(r"^std::clone::Clone::clone$")
def m_clone2(I, st, args, dt, ref, at):
    v = I.load(st, args[0])
    if isinstance(v, (SymV,)): return [(st, v)]
    return NotImplemented

# ---------------------------------------------------------------- floats
def round_to(x, bits):
    import struct
    return struct.unpack("<f", struct.pack("<f", x))[0] if bits == 32 else x
@rx(r"^std::cmp::impls::<impl std::cmp::PartialOrd for f(32|64)>::(lt|le|gt|ge)$")
def m_fcmp(I, st, args, dt, ref, at):
    a, b = deref(I, st, args[0]), deref(I, st, args[1])
    ft = I.T[at[0]]["to"]
    return [(st, I.binop(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[ref["path"].rsplit("::", 1)[1]], a, b, ft))]
@rx(r"^(<f(32|64) as )?num_traits::(float::)?Float(Core)?>?::(round|floor|ceil|trunc|abs|is_nan|is_infinite|is_finite|is_sign_negative|is_sign_positive|fract|signum|recip)$",
    r"^(std|core)::f(32|64)::.*::(round|floor|ceil|trunc|abs|is_nan|is_infinite|is_finite|is_sign_negative|is_sign_positive|fract|signum|sqrt|clamp|min|max|powi|powf)$",
    r"^num_traits::float::FloatCore::(round|floor|ceil|trunc|abs)$",
    r"^<f(32|64) as num_traits::float::FloatCore>::(round|floor|ceil|trunc|abs|is_nan|is_infinite|is_finite|is_sign_negative|is_sign_positive)$")
def m_fun(I, st, args, dt, ref, at):
    op = ref["path"].rsplit("::", 1)[1]
    if I.T[dt]["k"] == "bool": return [(st, ("ba", atom("f" + op, tuple(args), 0, 1)))]
    return [(st, ("f", op) + tuple(args))]
@rx(r"^<f(32|64) as num_traits::FromPrimitive>::from_([iu])(8|16|32|64)$")
def m_ffrom(I, st, args, dt, ref, at):
    ft = I.T[dt]["variants"][1]["f"][0][1]
    v = I.cast(st, "IntToFloat", args[0], at[0], ft)
    if args[0].is_const(): v = fconst(round_to(float(args[0].c), I.T[ft]["bits"]))
    return [(st, some(dt, v))]
@rx(r"^<f(32|64) as num_traits::ToPrimitive>::to_([iu])(8|16|32|64)$")
def m_fto(I, st, args, dt, ref, at):
    v = deref(I, st, args[0])
    it = I.T[dt]["variants"][1]["f"][0][1]
    bits, sg = I.int_ty(it); lo, hi = rng_of(bits, sg)
    fits = ("ba", atom("ffits", (bits, int(sg), v), 0, 1))
    if st.decide(fits): return [(st, some(dt, of_atom(atom("f2i", (bits, int(sg), v), lo, hi))))]
    return [(st, none(dt))]
@rx(r"^<f(32|64) as std::ops::(Mul|Add|Sub|Div|Neg)>::(mul|add|sub|div|neg)$")
def m_farith(I, st, args, dt, ref, at):
    return [(st, f_op(ref["path"].rsplit("::", 1)[1], *args))]
@rx(r"^std::convert::num::<impl std::convert::From<([iu]\d+|f32)> for f(32|64)>::from$")
def m_ffrom2(I, st, args, dt, ref, at):
    return [(st, I.cast(st, "IntToFloat" if I.T[at[0]]["k"] == "int" else "FloatToFloat", args[0], at[0], dt))]

# ---------------------------------------------------------------- formatting: result opaque, no effect on state
@rx(r"^std::fmt::", r"^core::fmt::", r"^<.* as std::fmt::[A-Z]\w*>::fmt$")
def m_fmt(I, st, args, dt, ref, at):
    if ref["key"] and ref["key"] in I.p.funs and I.p.funs[ref["key"]]["local"]: return NotImplemented
    if "new_debug" in ref["path"] or "new_display" in ref["path"]: pass
    if I.T[dt]["k"] in ("ref", "ptr") and args and isinstance(args[0], Ptr): return [(st, args[0])]
    return [(st, SymV(dt, st.fresh("fmt")))]
