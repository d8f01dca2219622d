"""Canonical text of the value a function returns, independent of how its paths are organised."""
from .terms import *
from .interp import Unsupported
import itertools

def bits_in(x, acc):
    """(byte atom, bit) pairs a fact or value depends on; adds None when not a plain payload byte"""
    for a in atoms_of(x):
        if a.kind == "el" and a.hi == 255: acc.add(a)
    return acc

def is_len(a): return a.kind == "sym" and str(a.args[0]).startswith("len(")
def length_only(b):
    ats = atoms_of(b)
    return any(is_len(a) for a in ats) and not any(a.kind in ("utf8", "first", "seqeq") for a in ats)

def canon(I, outs, pre=()):
    """outs: [(facts list, value)] -> text; pre: what is known beforehand (values it excludes are left out of tables)"""
    outs = [([b for b in fs if not length_only(b)], v) for fs, v in outs]
    if len(outs) > 1 and all(I.is_bool(v) for _, v in outs):
        b = b_or(*[b_and(v, *fs) for fs, v in outs])
        if not (isinstance(b, tuple) and b[0] == "or"): return show(b)
    vals = {show(v) for _, v in outs}
    if len(vals) == 1: return vals.pop()
    els = set(); plain = True
    for fs, v in outs:
        for b in fs:
            for a in atoms_of(b):
                if a.kind == "el" and a.hi == 255: els.add(a)
                elif a.kind in ("fld", "sbit", "sfld", "wrap", "div"): pass
                else: plain = False
    if plain and 1 <= len(els) <= 2:
        # which bits matter
        els = sorted(els, key=show)
        # enumerate the distinguishing bits only
        masks = relevant_bits(outs, els)
        nb = sum(bin(m).count("1") for m in masks)
        if nb <= 11: return "match " + enum_table(outs, els, masks, pre)
    parts = sorted("%s => %s" % (" & ".join(sorted(show(b) for b in fs)) or "true", show(v)) for fs, v in outs)
    return " || ".join(parts)

def relevant_bits(outs, els):
    masks = {e: 0 for e in els}
    def walk(x):
        if isinstance(x, Lin):
            for a, _ in x.m: walk(a)
        elif isinstance(x, Atom):
            if x.kind == "fld" and x.args[0] in masks: masks[x.args[0]] |= ((1 << x.args[2]) - 1) << x.args[1]
            elif x in masks: masks[x] |= 255
            else:
                for y in x.args: walk(y)
        elif isinstance(x, tuple):
            for y in x: walk(y)
    for fs, v in outs:
        for b in fs: walk(b)
    return [masks[e] for e in els]

def enum_table(outs, els, masks, pre=()):
    rows = []
    spaces = []
    for m in masks:
        vs = [v for v in range(256) if v & ~m == 0]
        spaces.append(vs)
    for combo in itertools.product(*spaces):
        # substitute only the relevant bits inside facts; keep other bits symbolic in the value
        sub = {e: Lin(c) for e, c in zip(els, combo)}
        hit = []
        if any(subst(b, sub) is False for b in pre):
            rows.append((combo, None)); continue
        for fs, v in outs:
            ok = True
            for b in fs:
                r = subst(b, sub)
                if r is False: ok = False; break
                if r is not True: ok = None; break
            if ok: hit.append(v)
            elif ok is None: return "undetermined"
        if len(hit) == 0: t = "diverges"
        else:
            full = all(m == 255 for m in masks)
            t = " / ".join(sorted({show(subst(v, sub)) if full else show(subst_bits(v, els, masks, combo)) for v in hit}))
        rows.append((combo, t))
    # drop bits on which nothing depends
    tab = dict(rows)
    if "undetermined" not in tab.values():
        masks = list(masks)
        for k in range(len(els)):
            for bit in range(8):
                m = 1 << bit
                if not masks[k] & m: continue
                if all(tab.get(c[:k] + (c[k] ^ m,) + c[k + 1:]) == t for c, t in tab.items()):
                    masks[k] &= ~m
                    tab = {c: t for c, t in tab.items() if not c[k] & m}
        rows = sorted(tab.items())
        keep = [k for k in range(len(els)) if masks[k]]
        if keep:
            els = [els[k] for k in keep]; rows = [(tuple(c[k] for k in keep), t) for c, t in rows]; masks = [masks[k] for k in keep]
    rows = [r for r in rows if r[1] is not None]
    # compress
    out = []
    names = ",".join(show(of_atom(e)) + ("" if m == 255 else "&0x%x" % m) for e, m in zip(els, masks))
    i = 0
    if len(els) == 1:
        while i < len(rows):
            j = i
            while j + 1 < len(rows) and rows[j + 1][1] == rows[i][1] and (masks[0] != 255 or rows[j + 1][0][0] == rows[j][0][0] + 1): j += 1
            a, b = rows[i][0][0], rows[j][0][0]
            out.append("%s=>%s" % (a if a == b else "%d..%d" % (a, b), rows[i][1])); i = j + 1
    else: out = ["%s=>%s" % (r[0], r[1]) for r in rows]
    return names + " {" + "; ".join(out) + "}"

def subst_bits(v, els, masks, combo):
    m = {}
    for a in atoms_of(v):
        if a.kind == "fld" and a.args[0] in els:
            i = els.index(a.args[0])
            fm = ((1 << a.args[2]) - 1) << a.args[1]
            if masks[i] & fm == fm: m[a] = Lin((combo[i] & fm) >> a.args[1])
    return subst(v, m)
