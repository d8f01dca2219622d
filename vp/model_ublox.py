"""What the analysed crate looks like: packet views, accessors, validators, iterators, builders."""
import re
from .terms import *
from .interp import Interp, State, Unsupported
from .prog import Prog
from . import dump as _dump
_progs = {}
def prog(feature="std_alloc"):
    if feature not in _progs: _progs[feature] = Prog(_dump.dump(feature))
    _progs[feature].activate()
    return _progs[feature]

def self_adt(p, f):
    """ADT type index of a `&self` / `self` first argument"""
    if f["argc"] < 1: return None, None
    ti = f["locals"][1][0]; t = p.T[ti]
    if t["k"] == "ref":
        to = p.T[t["to"]]
        return (t["to"], "ref") if to["k"] == "adt" else (None, None)
    return (ti, "val") if t["k"] == "adt" else (None, None)

def view_types(p):
    """local structs whose only field is a borrowed byte slice: {short name: type index}"""
    out = {}
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t["local"] and t["adt"] == "struct" and t["variants"]:
            fs = t["variants"][0]["f"]
            if len(fs) == 1 and fs[0][1] is not None and not t["path"].startswith("ubx_packets::packets::_"):
                ft = p.T[fs[0][1]]
                if ft["k"] == "ref" and p.T[ft["to"]]["k"] == "slice":
                    out.setdefault(t["path"].rsplit("::", 1)[-1], i)
    return out

def accessors(p):
    """{(view, method): function} for inherent &self methods without further arguments on byte views"""
    views = {p.T[i]["path"]: n for n, i in view_types(p).items()}
    out = {}
    for k in p.roots:
        f = p.funs.get(k)
        if f is None or f["argc"] != 1: continue
        ti, m = self_adt(p, f)
        if ti is None or m != "ref": continue
        vp = p.T[ti]["path"]
        if vp not in views: continue
        if not f["path"].startswith(vp + "::"): continue      # inherent only
        out[(views[vp], f["path"].rsplit("::", 1)[-1])] = f
    return out

def is_iter_ty(p, ti):
    t = p.T[ti]
    if t["k"] != "adt" or not t["local"]: return False
    return t["path"] in iter_types(p)
def iter_types(p):
    if not hasattr(p, "_iters"):
        p._iters = {p.T[im["self"]]["path"] for im in p.impls if im.get("trait") == "std::iter::Iterator" and p.T[im["self"]]["k"] == "adt"}
    return p._iters

def payload_view(I, st, ti, name="P"):
    """a byte view over a symbolic payload; returns (value of the view, slice pointer)"""
    t = I.T[ti]
    al = ("S", name)
    n = sym("len(%s)" % name, 0, (1 << 63) - 1)
    if al not in st.store: st.store[al] = Seq((("sub", name, ZERO, n),))
    ptr = Ptr(al, (), (ZERO, n))
    return Agg(ti, 0, (ptr,)), ptr

def run_accessor(p, f, ti, st=None, I=None, setup=None):
    I = I or Interp(p)
    st = st or State()
    v, ptr = payload_view(I, st, ti)
    st.store[("S", "self")] = v
    outs = I.run(f["key"], [Ptr(("S", "self"))], st)
    return I, outs
