"""C26: packet views cannot be made, kept or written through by safe client code."""
import os, shutil
from .. import dump as D
from ..witness import Set
from ..model_ublox import *
from .words import is_flags

# ---------------------------------------------------------------- what client code must not be able to do
def packet_loop(body, pre="", post="", parser="let mut p = Parser::default();", data="let data = [0u8; 40];"):
    return """use ublox::*;
#[allow(unused_assignments, unused_variables)]
pub fn client() {
    %s
    %s
    %s
    {
        let mut it = p.consume(&data);
        while let Some(m) = it.next() {
            %s
        }
    }
    %s
}""" % (data, parser, pre, body, post)
READ = "if let Ok(PacketRef::NavPvt(x)) = m { %s }"
FIXED = "let mut mem = [0u8; 64]; let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));"

def fn(sig, body): return "use ublox::*;\npub fn client%s {\n%s\n}" % (sig, body)

def witnesses():
    """[(text, offending source, twin, error codes of which one must be reported)]"""
    W = []
    def w(text, bad, good, codes): W.append((text, bad, good, codes))
    good_read = packet_loop(READ % "let _ = x.lat_degrees();")
    # --- views from bytes of the client's own
    for v in ("NavPvtRef", "NavPosLlhRef", "MonVerRef", "EsfMeasRef", "RxmRawxRef", "NavSatSvInfoRef", "AckAckRef", "CfgPrtUartRef"):
        w("%s from bytes by its constructor" % v, fn("(b: &[u8]) -> %s<'_>" % v, "%s(b)" % v), fn("(b: %s<'_>) -> %s<'_>" % (v, v), "b"), ("E0423", "E0603", "E0532", "E0425"))
        w("%s from bytes by its field" % v, fn("(b: &[u8]) -> %s<'_>" % v, "%s { 0: b }" % v), fn("(b: %s<'_>) -> %s<'_>" % (v, v), "b"), ("E0451", "E0560", "E0574"))
        w("%s by conversion" % v, fn("(b: &[u8]) -> %s<'_>" % v, "b.into()"), fn("(b: %s<'_>) -> %s<'_>" % (v, v), "b.into()"), ("E0277",))
        w("%s by fallible conversion" % v, fn("(b: &[u8]) -> Option<%s<'_>>" % v, "%s::try_from(b).ok()" % v), fn("(b: %s<'_>) -> Option<%s<'_>>" % (v, v), "%s::try_from(b).ok()" % v), ("E0277",))
        w("%s by default" % v, fn("() -> usize", "let x: %s = Default::default(); core::mem::size_of_val(&x)" % v), fn("() -> usize", "let x: %s; core::mem::size_of::<%s>()" % ("u8", v)), ("E0277",))
        w("bytes under %s" % v, fn("<'a>(x: &%s<'a>) -> &'a [u8]" % v, "x.0"), fn("<'a>(x: &'a %s<'a>) -> &'a %s<'a>" % (v, v), "x"), ("E0616", "E0609"))
    for f in ("match_packet(1, 7, b)", "ubx_packets::match_packet(1, 7, b)", "packets::match_packet(1, 7, b)", "NavPvtRef::validate(b)"):
        ok = "{ let _ = b; UbxPacketRequest::request_for_unknown(1, 7) }"
        w("internal dispatch %s" % f, fn("(b: &[u8]) -> bool", "let _ = ublox::%s; true" % f), fn("(b: &[u8]) -> bool", "let _ = %s; true" % ok), ("E0425", "E0433", "E0603", "E0624"))
    # --- sub-record iterators from bytes
    for v in ("NavSatIter", "EsfMeasDataIter", "EsfRawDataIter", "MonVerExtensionIter", "RxmRawxInfoIter", "DwrdIter"):
        w("%s by its field" % v, fn("(b: &[u8]) -> usize", "let x = ublox::%s { data: b, offset: 0 }; core::mem::size_of_val(&x)" % v), fn("(b: &[u8]) -> usize", "core::mem::size_of_val(b)"), ("E0451", "E0560", "E0422", "E0603", "E0574"))
    # --- parser internals
    w("iterator over the client's own buffer", fn("(p: &mut Parser<Vec<u8>>, b: &[u8])", "let _: ParserIter<'_, Vec<u8>> = ParserIter { buf: todo!() }; let _ = b;"), fn("(p: &mut Parser<Vec<u8>>, b: &[u8])", "let _ = p.consume(b);"), ("E0451", "E0560"))
    w("buffered bytes of a parser", fn("(p: &mut Parser<Vec<u8>>)", "p.buf.clear();"), fn("(p: &mut Parser<Vec<u8>>)", "let _ = p.buffer_len();"), ("E0616", "E0609"))
    w("parser from parts", fn("(b: Vec<u8>) -> Parser<Vec<u8>>", "Parser { buf: b }"), fn("(b: Vec<u8>) -> Parser<Vec<u8>>", "Parser::new(b)"), ("E0451", "E0560", "E0574"))
    w("bytes under an iterator", fn("(it: &mut ParserIter<'_, Vec<u8>>)", "let _ = &mut it.buf;"), fn("(it: &mut ParserIter<'_, Vec<u8>>)", "let _ = it.next();"), ("E0616", "E0609"))
    w("length of a fixed buffer", fn("(b: &mut FixedLinearBuffer<'_>)", "b.len = 9;"), fn("(b: &mut FixedLinearBuffer<'_>)", "let _ = UnderlyingBuffer::len(b);"), ("E0616", "E0609"))
    w("memory of a fixed buffer", fn("(b: &mut FixedLinearBuffer<'_>)", "b.buffer[0] = 9;"), fn("(b: &mut FixedLinearBuffer<'_>)", "UnderlyingBuffer::clear(b);"), ("E0616", "E0609"))
    w("fixed buffer with a length of the client's choice", fn("(m: &mut [u8]) -> FixedLinearBuffer<'_>", "FixedLinearBuffer { buffer: m, len: 5 }"), fn("(m: &mut [u8]) -> FixedLinearBuffer<'_>", "FixedLinearBuffer::new(m)"), ("E0451", "E0560", "E0574"))
    w("the two-part buffer type", fn("()", "let _: Option<DualBuffer<'static, Vec<u8>>> = None;"), fn("()", "let _: Option<ParserIter<'static, Vec<u8>>> = None;"), ("E0412", "E0425", "E0433", "E0603"))
    # --- keeping what was delivered
    for nm, ps in (("growable", "let mut p = Parser::default();"), ("fixed", FIXED)):
        w("packet kept across the next one (%s)" % nm, packet_loop("if let Some(k) = keep.take() { let _: &PacketRef = &k; } if let Ok(x) = m { keep = Some(x); }", "let mut keep: Option<PacketRef> = None;", "", ps),
          packet_loop("let mut keep: Option<PacketRef> = None; if let Ok(x) = m { keep = Some(x); } let _ = keep;", "", "", ps), ("E0499",))
        w("packet kept after the iterator (%s)" % nm, packet_loop("if let Ok(x) = m { keep = Some(x); }", "let mut keep: Option<PacketRef> = None;", "let _ = keep.is_some();", ps),
          packet_loop("if let Ok(PacketRef::NavPvt(x)) = m { keep = Some(x.itow()); }", "let mut keep: Option<u32> = None;", "let _ = keep.is_some();", ps), ("E0597", "E0499"))
        w("typed view kept after the iterator (%s)" % nm, packet_loop("if let Ok(PacketRef::MonVer(x)) = m { keep = Some(x); }", "let mut keep: Option<MonVerRef> = None;", "let _ = keep.is_some();", ps),
          packet_loop("if let Ok(PacketRef::MonVer(x)) = m { let keep: Option<MonVerRef> = Some(x); let _ = keep; }", "", "", ps), ("E0597", "E0499"))
        w("string of a packet kept after the iterator (%s)" % nm, packet_loop("if let Ok(PacketRef::MonVer(x)) = m { keep = x.software_version(); }", "let mut keep: &str = \"\";", "let _ = keep.len();", ps),
          packet_loop("if let Ok(PacketRef::MonVer(x)) = m { keep = x.software_version().len(); }", "let mut keep: usize = 0;", "let _ = keep;", ps), ("E0597", "E0499"))
        w("sub-record iterator kept after the iterator (%s)" % nm, packet_loop("if let Ok(PacketRef::NavSat(x)) = m { keep = Some(x.svs()); }", "let mut keep = None;", "let _ = keep.is_some();", ps),
          packet_loop("if let Ok(PacketRef::NavSat(x)) = m { keep = Some(x.svs().count()); }", "let mut keep = None;", "let _ = keep.is_some();", ps), ("E0597", "E0499"))
        w("payload of an unknown packet kept (%s)" % nm, packet_loop("if let Ok(PacketRef::Unknown(x)) = m { keep = x.payload; }", "let mut keep: &[u8] = &[];", "let _ = keep.len();", ps),
          packet_loop("if let Ok(PacketRef::Unknown(x)) = m { keep = x.payload.len(); }", "let mut keep: usize = 0;", "let _ = keep;", ps), ("E0597", "E0499"))
        w("parser fed while an iterator is alive (%s)" % nm, fn("()", "let data = [0u8; 4]; %s let mut a = p.consume(&data); let _b = p.consume(&data); let _ = a.next();" % ps),
          fn("()", "let data = [0u8; 4]; %s { let mut a = p.consume(&data); let _ = a.next(); } let _b = p.consume(&data);" % ps), ("E0499",))
        w("parser queried while an iterator is alive (%s)" % nm, fn("()", "let data = [0u8; 4]; %s let mut a = p.consume(&data); let _ = p.buffer_len(); let _ = a.next();" % ps),
          fn("()", "let data = [0u8; 4]; %s { let mut a = p.consume(&data); let _ = a.next(); } let _ = p.buffer_len();" % ps), ("E0502",))
        w("input changed while an iterator is alive (%s)" % nm, fn("()", "let mut data = [0u8; 4]; %s let mut a = p.consume(&data); data[0] = 1; let _ = a.next();" % ps),
          fn("()", "let mut data = [0u8; 4]; %s { let mut a = p.consume(&data); let _ = a.next(); } data[0] = 1;" % ps), ("E0506",))
        w("input dropped while an iterator is alive (%s)" % nm, fn("()", "let data = vec![0u8; 4]; %s let mut a = p.consume(&data); drop(data); let _ = a.next();" % ps),
          fn("()", "let data = vec![0u8; 4]; %s { let mut a = p.consume(&data); let _ = a.next(); } drop(data);" % ps), ("E0505",))
        w("parser dropped while an iterator is alive (%s)" % nm, fn("()", "let data = vec![0u8; 4]; %s let mut a = p.consume(&data); drop(p); let _ = a.next();" % ps),
          fn("()", "let data = vec![0u8; 4]; %s { let mut a = p.consume(&data); let _ = a.next(); } drop(p);" % ps), ("E0505",))
    w("packet returned past its parser", fn("<'a>(p: &mut Parser<Vec<u8>>, b: &'a [u8]) -> Option<PacketRef<'a>>", "p.consume(b).next()?.ok()"),
      fn("<'a>(p: &'a mut Parser<Vec<u8>>, b: &'a [u8]) -> ParserIter<'a, Vec<u8>>", "p.consume(b)"), ("E0515", "E0521", "lifetime", None))
    w("iterator returned past its input", fn("(p: &mut Parser<Vec<u8>>) -> ParserIter<'_, Vec<u8>>", "let data = vec![1u8]; p.consume(&data)"),
      fn("<'a>(p: &'a mut Parser<Vec<u8>>, data: &'a [u8]) -> ParserIter<'a, Vec<u8>>", "p.consume(data)"), ("E0515",))
    w("iterator whose packets are all collected", fn("(p: &mut Parser<Vec<u8>>, b: &[u8])", "let mut it = p.consume(b); let a = it.next(); let c = it.next(); let _ = (a.is_some(), c.is_some());"),
      fn("(p: &mut Parser<Vec<u8>>, b: &[u8])", "let mut it = p.consume(b); let a = it.next().is_some(); let c = it.next().is_some(); let _ = (a, c);"), ("E0499",))
    w("fixed memory reused under its parser", fn("()", "let mut mem = [0u8; 64]; let mut p = Parser::new(FixedLinearBuffer::new(&mut mem)); mem[0] = 1; let _ = p.consume(&[]);"),
      fn("()", "let mut mem = [0u8; 64]; let mut p = Parser::new(FixedLinearBuffer::new(&mut mem)); let _ = p.consume(&[]); drop(p); mem[0] = 1;"), ("E0506",))
    # --- flag words and packed words by their private parts
    for t, f in (("AntFlags", "0"), ("InProtoMask", "0"), ("CfgNav5Params", "0"), ("NavPvtFlags", "0"), ("CfgInfMask", "0")):
        w("%s by its private part" % t, fn("() -> %s" % t, "%s { 0: todo!() }" % t), fn("() -> %s" % t, "%s::all()" % t), ("E0451", "E0560"))
        w("%s by its constructor" % t, fn("() -> %s" % t, "%s(1)" % t), fn("() -> %s" % t, "%s::empty()" % t), ("E0423", "E0425"))
    w("UART mode by its private parts", fn("() -> UartMode", "UartMode { data_bits: DataBits::Eight, parity: Parity::None, stop_bits: StopBits::One }"), fn("() -> UartMode", "UartMode::new(DataBits::Eight, Parity::None, StopBits::One)"), ("E0451", "E0560", "E0574"))
    w("packet request by its private parts", fn("() -> UbxPacketRequest", "UbxPacketRequest { req_class: 1, req_id: 2 }"), fn("() -> UbxPacketRequest", "UbxPacketRequest::request_for_unknown(1, 2)"), ("E0451", "E0560", "E0574"))
    return W

LIB = """[package]
name = "vp_client"
version = "0.0.0"
edition = "2021"
[lib]
path = "lib.rs"
[dependencies]
ublox = { path = "%s", features = ["alloc"] }
[workspace]
"""

def client_witnesses(r):
    D.ensure_driver()
    with D.Lock("client"):
        d = os.path.join(D.BUILD, "witness-client"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/Cargo.toml", "w").write(LIB % os.path.join(D.REPO, "ublox"))
        if os.path.exists(D.REPO + "/Cargo.lock"): shutil.copy2(D.REPO + "/Cargo.lock", d)
        S = Set(d, ["--lib"], os.path.join(D.BUILD, "target-client"), d + "/lib.rs", "#![allow(warnings)]", "vp_client")
        W = witnesses(); bad = []; goods = {}; order = []
        try:
            S.compile([])
            for i, (text, b, g, codes) in enumerate(W):
                bad.append(("b%d" % i, b)); goods.setdefault(g, "g%d" % len(goods))
                order.append((text, "b%d" % i, goods[g], codes))
            rej, acc = S.rejected(bad)
            gerr, _ = S.rejected([(n, s) for s, n in goods.items()])
        except D.BuildError as e:
            print(str(e)[-2000:]); r.undecided("client build", "", str(e)[-800:]); return
        finally: shutil.rmtree(d, ignore_errors=True)
    for text, b, g, codes in order:
        if g in gerr: r.bad("client: %s (twin)" % text, "", "the harmless counterpart is refused: %s" % (gerr[g][0],)); continue
        if b not in rej: r.bad("client: " + text, "", "this safe client code compiles"); continue
        cs = [c for c, m in rej[b]]
        r.check(any(c in codes for c in cs), "client: " + text, "", "refused for another reason: %s" % rej[b][:2])
        if len(text) % 9 == 0: r.sample([text, "%s %s" % rej[b][0]])
    r.count("client_witnesses", len(W)); r.count("client_twins", len(goods))

# ---------------------------------------------------------------- the crate's own items
def guarded(p):
    """{type index: what} types whose parts must stay private"""
    out = {}
    for n, i in view_types(p).items(): out[i] = "view"
    for i, t in enumerate(p.T):
        if t["k"] != "adt" or not t["local"] or t["adt"] != "struct": continue
        if t["path"] in iter_types(p) or t["path"].startswith("parser::"): out[i] = "parser part or iterator"
        elif t["variants"] and len(t["variants"][0]["f"]) == 1 and is_flags(p, i): out[i] = "flag word"
    return out

def c26(r, tier):
    r.rule = ("every part of views, iterators, parser types and flag words is private; every function a client can call that returns a view or iterator takes one (or a parser) as input, never bytes alone; "
              "and client programs that try to forge, keep or write through a view are refused by the compiler while their harmless twins are accepted")
    p = prog("std_alloc")
    G = guarded(p); views = set(view_types(p).values()); its = {i for i, w in G.items()}
    for i, what in sorted(G.items()):
        t = p.T[i]
        pubs = [fd[0] for v in t["variants"] for fd in v["f"] if fd[2]]
        r.check(not pubs, "parts of %s are private" % t["path"].rsplit("::", 1)[-1], t["path"], "public: %s" % ", ".join(pubs))
    memo = {}
    src = {i for i, w in G.items() if w == "view" or p.T[i]["path"] in iter_types(p) or p.T[i]["path"] in ("parser::ParserIter", "parser::DualBuffer")}
    def mentions(ti, depth=0):
        if ti is None or depth > 12: return False
        if ti in memo: return memo[ti]
        memo[ti] = False
        t = p.T[ti]; k = t["k"]; v = False
        if ti in src or (k == "adt" and t["local"] and any(p.T[i]["path"] == t["path"] for i in src)): v = True
        elif k in ("ref", "ptr"): v = mentions(t["to"], depth + 1)
        elif k == "tuple": v = any(mentions(a, depth + 1) for a in t["elems"])
        elif k in ("array", "slice"): v = mentions(t["elem"], depth + 1) if isinstance(t.get("elem"), int) else False
        elif k == "adt":
            v = any(mentions(a, depth + 1) for a in t.get("args") or [] if isinstance(a, int))
            if not v and t["local"]: v = any(mentions(fd[1], depth + 1) for x in t["variants"] for fd in x["f"] if fd[1] is not None)
        memo[ti] = v
        return v
    def is_parser(ti):
        t = p.T[ti]
        return t["k"] == "ref" and t.get("mut", True) and p.T[t["to"]].get("path") == "parser::Parser"
    n = 0; seen = set()
    OWN = ("ubx_packets::packets::CfgValIter",)      # writes the values it is given into the client's memory and reads back what it wrote
    for k, f in sorted(p.funs.items()):
        if not f["local"] or f["vis"] == "closure" or not (f["reach"] or f["trait"]) or (f["vis"] != "pub" and not f["trait"]): continue
        out = f["locals"][0][0]
        if not mentions(out): continue
        if p.T[out]["k"] == "adt" and p.T[out]["path"] in OWN: continue
        ins = [f["locals"][j + 1][0] for j in range(f["argc"])]
        if f["path"] in seen: continue
        seen.add(f["path"]); n += 1; r.fn(f["path"])
        r.check(any(mentions(x) or is_parser(x) for x in ins), "%s needs a packet or parser" % f["path"], f["span"], "a client can call it with %s and obtains %s" % (", ".join(p.T[x]["s"] for x in ins) or "nothing", p.T[out]["s"]))
        # nothing hands out writable bytes
    for k, f in sorted(p.funs.items()):
        if not f["local"] or f["vis"] != "pub" or not f["reach"]: continue
        t = p.T[f["locals"][0][0]]
        if t["k"] == "ref" and t.get("mut") and f["argc"] and mentions(f["locals"][1][0]) and p.T[t["to"]]["k"] in ("slice", "array", "int"):
            r.bad("%s hands out writable bytes" % f["path"], f["span"], p.T[f["locals"][0][0]]["s"])
    r.count("functions_returning_views", n); r.count("guarded_types", len(G))
    r.need("guarded types", len(G), 90); r.need("functions returning views or iterators", n, 6)
    client_witnesses(r)
