"""C25: declarations the packet macros must refuse, each with a twin that differs only in the offending part and must be accepted."""
import os, shutil, subprocess
from .. import dump as D
from ..witness import Set

SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "f64": 8}
KINDS = ("recv", "send", "recv_send")

def packet(fields, attrs, kind="recv", name="Wit", struct=None):
    body = "\n".join("    %s," % f for f in fields)
    return "use super::*;\n#[ubx_packet_%s]\n%s\nstruct %s {\n%s\n}" % (kind, "" if attrs is None else "#[ubx(%s)]" % attrs, name, body)
def enum(vals, attrs="from_unchecked, into_raw, rest_error", repr_="u8", variants=None):
    vs = variants or ["V%d = %s" % (i, v) for i, v in enumerate(vals)]
    return "use super::*;\n#[ubx_extend]\n%s\n%s\n#[derive(Debug, Clone, Copy)]\npub enum En {\n%s\n}" % ("#[ubx(%s)]" % attrs if attrs else "", "#[repr(%s)]" % repr_ if repr_ else "", "\n".join("    %s," % v for v in vs))
def flags(vals, ty="u8", attrs="from, into_raw, rest_reserved"):
    return "use super::*;\n#[ubx_extend_bitflags]\n%s\nbitflags! {\n    #[derive(Debug)]\n    pub struct Fl: %s {\n%s\n    }\n}" % ("#[ubx(%s)]" % attrs if attrs else "", ty, "\n".join("        const F%d = %s;" % (i, v) for i, v in enumerate(vals)))
def recv(names):
    return "use super::*;\n#[ubx_packet_recv]\n#[ubx(class = 0x70, id = 1, fixed_payload_len = 1)]\nstruct One { a: u8 }\n#[ubx_packet_recv]\n#[ubx(class = 0x70, id = 2, fixed_payload_len = 2)]\nstruct Two { a: u16 }\n" \
           "#[ubx_packet_recv]\n#[ubx(class = 0x70, id = 3, fixed_payload_len = 4)]\nstruct Three { a: u32 }\ndefine_recv_packets!(enum PacketRef {\n    _ = UbxUnknownPacketRef,\n%s\n});" % "\n".join("    %s," % n for n in names)

IT = """pub struct It<'a>(core::slice::Iter<'a, u8>);
impl<'a> It<'a> { fn new(b: &'a [u8]) -> Self { Self(b.iter()) } fn is_valid(_: &[u8]) -> bool { true } }
impl<'a> core::iter::Iterator for It<'a> { type Item = u8; fn next(&mut self) -> Option<u8> { self.0.next().copied() } }
impl<'a> core::fmt::Debug for It<'a> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("It") } }
impl<'a> core::clone::Clone for It<'a> { fn clone(&self) -> Self { It(self.0.clone()) } }
"""
MAP = "#[ubx(map_type = It, from = It::new, is_valid = It::is_valid, get_as_ref, may_fail)] "

def witnesses():
    """[(class, text, offending source, twin source)]"""
    W = []
    def w(cls, text, bad, good): W.append((cls, text, bad, good))
    # a fixed length that is not the sum of the fields
    for t, n in SIZES.items():
        for L in sorted({0, n - 1, n + 1, 2 * n, 65535} - {n}):
            for k in KINDS if L == n + 1 else ("recv",):
                w("length", "field of %s declared as %d bytes (%s)" % (t, L, k), packet(["a: " + t], "class = 0x70, id = 1, fixed_payload_len = %d" % L, k), packet(["a: " + t], "class = 0x70, id = 1, fixed_payload_len = %d" % n, k))
    for n in (1, 2, 7, 255, 256, 300):
        for L in (n - 1, n + 1): w("length", "[u8; %d] declared as %d bytes" % (n, L), packet(["a: [u8; %d]" % n], "class = 0x70, id = 1, fixed_payload_len = %d" % L), packet(["a: [u8; %d]" % n], "class = 0x70, id = 1, fixed_payload_len = %d" % n))
    mixed = ["a: u8", "b: i16", "c: [u8; 3]", "d: u32", "e: f64", "#[ubx(map_type = f64, scale = 1e-2)] f: i32", "#[ubx(alias = gee)] g: u8"]
    S = 23
    for L in (0, 1, 14, 22, 24, 30, 279, 65535):
        for k in KINDS if L in (22, 24) else ("recv",):
            w("length", "seven fields of %d bytes declared as %d (%s)" % (S, L, k), packet(mixed, "class = 0x70, id = 1, fixed_payload_len = %d" % L, k), packet(mixed, "class = 0x70, id = 1, fixed_payload_len = %d" % S, k))
    for drop in range(len(mixed)):
        w("length", "field %d left out" % drop, packet(mixed[:drop] + mixed[drop + 1:], "class = 0x70, id = 1, fixed_payload_len = %d" % S), packet(mixed, "class = 0x70, id = 1, fixed_payload_len = %d" % S))
    w("length", "sum wraps around 16 bits", packet(["a: u8", "b: [u8; 65536]"], "class = 0x70, id = 1, fixed_payload_len = 1"), packet(["a: u8", "b: [u8; 65534]"], "class = 0x70, id = 1, fixed_payload_len = 65535"))
    w("length", "fixed length for a packet that ends in a repeated part", IT and with_it(packet(["a: u8", MAP + "b: [u8; 0]"], "class = 0x70, id = 1, fixed_payload_len = 1")), with_it(packet(["a: u8", MAP + "b: [u8; 0]"], "class = 0x70, id = 1, max_payload_len = 100")))
    w("length", "only a maximum for a packet of fixed fields", packet(["a: u8", "b: u16"], "class = 0x70, id = 1, max_payload_len = 3"), packet(["a: u8", "b: u16"], "class = 0x70, id = 1, fixed_payload_len = 3"))
    # unsized or iterator fields not in last place
    vl = "class = 0x70, id = 1, max_payload_len = 1240"
    for pre in ([], ["x: u16"], ["x: u8", "y: u32"]):
        for post in (["z: u8"], ["z: u16", "q: [u8; 4]"]):
            w("order", "iterator field at place %d of %d" % (len(pre), len(pre) + 1 + len(post)), with_it(packet(pre + [MAP + "b: [u8; 0]"] + post, vl)), with_it(packet(pre + post + [MAP + "b: [u8; 0]"], vl)))
    w("order", "iterator field before an optional tail without its own size", with_it(packet(["x: u8", MAP + "b: [u8; 0]", MAP + "c: [u8; 0]"], vl)), with_it(packet(["x: u8", MAP + "b: [u8; 0]"], vl)))
    w("order", "unsized field before another in a builder", "use super::*;\n" + packet(["x: u8", "b: &'static [u8]", "c: u8"], vl, "send").replace("use super::*;\n", ""), packet(["x: u8", "c: u8"], "class = 0x70, id = 1, fixed_payload_len = 2", "send"))
    # element types without a documented wire size
    for t in ("u64", "i64", "usize", "bool", "char", "u128", "(u8, u8)", "[u16; 2]", "[i8; 2]", "[u8; LEN]"):
        w("size", "field of type %s" % t, packet(["a: u8", "b: " + t], "class = 0x70, id = 1, fixed_payload_len = 3").replace("use super::*;", "use super::*;\nconst LEN: usize = 2;"), packet(["a: u8", "b: u16"], "class = 0x70, id = 1, fixed_payload_len = 3").replace("use super::*;", "use super::*;\n#[allow(dead_code)] const LEN: usize = 2;"))
    # missing or repeated class, id, length
    full = {"class": "0x70", "id": "1", "fixed_payload_len": "1"}
    good = packet(["a: u8"], ", ".join("%s = %s" % x for x in full.items()))
    for k in KINDS:
        g = packet(["a: u8"], ", ".join("%s = %s" % x for x in full.items()), k)
        for miss in full: w("header", "no %s (%s)" % (miss, k), packet(["a: u8"], ", ".join("%s = %s" % x for x in full.items() if x[0] != miss), k), g)
        w("header", "no ubx attribute (%s)" % k, packet(["a: u8"], None, k), g)
    for dup in full:
        for v in (full[dup], "2"): w("header", "%s given twice (%s)" % (dup, v), packet(["a: u8"], ", ".join("%s = %s" % x for x in full.items()) + ", %s = %s" % (dup, v)), good)
    w("header", "both length forms", packet(["a: u8"], "class = 0x70, id = 1, fixed_payload_len = 1, max_payload_len = 1"), good)
    for what in ("class", "id"):
        for v in ("256", "-1", "1000", "\"1\"", "0x170"): w("header", "%s = %s" % (what, v), packet(["a: u8"], ", ".join("%s = %s" % (k, v if k == what else x) for k, x in full.items())), good)
    for v in ("65536", "65537", "-1"): w("header", "length %s" % v, packet(["a: u8"], "class = 0x70, id = 1, fixed_payload_len = %s" % v), good)
    w("header", "unknown attribute", packet(["a: u8"], "class = 0x70, id = 1, fixed_payload_len = 1, klass = 3"), good)
    # enumerations
    for attrs in ("from_unchecked, into_raw, rest_error", "from, into_raw, rest_reserved"):
        g = enum(["0", "1", "7", "255"], attrs)
        for i, j in ((0, 1), (0, 3), (1, 2), (2, 3)):
            v = ["0", "1", "7", "255"]; v[j] = v[i]
            w("enum", "value %s twice, at %d and %d (%s)" % (v[i], i, j, attrs), enum(v, attrs), g)
        for v in ("256", "257", "65536", "-1", "1 + 1", "0x100"):
            for pos in (0, 3):
                vs = ["0", "1", "7", "255"]; vs[pos] = v
                w("enum", "value %s at %d (%s)" % (v, pos, attrs), enum(vs, attrs), g)
        w("enum", "same value in two notations (%s)" % attrs, enum(["0", "0x10", "16"], attrs), enum(["0", "0x10", "17"], attrs))
        w("enum", "variant without a value (%s)" % attrs, enum([], attrs, variants=["A = 0", "B", "C = 7"]), enum([], attrs, variants=["A = 0", "B = 1", "C = 7"]))
        w("enum", "variant with data (%s)" % attrs, enum([], attrs, variants=["A = 0", "B(u8) = 1"]), enum([], attrs, variants=["A = 0", "B = 1"]))
        w("enum", "same name twice (%s)" % attrs, enum([], attrs, variants=["A = 0", "A = 1"]), enum([], attrs, variants=["A = 0", "B = 1"]))
        for rp in ("u16", "i8", "u32", "C", None): w("enum", "representation %s (%s)" % (rp, attrs), enum(["0", "1"], attrs, rp), enum(["0", "1"], attrs))
    w("enum", "total conversion without a value for every byte", enum(["0", "1"], "from, into_raw"), enum(["0", "1"], "from, into_raw, rest_reserved"))
    w("enum", "total conversion that may be refused", enum(["0", "1"], "from, into_raw, rest_error"), enum(["0", "1"], "from, into_raw, rest_reserved"))
    w("enum", "partial conversion with reserved names", enum(["0", "1"], "from_unchecked, rest_reserved"), enum(["0", "1"], "from_unchecked, rest_error"))
    w("enum", "no ubx attribute", enum(["0", "1"], None), enum(["0", "1"]))
    w("enum", "two rest handlings", enum(["0", "1"], "from_unchecked, rest_error, rest_reserved"), enum(["0", "1"], "from_unchecked, rest_error"))
    # flag words
    for ty, n in (("u8", 8), ("u16", 16), ("u32", 32)):
        ok = ["1", "2", "0x10"]; g = flags(ok, ty)
        for v in ("0", "3", "0x30", "0x81", "255", str(1 << n), str((1 << n) + 1), str(1 << (n + 1)), hex((1 << n) - 1)):
            for pos in (0, 2):
                vs = list(ok); vs[pos] = v
                w("flags", "%s flag %s at %d" % (ty, v, pos), flags(vs, ty), g)
        for i, j in ((0, 1), (1, 2), (0, 2)):
            vs = list(ok); vs[j] = vs[i]
            w("flags", "%s bit %s twice, %d and %d" % (ty, vs[i], i, j), flags(vs, ty), g)
        w("flags", "%s highest bit twice" % ty, flags([hex(1 << (n - 1)), str(1 << (n - 1))], ty), flags([hex(1 << (n - 1)), str(1 << (n - 2))], ty))
    for ty in ("u64", "i8", "i32", "usize"): w("flags", "word of %s" % ty, flags(["1", "2"], ty), flags(["1", "2"], "u8"))
    for a in ("from, into_raw", "from, into_raw, rest_error", None): w("flags", "attributes %s" % a, flags(["1", "2"], "u8", a), flags(["1", "2"], "u8"))
    # packet lists
    g = recv(["One", "Two", "Three"])
    for l in (["One", "One"], ["One", "Two", "One"], ["Two", "Two", "One"], ["One", "Two", "Three", "Three"]): w("names", "list %s" % " ".join(l), recv(l), g)
    w("names", "packet that is not declared", recv(["One", "Four"]), g)
    w("names", "two fields of one name", packet(["a: u8", "a: u8"], "class = 0x70, id = 1, fixed_payload_len = 2"), packet(["a: u8", "b: u8"], "class = 0x70, id = 1, fixed_payload_len = 2"))
    w("names", "alias that is another field's name", packet(["a: u8", "#[ubx(alias = a)] b: u8"], "class = 0x70, id = 1, fixed_payload_len = 2"), packet(["a: u8", "#[ubx(alias = c)] b: u8"], "class = 0x70, id = 1, fixed_payload_len = 2"))
    w("names", "tuple struct", good.replace("struct Wit {\n    a: u8,\n}", "struct Wit(u8);"), good)
    return W

def with_it(src): return src + "\n" + IT

def copy_tree():
    """the crate's sources with one extra module next to the packet declarations, in a scratch folder of the build directory"""
    d = os.path.join(D.BUILD, "witness-src")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for n in ("ublox", "ublox_derive"):
        shutil.copytree(os.path.join(D.REPO, n), os.path.join(d, n), ignore=shutil.ignore_patterns("target", ".git", "tests", "benches", "examples"))
    toml = open(os.path.join(D.REPO, "Cargo.toml")).read()
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    if os.path.exists(D.REPO + "/Cargo.lock"): shutil.copy2(D.REPO + "/Cargo.lock", d)
    for extra in ("README.md",):
        if os.path.exists(os.path.join(D.REPO, extra)): shutil.copy2(os.path.join(D.REPO, extra), d)
    t = os.path.join(d, "ublox/Cargo.toml"); s = open(t).read()
    if "[[bench]]" in s: os.makedirs(d + "/ublox/benches", exist_ok=True); open(d + "/ublox/benches/packet_benchmark.rs", "w").write("fn main() {}\n")
    pk = os.path.join(d, "ublox/src/ubx_packets/packets.rs")
    with open(pk, "a") as f: f.write("\n#[allow(warnings)]\nmod vp_witness;\n")
    os.makedirs(d + "/ublox/src/ubx_packets/packets", exist_ok=True)
    return d, d + "/ublox/src/ubx_packets/packets/vp_witness.rs"

def c25(r, tier):
    r.rule = ("offending declarations, enumerated over field types, positions, lengths, values and macro kinds, are compiled as modules of a copy of the current crate; each must be refused by the "
              "compiler and its twin, the same declaration without the offence, must be accepted")
    D.ensure_driver()
    with D.Lock("witness"):
        d, file = copy_tree()
        S = Set(d, (["--locked"] if os.path.exists(d + "/Cargo.lock") else []) + ["-p", "ublox", "--lib", "--no-default-features", "--features", "ublox/std,ublox/alloc"], os.path.join(D.BUILD, "target-witness"), file, "#![allow(warnings)]\nuse super::*;", "ublox")
        try:
            base = S.compile([])
            W = witnesses(); bad = []; goods = {}; order = []
            for i, (cls, text, b, g) in enumerate(W):
                bad.append(("b%d" % i, b))
                if g not in goods: goods[g] = "g%d" % len(goods)
                order.append((cls, text, "b%d" % i, goods[g]))
            rej, acc = S.rejected(bad)
            gerr = {}; left = [(n, s) for s, n in goods.items()]
            gerr, _ = S.rejected(left)
        except D.BuildError as e:
            print(str(e)[-2000:]); r.undecided("witness build", "", str(e)[-800:]); return
        finally: shutil.rmtree(d, ignore_errors=True)
    src = "ublox_derive/src/input.rs"
    for cls, text, b, g in order:
        oid = "%s: %s" % (cls, text)
        if g in gerr: r.bad(oid + " (twin)", src, "the corrected declaration is refused: %s" % gerr[g][0][1][:300])
        r.check(b in rej, oid, src, "the declaration compiles")
        if b in rej and len(r.samples) < 6 and len(oid) % 7 == 0: r.sample([oid, rej[b][0][1][:160]])
    r.count("witnesses", len(W)); r.count("twins", len(goods))
    r.need("refused declarations", len(W), 200)
