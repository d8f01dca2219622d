"""C31: acknowledgement matching, poll requests and message-rate settings name the right message."""
from ..model_build import *
from .build import lit_bytes
from .conv import named_fields

CLASS, ID = "CLASS", "ID"
def of_type_param(nm):
    return sym("const ubx_packets::UbxPacketMeta::%s<T>" % nm, 0, 255)

def c31(r, tier):
    r.rule = ("the matching functions are summarised over a symbolic acknowledgement and a generic packet type and must be equivalent to (class byte = T::CLASS and id byte = T::ID); the request's bytes must be the empty frame "
              "naming T (checksum by contract), and rate settings encoded to bytes must carry T's class and id and the given rates")
    p = prog("std_alloc"); vt = view_types(p); n = 0
    C, D = of_type_param(CLASS), of_type_param(ID)
    for view, m in (("AckAckRef", "is_ack_for"), ("AckNakRef", "is_nak_for")):
        f = next((f for k, f in sorted(p.funs.items()) if ("::%s::" % view in k or "::%s::<" % view in k) and f["path"].endswith("::" + m)), None)
        oid = "%s.%s" % (view, m)
        if f is None: r.bad(oid, "", "documented function no longer exists"); continue
        r.fn(f["path"]); sp = f["span"]; n += 1
        try:
            I = Interp(p); st = State(); payload_view(I, st, vt[view])
            st.assume(eq(sym("len(P)", 0, (1 << 63) - 1), Lin(2)))
            _, outs = run_accessor(p, f, vt[view], st=st, I=I)
            b0, b1 = (of_atom(atom("el", ("P", Lin(i)), 0, 255)) for i in (0, 1))
            want = b_and(eq(b0, C), eq(b1, D)); bad = None
            for s, v in outs:
                if s.facts.contradictory(): continue
                for val in (True, False):
                    t = s.fork()
                    if not t.assume(v if val else neg(v)) or t.facts.contradictory(): continue
                    if val and not t.facts.entails(want): bad = "matches without class = T::CLASS and id = T::ID (when %s)" % " & ".join(show(b) for b in t.facts.bs)
                    if not val:
                        u = t.fork()
                        if u.assume(want) and not u.facts.contradictory(): bad = "rejects its own acknowledgement (when %s)" % " & ".join(show(b) for b in t.facts.bs)
            if I.panics and any(not q.st.facts.contradictory() for q in I.panics): bad = "may panic: %r" % I.panics[0]
            r.check(bad is None, oid, sp, bad)
        except Unsupported as e: r.undecided(oid, sp, "%s %s" % (e, getattr(e, "at", "")))
    # poll requests
    fr = {f["path"].rsplit("::", 1)[-1]: f for k, f in p.funs.items() if f["path"].startswith("ubx_packets::UbxPacketRequest::")}
    for m in ("request_for", "request_for_unknown"):
        oid = "UbxPacketRequest." + m
        if m not in fr or "into_packet_bytes" not in fr: r.bad(oid, "", "documented function no longer exists"); continue
        f = fr[m]; r.fn(f["path"]); sp = f["span"]; n += 1
        try:
            I = Interp(p); st = State(); checksum_contracts(I, p)
            a = [I.sym_value(st, f["locals"][i + 1][0], "arg%d" % i) for i in range(f["argc"])]
            k0 = [C, D] if m == "request_for" else a
            cnt = 0
            for s, v in I.run(f["key"], a, st):
                for s2, b in I.run(fr["into_packet_bytes"]["key"], [v], s):
                    if s2.facts.contradictory(): continue
                    cnt += 1; got = lit_bytes(I, s2, b)
                    ca, cb = ck_pair(Seq((("lit", (k0[0], k0[1], ZERO, ZERO)),)))
                    want = [Lin(0xb5), Lin(0x62), k0[0], k0[1], ZERO, ZERO, ca, cb]
                    r.check(got == want, oid + " bytes", sp, "are %s ; documented %s" % (list(map(show, got)), list(map(show, want))))
            pan = [q for q in I.panics if not q.st.facts.contradictory()]
            r.check(cnt > 0 and not pan, oid + " returns", sp, repr(pan[:1]))
        except Unsupported as e: r.undecided(oid, sp, "%s %s" % (e, getattr(e, "at", "")))
    # rate settings
    B = builders(p)
    for bn, cnt in (("CfgMsgSinglePortBuilder", 1), ("CfgMsgAllPortsBuilder", 6)):
        oid = bn + ".set_rate_for"
        f = next((f for k, f in p.funs.items() if f["path"].endswith("%s::set_rate_for" % bn)), None)
        if f is None or bn not in B or "into_packet_bytes" not in B[bn][0][1]: r.bad(oid, "", "documented function no longer exists"); continue
        g = B[bn][0][1]["into_packet_bytes"][0]; r.fn(f["path"], g["path"]); sp = f["span"]; n += 1
        try:
            I = Interp(p); checksum_contracts(I, p); st = State()
            a = I.sym_value(st, f["locals"][1][0], "rate"); done = 0
            rates = [a] if cnt == 1 else lit_bytes(I, st, a)
            for s, v in I.run(f["key"], [a], st):
                for s2, b in I.run(g["key"], [v], s):
                    if s2.facts.contradictory(): continue
                    done += 1; got = lit_bytes(I, s2, b); want = [C, D] + rates
                    r.check(got[6:-2] == want, oid + " payload", sp, "is %s ; documented %s" % (list(map(show, got[6:-2])), list(map(show, want))))
            pan = [q for q in I.panics if not q.st.facts.contradictory()]
            r.check(done > 0 and not pan, oid + " returns", sp, repr(pan[:1]))
        except Unsupported as e: r.undecided(oid, sp, "%s %s" % (e, getattr(e, "at", "")))
    r.count("functions_naming_a_message", n); r.need("functions naming a message", n, 6)
