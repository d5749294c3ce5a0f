"""Byte formats: messages, token bodies, metadata, addresses, digests; validator announcements."""
from .registry import check
from .lib import *
from engine import terms as tm

IF = "hpl_interface"
HEX = "cosmwasm_std::hex_binary::HexBinary"


def enc_path(mod, ty):
    return "%s::<impl core::convert::From<%s::%s> for %s>::from" % (mod, mod, ty, HEX)


def dec_path(mod, ty):
    return "<%s::%s as core::convert::From<%s>>::from" % (mod, ty, HEX)


def layout(cx, mod, ty, parts, name=None):
    """parts: (field, kind, width) in order; kind is n (big-endian number), b (bytes of a fixed width, or the rest when width is None)"""
    name = name or ty
    enc = cx.fn(IF, enc_path(mod, ty), boundary=[])
    dec = cx.fn(IF, dec_path(mod, ty), boundary=[])
    if enc is None or dec is None or enc.ok is None or dec.ok is None:
        for e in (enc, dec):
            if e is not None and e.ok is None:
                cx.fail("format", e.path, "never returns", cx.where(e))
        return
    ev, dv = param(enc), param(dec)
    names = tm.VARIANTS["%s::%s" % (mod, ty)][0][1]
    cx.ob("format", "%s has exactly the fields %s" % (name, [p[0] for p in parts]), sorted(names) == sorted(p[0] for p in parts), "has %s" % names, cx.where(enc))
    fld = {n: FIELD(ev, "%s::%s" % (mod, ty), 0, i) for i, n in enumerate(names)}
    # a general well-formed value: fixed-width byte fields are arbitrary strings of that width
    gen, val = {}, {}
    for n, kind, w in parts:
        if n not in fld:
            return
        if kind == "b" and w:
            val[n] = tm.UBE(w, mk("p", "any_" + n))
            gen[fld[n]] = val[n]
        else:
            val[n] = fld[n]
    want = tm.CAT([tm.UBE(w, fld[n]) if kind == "n" else fld[n] for n, kind, w in parts])
    want = tm.subst(want, gen)
    got = tm.subst(resolve_deep(enc.facts, enc.ok), gen)
    ok = same({}, got, want)
    cx.ob("encode", "%s encodes as %s" % (name, " | ".join("%s:%s" % (n, w or "rest") for n, _, w in parts)), ok, "" if ok else "is %s\n      expected %s" % (tm.show(got), tm.show(want)), cx.where(enc))
    bad = [tm.show(t) for t, p in enc.facts.items() if isinstance(t, T) and p in (True, False) and not holds({}, tm.subst(t if p else NOT(t), gen))]
    cx.ob("encode", "%s encoding never fails" % name, not bad, "requires " + "; ".join(bad), cx.where(enc))
    pos = 0
    spec.ROOTS = dec.roots
    for n, kind, w in parts:
        piece = tm.SLICE(dv, I(pos), I(pos + w) if w else None)
        wv = tm.BE(piece) if kind == "n" else piece
        g = spec.field(resolve_deep(dec.facts, dec.ok), None, n)
        ok = same(dec.facts, g, wv) or kind == "n" and w == 1 and same(dec.facts, g, tm.IDX(dv, I(pos)))
        cx.ob("decode", "%s.%s is read from bytes %d..%s" % (name, n, pos, pos + w if w else ""), ok, "" if ok else "is %s\n      expected %s" % (tm.show(g), tm.show(wv)), cx.where(dec))
        pos += w or 0
    s = State()
    s.facts = {}
    assume(s, tm.LE(I(pos), tm.LEN(dv)), True)
    bad = [("" if p else "not ") + tm.show(t) for t, p in dec.facts.items() if isinstance(t, T) and p in (True, False) and not holds(s.facts, t if p else NOT(t))]
    cx.ob("decode", "%s decoding accepts every input of at least %d bytes" % (name, pos), not bad, "requires " + "; ".join(bad), cx.where(dec))
    # both directions composed
    back = tm.subst(resolve_deep(dec.facts, dec.ok), {dv: got})
    for n, kind, w in parts:
        g = FIELD(back, "%s::%s" % (mod, ty), 0, names.index(n))
        ok = same({}, g, val[n])
        cx.ob("round-trip", "%s.%s survives encoding and decoding" % (name, n), ok, "" if ok else "becomes %s" % tm.show(g), cx.where(dec))


def param(e):
    """the term of the first argument"""
    return next(iter(e.roots))


TY = "hpl_interface::types"


@check("P17", 9, "The conversion functions between a message and its bytes are analysed as terms: each field must be written to and read "
       "from exactly the protocol's byte range, in big-endian order; the two composed must be the identity; the id must be the "
       "keccak-256 hash of the encoding.")
def p17(cx):
    layout(cx, TY + "::message", "Message", [("version", "n", 1), ("nonce", "n", 4), ("origin_domain", "n", 4), ("sender", "b", 32), ("dest_domain", "n", 4), ("recipient", "b", 32), ("body", "b", None)])
    e = cx.fn(IF, TY + "::message::Message::id", boundary=[])
    enc = cx.fn(IF, enc_path(TY + "::message", "Message"), boundary=[])
    if e and enc and e.ok is not None and enc.ok is not None:
        body = tm.subst(enc.ok, {param(enc): param(e)})
        ok = same({}, e.ok, mk("call", "keccak", (body,)))
        cx.ob("id", "the message id is the keccak-256 hash of the encoded message", ok, "" if ok else tm.show(e.ok), cx.where(e))
    for n in ("sender", "recipient"):
        e = cx.fn(IF, TY + "::message::Message::%s_addr" % n)
        if e and e.ok is not None:
            spec.ROOTS = e.roots
            cx.value(e, "address of the %s" % n, e.ok, "bech32_encode(hrp, self.%s)@Ok.0" % n)


@check("P18", 6, "The conversion functions between a token transfer body and its bytes are analysed as terms: recipient, amount and metadata must "
       "be written to and read from exactly bytes 0..32, 32..64 (big-endian) and 64.., the two composed must be the identity, and "
       "every body a route sends must have a 32-byte recipient.")
def p18(cx):
    layout(cx, "hpl_interface::warp", "Message", [("recipient", "b", 32), ("amount", "n", 32), ("metadata", "b", None)], "token body")
    for c in ("hpl_warp_cw20", "hpl_warp_native"):
        cx.guard(cx.entry(c, "execute", "TransferRemote"), "len(msg@TransferRemote.recipient) == 32", rule="recipient-width")


@check("P19", 16, "The conversion functions of each metadata format are analysed as terms: every field must be written to and read from exactly "
       "its byte range; composed they must be the identity; multisig signatures are consecutive 65-byte groups; the aggregate decoder "
       "must give module i exactly the bytes its i-th offset pair names; the gas payment refund address must fall back to the default "
       "exactly when it is neither 20 nor 32 bytes long.")
def p19(cx):
    M = TY + "::metadata"
    layout(cx, M, "IGPMetadata", [("gas_limit", "n", 32), ("refund_address", "b", None)])
    layout(cx, M, "MerkleRootMultisigIsmMetadata", [("origin_mailbox", "b", 32), ("checkpoint_index", "n", 4), ("message_id", "b", 32), ("proof", "b", 1024), ("signatures", "b", None)])
    # message-id multisig
    e = cx.fn(IF, dec_path(M, "MessageIdMultisigIsmMetadata"), boundary=[])
    if e and e.ok is not None:
        v = param(e)
        spec.ROOTS = e.roots
        for n, lo, hi in (("origin_merkle_tree", 0, 32), ("merkle_root", 32, 64), ("merkle_index", 64, 68)):
            g = spec.field(e.ok, None, n)
            ok = same(e.facts, g, tm.SLICE(v, I(lo), I(hi)))
            cx.ob("decode", "message-id metadata %s is read from bytes %d..%d" % (n, lo, hi), ok, "" if ok else tm.show(g), cx.where(e))
        g = spec.field(e.ok, None, "signatures")
        k = mk("p", "k")
        lo = tm.ADD(tm.MUL(k, I(65)), I(68))
        ok = same(e.facts, tm.LEN(g), tm.DIV(tm.SUB(tm.LEN(v), I(68)), I(65)))
        cx.ob("decode", "message-id metadata has one signature per complete group of 65 bytes after byte 68", ok, "" if ok else tm.show(tm.LEN(g)), cx.where(e))
        x = tm.IDX(g, k)
        ok = same(e.facts, x, tm.SLICE(v, lo, tm.ADD(tm.MUL(tm.ADD(k, I(1)), I(65)), I(68)))) or same(e.facts, x, tm.SLICE(v, lo, tm.ADD(lo, I(65))))
        cx.ob("decode", "signature k is bytes 68+65k .. 133+65k", ok, "" if ok else tm.show(x), cx.where(e))
    e = cx.fn(IF, enc_path(M, "MessageIdMultisigIsmMetadata"), boundary=[])
    if e and e.ok is not None:
        v = param(e)
        names = tm.VARIANTS[M + "::MessageIdMultisigIsmMetadata"][0][1]
        f = {n: FIELD(v, M + "::MessageIdMultisigIsmMetadata", 0, i) for i, n in enumerate(names)}
        w = {f[n]: tm.UBE(k, mk("p", "any_" + n)) for n, k in (("origin_merkle_tree", 32), ("merkle_root", 32), ("merkle_index", 4))}
        got = tm.subst(e.ok, w)
        lv = mk("lv", -1)
        h, (x,) = tm.close(lv, tm.IDX(f["signatures"], lv))
        want = tm.CAT([w[f["origin_merkle_tree"]], w[f["merkle_root"]], w[f["merkle_index"]], mk("flatmap", tm.LEN(f["signatures"]), h, x)])
        ok = same({}, got, want)
        short = tm.subst(e.ok, {**w, f["origin_merkle_tree"]: tm.UBE(20, mk("p", "any_tree"))})
        ok2 = short.op == "cat" and same({}, short, tm.subst(want, {w[f["origin_merkle_tree"]]: tm.CAT([tm.BYTES(bytes(12)), tm.UBE(20, mk("p", "any_tree"))])}))
        cx.ob("encode", "a 20-byte merkle tree address is left-padded with zeros", ok2, "" if ok2 else "is %s" % tm.show(short), cx.where(e))
        cx.ob("encode", "message-id metadata encodes as root 32 | tree 32 | index 4 | signatures", ok, "" if ok else "is %s\n      expected %s" % (tm.show(got), tm.show(want)), cx.where(e))
    e = cx.fn(IF, M + "::MessageIdMultisigIsmMetadata::merkle_index", boundary=[])
    if e and e.ok is not None:
        spec.ROOTS = e.roots
        cx.value(e, "checkpoint index", e.ok, "be(self.merkle_index)")
    # aggregate
    e = cx.fn(IF, M + "::AggregateMetadata::from_hex", boundary=[])
    if e and e.ok is not None:
        ps = list(e.roots)
        v, addrs = ps[0], ps[1]
        col = e.ok.a[2][0] if e.ok.op == "adt" else e.ok
        src = col.a[0] if col.op == "btcollect" else col.a[1][0] if col.op == "call" and col.a[0].endswith("btcollect") else None
        ok = src is not None and same(e.facts, tm.LEN(src), tm.LEN(addrs))
        if cx.ob("decode", "aggregate metadata has one entry per module", ok, "" if ok else tm.show(e.ok), cx.where(e)):
            k = mk("p", "k")
            x = tm.IDX(src, k)
            o = lambda d: tm.ADD(tm.MUL(k, I(8)), I(d))
            want = tm.SLICE(v, tm.BE(tm.SLICE(v, o(0), o(4))), tm.BE(tm.SLICE(v, o(4), o(8))))
            ok = x.op == "tup" and same(e.facts, x.a[0][0], tm.IDX(addrs, k)) and same(e.facts, x.a[0][1], want)
            cx.ob("decode", "module k gets the bytes between the offsets at 8k and 8k+4", ok, "" if ok else tm.show(x), cx.where(e))
    # merkle root signatures
    e = cx.fn(IF, M + "::MerkleRootMultisigIsmMetadata::signature_at", boundary=[])
    if e and e.ok is not None:
        spec.ROOTS = e.roots
        cx.value(e, "signature", e.ok, "self.signatures[index * 65..(index + 1) * 65]")
    e = cx.fn(IF, M + "::MerkleRootMultisigIsmMetadata::signatures_len", boundary=[])
    if e and e.ok is not None:
        spec.ROOTS = e.roots
        s = e.facts
        g = e.ok
        cx.value(e, "signature count", g, "len(self.signatures) / 65")
        w = tm.EQ(tm.ARITH("rem", tm.LEN(cx.t("self.signatures")), I(65)), I(0))
        ok = holds(e.facts, w)
        cx.ob("decode", "a partial signature is refused", ok, "" if ok else "signatures of a length not divisible by 65 are counted", cx.where(e))
    # refund address
    e = cx.fn(IF, M + "::IGPMetadata::get_refund_address")
    if e and e.ok is not None:
        spec.ROOTS = e.roots
        R = "self.refund_address"
        cx.value(e, "refund address", e.ok, "if(len(%s) == 20 || len(%s) == 32, bech32_encode(hrp, %s)@Ok.0, default)" % (R, R, R))


@check("P37", 5, "The address conversions are analysed as terms: encoding must succeed only for 20 or 32 bytes, strip exactly the zero padding of a padded "
       "20-byte address, and otherwise encode all the bytes under the given prefix; the 32-byte form must be the decoded bytes, left-padded with zeros; "
       "composed they must give the same bytes back for both address widths.")
def p37(cx):
    B = TY + "::bech32::"
    enc = cx.fn(IF, B + "bech32_encode", boundary=[])
    if enc is None or enc.ok is None:
        cx.fail("encode", "bech32_encode", "not found or never succeeds", IF)
        return
    hrp, raw = list(enc.roots)[:2]
    cx.guard(enc, tm.OR(tm.EQ(tm.LEN(raw), I(20)), tm.EQ(tm.LEN(raw), I(32))), rule="width")
    x, y = mk("p", "any_low"), mk("p", "any_high")
    low = tm.UBE(20, x)
    hi = tm.EQ(y, I(0))
    zero = tm.BYTES(bytes(12))
    for what, val, facts, body in (("a 20-byte address", low, [], low), ("a padded 20-byte address", tm.CAT([zero, low]), [], low),
                                   ("a 32-byte address", tm.CAT([tm.UBE(12, y), low]), [NOT(hi)], tm.CAT([tm.UBE(12, y), low]))):
        s = State()
        s.facts = {}
        for t in facts:
            assume(s, t, True)
        m = {raw: val}
        got = resolve_deep(s.facts, tm.subst(enc.ok, m))
        call = _bech(got)
        ok = call is not None and call[0] is hrp and call[1] is body and call[2] == "Bech32"
        cx.ob("encode", "%s is encoded from exactly its bytes under the given prefix" % what, ok, "" if ok else tm.show(got), cx.where(enc))
        if call is not None:
            q = IS(call[3], RESULT, 0)
            assume(s, q, True)
            bad = [("" if p else "not ") + tm.show(t) for t, p in enc.facts.items() if isinstance(t, T) and p in (True, False)
                   and not holds(s.facts, tm.subst(t if p else NOT(t), m))]
            cx.ob("encode", "%s is always encoded" % what, not bad, "requires " + "; ".join(bad), cx.where(enc))
    d = cx.fn(IF, B + "bech32_decode", boundary=[])
    h = cx.fn(IF, B + "bech32_to_h256", boundary=[])
    for e in (d, h):
        if e is None or e.ok is None:
            cx.fail("decode", "address decoding", "not found or never succeeds", IF)
            return
    dv = d.ok
    ok = dv.op == "f" and dv.a[0].op == "call" and dv.a[0].a[0].split("::")[-1] == "from_base32" and tm.show(dv) == "from_base32(decode(%s)@Ok.0.1)@Ok.0" % tm.show(param(d))
    cx.ob("decode", "decoding gives the bytes of the address's data part", ok, "" if ok else tm.show(dv), cx.where(d))
    raw2 = tm.subst(dv, {param(d): param(h)})
    want = tm.CAT([tm.REP(I(0), tm.SUB(I(32), tm.LEN(raw2))), raw2])
    ok = same(h.facts, h.ok, want)
    cx.ob("pad", "the 32-byte form is the decoded address, left-padded with zeros", ok, "" if ok else tm.show(h.ok), cx.where(h))
    for n, v in ((20, low), (32, tm.CAT([tm.UBE(12, y), low]))):
        got = tm.subst(h.ok, {raw2: v})
        w = tm.CAT([tm.BYTES(bytes(32 - n)), v])
        cx.ob("pad", "a %d-byte address becomes %s" % (n, "its bytes" if n == 32 else "12 zero bytes and its bytes"), got is w, tm.show(got), cx.where(h))


def _bech(t):
    """(prefix, bytes, variant, call) of the encoding a term names"""
    if t.op == "f" and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] == "encode" and len(t.a[0].a[1]) == 3:
        c = t.a[0]
        p, b, v = c.a[1]
        if b.op == "call" and b.a[0].split("::")[-1] == "to_base32" and v.op == "adt":
            return p, b.a[1][0], tm.vname(v.a[0], v.a[1]), c
    return None


def low_bytes(x):
    """the low bytes of a wider number are the number itself (offsets fit four bytes)"""
    if x.op == "slice" and x.a[0].op == "ube" and tm.is_int(x.a[1]) and x.a[2] in (None, I(x.a[0].a[0])):
        return tm.UBE(x.a[0].a[0] - x.a[1].a[0], x.a[0].a[1])
    if x.op == "trunc" and x.a[0] >= 32:
        return x.a[1]
    return None


def cut(x):
    """a slice of a concatenation that begins and ends between its pieces"""
    if x.op == "slice" and x.a[0].op == "cat":
        ps = list(x.a[0].a[0])
        ends = [I(0)]
        for p in ps:
            ends.append(tm.ADD(ends[-1], tm.LEN(p)))
        b = ends[-1] if x.a[2] is None else x.a[2]
        if x.a[1] in ends and b in ends and ends.index(x.a[1]) <= ends.index(b):
            return tm.CAT(ps[ends.index(x.a[1]):ends.index(b)])
    return None


@check("P47", 14, "The encoder of aggregation metadata is analysed as a term over the map of module metadata, its summaries are written out for one to five modules with "
       "arbitrary contents of arbitrary lengths, and the decoder's term is composed with it: module k must get back exactly its own bytes; the encoding must start with the offset "
       "table and contain nothing else.")
def p47(cx):
    M = TY + "::metadata"
    e = cx.fn(IF, enc_path(M, "AggregateMetadata"), boundary=[])
    d = cx.fn(IF, M + "::AggregateMetadata::from_hex", boundary=[])
    if e is None or d is None:
        return
    if e.ok is None or d.ok is None:
        cx.fail("round-trip", "aggregation metadata", "cannot be encoded or decoded", cx.where(e))
        return
    inner = FIELD(param(e), M + "::AggregateMetadata", 0, 0)
    vb, addrs = list(d.roots)[:2]
    col = d.ok.a[2][0] if d.ok.op == "adt" else d.ok
    src = col.a[0] if col.op == "btcollect" else None
    if not cx.ob("round-trip", "the decoder answers one entry per module", src is not None and same(d.facts, tm.LEN(src), tm.LEN(addrs)), tm.show(d.ok), cx.where(d)):
        return
    w = cx.fn(IF, M + "::AggregateMetadata::new", boundary=[])
    if w and w.ok is not None:
        given = list(w.roots)[0]
        got = w.ok.a[2][0] if w.ok.op == "adt" else w.ok
        ok = got.op == "btcollect" and same(w.facts, got.a[0], given)
        cx.ob("round-trip", "every given pair of module and metadata is kept", ok, "" if ok else tm.show(got), cx.where(w))
    for n in range(1, 6):
        ms = [mk("p", "metadata_%d" % i) for i in range(n)]
        ads = [mk("p", "module_%d" % i) for i in range(n)]
        m = {mk("call", "bt" + k, (inner,)): tm.SEQ(v) for k, v in (("values", ms), ("keys", ads), ("iter", [mk("tup", p) for p in zip(ads, ms)]))}
        m[mk("len", inner)] = I(n)
        m[inner] = mk("btcollect", tm.SEQ([mk("tup", p) for p in zip(ads, ms)]))
        enc = tm.replace_deep(unroll(e.ok, m), low_bytes)
        whole = tm.ADD(I(8 * n), *[tm.LEN(x) for x in ms])
        ok = same({}, tm.LEN(enc), whole)
        cx.ob("compact", "%d modules are encoded as %d bytes of offsets and their metadata, nothing else" % (n, 8 * n), ok, "" if ok else "is " + tm.show(enc, 0, 12), cx.where(e))
        for k in range(n):
            x = tm.replace_deep(tm.subst(tm.IDX(src, I(k)), {vb: enc, addrs: tm.SEQ(ads)}), cut)
            ok = x.op == "tup" and x.a[0][0] is ads[k] and same({}, x.a[0][1], ms[k])
            cx.ob("round-trip", "module %d of %d reads back exactly its own metadata" % (k, n), ok, "" if ok else "reads " + tm.show(x, 0, 12), cx.where(e))
