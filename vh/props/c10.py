from hypothesis import strategies as st

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.exceptions import BadPeer, NoSuchServerException, SaltChannelException
from vh import chan, gen, pk, ref
from vh.core import Sub, check, exc_text, expand, fail, short
from vh.props import c09

RULE = ("At every stage where a peer's bytes are read (M1, M2, M3, M4, A2, application and encrypted reads; sealed correctly or not) "
        "the session gets generated bytes: legal packets of any type, edited ones, noise, low-order and non-canonical keys, valid and "
        "invalid signatures. Oracle: only exceptions of the SaltChannelException family, BadPeer whenever the reference says the format "
        "is broken or the key unusable, success exactly when the reference accepts. Non-trivial: the reference refuses the bytes.")
ASSUMPTIONS = ["reserved bits and trailing bytes: acceptance and BadPeer both allowed"]

STAGES = ["m1", "m2", "m3_raw", "m3", "m4_raw", "m4", "app_c", "app_s", "raw_c", "raw_s", "a2", "enc_c", "enc_s"]
LIKELY = dict(m1=["m1", "m1", "a1"], m2=["m2"], m3_raw=["enc"], m3=["m3"], m4_raw=["enc"], m4=["m4"], app_c=["app", "multi"],
              app_s=["app", "multi"], raw_c=["enc"], raw_s=["enc"], a2=["a2"], enc_c=["app", "multi"], enc_s=["m4", "app"])

# public keys whose shared secret is all zero, also with the ignored top bit set
WEAK = ref.LOW_ORDER + [k[:31] + bytes([k[31] | 0x80]) for k in ref.LOW_ORDER]
# small-order and non-canonical Ed25519 points
ODD_SIG = [bytes(32), bytes([1]) + bytes(31), b"\xec" + b"\xff" * 30 + b"\x7f", b"\xff" * 32, b"\xed" + b"\xff" * 30 + b"\x7f",
           bytes.fromhex("26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05")]


def payload(kinds):
    legal = st.sampled_from(kinds).flatmap(LEGAL.get)
    return st.one_of(legal, st.sampled_from(kinds).flatmap(EDITED.get), st.sampled_from(kinds).flatmap(EDITED.get),
                     st.tuples(st.just("noise"), st.binary(max_size=120)).map(lambda s: ["x"] + list(s)),
                     st.tuples(WILD_LEN, st.integers(0, 10**6)).map(lambda x: ["w", "wild", x[0], x[1]]),
                     st.sampled_from(kinds).flatmap(HEADED.get), st.sampled_from(pk.KINDS).flatmap(LEGAL.get))


LEGAL = {k: st.tuples(st.just(k), st.just("edit"), c09.small_fields(k), st.just([])).map(list) for k in pk.KINDS}
EDITED = {k: st.tuples(st.just(k), st.just("edit"), c09.small_fields(k), st.lists(c09.edit(), min_size=1, max_size=2)).map(list)
          for k in pk.KINDS}
HEADED = {k: st.tuples(st.just(k), st.just("head"), st.binary(max_size=120)).map(list) for k in pk.KINDS}


# no structure, but lengths that packets have
WILD_LEN = st.one_of(st.sampled_from([6, 18, 37, 38, 39, 41, 42, 43, 74, 101, 102, 103, 118, 120]), st.integers(0, 200))


def mk(p):
    if p[0] == "w":
        return expand(p[2], p[3])
    if p[0] == "z":                            # a beginning and many bytes more
        return p[2] + bytes([p[4]]) * p[3]
    if p[0] == "q":                            # a multi packet of many messages, p[4] bytes too long or short
        b = ref.multi([b"q" * p[3]] * p[2], 7)
        return b[:p[4]] if p[4] < 0 else b + bytes(p[4])
    return p[2] if p[0] == "x" else c09.make(p[0], p[1:])


def case():
    def for_stage(s):
        return st.fixed_dictionaries(dict(
            stage=st.just(s), k=st.integers(0, 30), load=st.lists(payload(LIKELY[s]), min_size=1, max_size=3),
            weak=st.integers(0, 40), odd=st.integers(0, 24), time=st.integers(0, 5), sync=st.booleans()))
    by = {s: for_stage(s) for s in STAGES}
    return st.sampled_from(STAGES).flatmap(by.get)


def attempt(session, name, sync):
    """(result, None) or (None, exception of the family)"""
    try:
        if sync:
            return getattr(session, name + "_sync")(), None
        return chan.run(getattr(session, name)()), None
    except SaltChannelException as e:
        return None, e
    except Exception as e:
        fail("{} escaped from {}", exc_text(e), name)


def expect(e, want, raw, what):
    """want: 'ok', 'bad', 'nosuch', 'free' or 'more' (goes on to wait for the next message)"""
    if want == "free":
        return
    if want == "ok":
        check(e is None, "{}: refused with {}: {}", what, exc_text(e) if e else "", short(raw))
    elif want == "bad":
        check(e is not None, "{}: accepted {}", what, short(raw))
        check(isinstance(e, BadPeer), "{}: {} instead of BadPeer: {}", what, exc_text(e), short(raw))
    elif want == "nosuch":
        check(isinstance(e, NoSuchServerException), "{}: {} instead of NoSuchServerException: {}", what,
              exc_text(e) if e else "success", short(raw))
    elif want == "more":
        check(isinstance(e, chan.Starved), "{}: {} instead of going on: {}", what, exc_text(e) if e else "success", short(raw))


def weaken(raw, at, case, times=True):
    """Puts a weak or odd public key / a plain time into a packet that has the field."""
    if times and case["time"] < 3 and len(raw) >= at:      # mostly legal first times
        raw = raw[:at - 4] + case["time"].to_bytes(4, "little") + raw[at:]
    if case["weak"] < len(WEAK) and len(raw) >= at + 32:
        raw = raw[:at] + WEAK[case["weak"]] + raw[at + 32:]
    return raw


def agree(sec, pub):
    try:
        ref.shared(sec, pub)
        return True
    except Exception:
        return False


def run_stage(case):
    stage, sync = case["stage"], case["sync"]
    kk = case["k"]
    ck, sk = gen.keys([kk, kk + 1000]), gen.keys([kk + 2000, kk + 3000])
    raw = mk(case["load"][0])
    if stage == "m1":
        raw = weaken(raw, 10, case)
        ch = chan.PeerChannel(inbox=[raw])
        s = gen.server(sk, ch)
        v, f = ref.d_m1(raw)
        va, _ = ref.d_a1(raw)
        if v == "bad":
            want = {"ok": "ok", "free": "free", "bad": "bad"}[va]
        elif v == "free":
            want = "free"
        elif f["time"] > 1:
            want = "bad"
        elif f["included"] and f["wanted"] != sk.sig_pub:
            want = "nosuch"
        else:
            want = "more" if agree(sk.enc_sec, f["enc"]) else "bad"
        _, e = attempt(s, "handshake", sync)
        expect(e, want, raw, "server reading M1 or A1")
        if want == "bad" and v == "bad":
            check(not ch.sent, "server answered {} to a malformed first message", short(ch.sent and ch.sent[0]))
        return want
    if stage == "m2":
        raw = weaken(raw, 6, case)
        ch = chan.PeerChannel(lambda m, l: [raw])
        s = gen.client(ck, ch)
        v, f = ref.d_m2(raw)
        want = v
        if v == "ok":
            if f["time"] > 1:
                want = "bad"
            elif f["nosuch"]:
                want = "nosuch"
            elif f["last"]:
                want = "free"
            else:
                want = "more" if agree(ck.enc_sec, f["enc"]) else "bad"
        _, e = attempt(s, "handshake", sync)
        expect(e, want, raw, "client reading M2")
        return want
    if stage in ("m3_raw", "m3"):
        peer = ref.Server(sk)

        def answer(msgs, last):
            if peer.state != "m1":
                return []
            out = peer.feed(msgs[0])
            if stage == "m3_raw":
                return [out[0], raw]
            clear = signed(raw, 3, peer, case, sk, ck)
            answer.clear = clear
            return [out[0], ref.encp(ref.seal(peer.key, 2, clear))]
        answer.clear = None
        ch = chan.PeerChannel(answer)
        s = gen.client(ck, ch)
        _, e = attempt(s, "handshake", sync)
        if stage == "m3_raw":
            v, f = ref.d_enc(raw)
            clear = ref.unseal(peer.key, 2, f["body"]) if v != "bad" else None
            want = "bad" if clear is None else "free"
        else:
            clear = answer.clear
            v, f = ref.d_m3(clear)
            want = v if v == "bad" else ("bad" if not ref.sig_ok(f["key"], ref.SIG1 + peer.transcript, f["sig"]) else v)
        expect(e, want, clear if clear is not None else raw, "client reading M3")
        if want == "bad":
            check(len(ch.sent) == 1, "client went on to send M4 after a bad M3")
        return want
    if stage in ("m4_raw", "m4"):
        peer = ref.Client(ck)
        ch = chan.PeerChannel(inbox=peer.start())
        box = {}

        def answer(msgs, last):
            out = []
            for m in msgs:
                if peer.state in ("m2", "m3"):
                    out += peer.feed(m)
            if out and stage == "m4":
                box["clear"] = signed(raw, 4, peer, case, ck, sk)
                return [ref.encp(ref.seal(peer.key, 1, box["clear"]))]
            return [raw] if out else []
        ch.on_write = answer
        s = gen.server(sk, ch)
        _, e = attempt(s, "handshake", sync)
        if stage == "m4_raw":
            v, f = ref.d_enc(raw)
            clear = ref.unseal(peer.key, 1, f["body"]) if v != "bad" else None
            want = "bad" if clear is None else "free"
        else:
            clear = box["clear"]
            v, f = ref.d_m4(clear)
            want = v if v == "bad" else ("bad" if not ref.sig_ok(f["key"], ref.SIG2 + peer.transcript, f["sig"]) else v)
        expect(e, want, clear if clear is not None else raw, "server reading M4")
        return want
    if stage == "a2":
        ch = chan.PeerChannel(lambda m, l: [raw])
        s = A1ClientSession(ch)
        v, f = ref.d_a2(raw)
        _, e = attempt(s, "do_a1a2", sync)
        expect(e, v, raw, "A1 client reading A2")
        if v == "bad":
            check(s.a2 is None, "A1 client keeps a malformed A2")
        return v
    # reads of an established session
    role = "client" if stage.endswith("c") else "server"
    s, ch, link, peer = gen.established(role, kk)
    target = s.enc_channel if stage.startswith("enc") else s.app_channel
    for i in range(case.get("before", 0)):     # good messages first
        ch.inbox.append(link.send(ref.app(b"%d" % i)))
        r, e = attempt(s.app_channel, "read", sync)
        expect(e, "ok", b"", "application read")
        check(bytes(r) == b"%d" % i, "application read gave {} instead of {}", short(r), i)
    loads = [mk(p) for p in case["load"]]
    ch.inbox.extend([link.send(b) if not stage.startswith("raw") else b for b in loads])
    wants = []
    for b in loads:
        if stage.startswith("enc"):
            r, e = attempt(target, "read", sync)
            expect(e, "ok", b, "encrypted read")
            check(bytes(r) == b, "encrypted read gave {} instead of {}", short(r), short(b))
            wants.append("ok")
            continue
        if stage.startswith("raw"):
            r, e = attempt(target, "read", sync)
            expect(e, "bad", b, "read of a packet that was not sealed")
            wants.append("bad")
            continue
        v, t, msgs = ref.d_appmsg(b)
        wants.append(v)
        r, e = attempt(target, "read", sync)
        expect(e, v, b, "application read")
        if e is None:
            check(bytes(r) == msgs[0], "application read gave {} from {}", short(r), short(b))
            for m in msgs[1:]:
                r, e = attempt(target, "read", sync)
                expect(e, "ok", b, "application read")
                check(bytes(r) == m, "application read gave {} instead of {}", short(r), short(m))
    return "bad" if "bad" in wants else wants[0]


def signed(raw, kind, peer, case, k, receiver):
    """Makes some of the M3/M4 carry a correct signature, odd keys, or keys the receiver knows."""
    if len(raw) == 102 and raw[0] == kind:
        o = case["odd"]
        prefix = ref.SIG1 if kind == 3 else ref.SIG2
        if o < 6:
            return raw[:6] + ODD_SIG[o] + raw[38:]
        if o < 12:
            return raw[:6] + ODD_SIG[o - 6] + bytes(64)
        if o < 16:
            return raw[:6] + k.sig_pub + ref.sign(k.sig_sec, prefix + peer.transcript)
        if o > 20:
            known = [receiver.sig_pub, receiver.enc_pub, k.enc_pub, k.sig_pub][o - 21]
            return raw[:6] + known + (ref.sign(k.sig_sec, prefix + peer.transcript) if case["time"] % 2 else raw[38:])
    return raw


def body(case, rec):
    want = run_stage(case)
    rec.label(case["stage"], case["stage"] + " -> " + want)
    rec.nontrivial(want in ("bad", "nosuch"))


def weak_cases(tier):
    out = []
    for i in range(len(WEAK)):
        for sync in (False, True):
            out.append(dict(stage="m1", k=i, load=[["m1", "edit", dict(time=0, enc=1, wanted=None), []]], weak=i, odd=20, time=0, sync=sync))
            out.append(dict(stage="m2", k=i, load=[["m2", "edit", dict(time=0, enc=1, nosuch=False, last=False), []]], weak=i, odd=20,
                            time=0, sync=sync))
    for o in range(25):
        for stage in ("m3", "m4"):
            out.append(dict(stage=stage, k=o, load=[[stage, "edit", dict(time=5, key=1, sig=[2, 3]), []]], weak=40, odd=o, time=o & 1, sync=False))
    for stage in STAGES:                       # empty and one-byte input everywhere
        for b in [b""] + [bytes([i]) for i in range(256)] + [bytes([i, j]) for i in range(12) for j in (0, 1, 0x80, 0xff)]:
            out.append(dict(stage=stage, k=1, load=[["x", "noise", b]], weak=40, odd=20, time=3, sync=False))
    for stage, kinds in LIKELY.items():        # every truncation of a legal packet
        for k in set(kinds):
            for f in c09.SAMPLE[k]:
                w = pk.wire(k, pk.norm(k, f))
                for n in range(len(w) + 1):
                    out.append(dict(stage=stage, k=1, load=[["x", "noise", w[:n]]], weak=40, odd=20, time=n % 4, sync=False))
    return out


def large_cases(tier):
    """Long input at every stage."""
    out = []
    for stage in STAGES:
        loads = [["w", "wild", n, 5] for n in (1000, 32768, 65535, 65536, 70000, 200000)]
        for k in sorted(set(LIKELY[stage] + ["a1", "enc", "multi"])):
            for f in c09.SAMPLE[k]:
                w = pk.wire(k, pk.norm(k, f))
                loads += [["z", "large", w, n, 33] for n in (200, 1000, 65440, 65500, 65536, 70000, 200000)]
        loads += [["q", "many", n, ln, d] for n in (255, 256, 301, 1000, 2001, 4096, 10000, 65535) for ln in (0, 1, 3) for d in (-1, 0, 1, -2)]
        for n, b in enumerate(loads):
            out.append(dict(stage=stage, k=3, load=[b], weak=40, odd=20, time=0, sync=bool(n & 1)))
    return out


def late_cases(tier):
    """Hostile input after many good messages: stubs, truncations and edits of legal packets."""
    out = []
    for stage in ("app_c", "app_s", "raw_c", "raw_s", "enc_c", "enc_s"):
        loads = [b"", b"\x05", bytes(5), bytes(6), b"\x05" + bytes(4), bytes(120), b"\xff" * 40, bytes([99]) + bytes(20), b"\x03" + bytes(101)]
        for k in set(LIKELY[stage]):
            for f in c09.SAMPLE[k]:
                w = pk.wire(k, pk.norm(k, f))
                loads += [w[:n] for n in range(0, min(len(w), 16))] + [w[:-1], w + b"x", bytes([w[0] ^ 0x40]) + w[1:], w[:1] + b"\x40" + w[2:]]
        for before in (60, 140, 300, 600):
            for i in range(0, len(loads), 10):
                out.append(dict(stage=stage, k=2, load=[["x", "noise", b] for b in loads[i:i + 10]], weak=40, odd=20, time=0, sync=bool(i % 20), before=before))
    return out


CHECKS = [
    Sub("weak_keys_and_stubs", None, body, quick=1, cases=weak_cases),
    Sub("large", None, body, quick=1, cases=large_cases, cpu=300),
    Sub("late", None, body, quick=1, cases=late_cases, cpu=300),
    Sub("hostile", case, body, quick=36000, thorough=600000),
]
