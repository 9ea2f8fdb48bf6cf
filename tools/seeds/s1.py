A='saltchannel/v2/app_channel_v2.py'; EC='saltchannel/v2/encrypted_channel_v2.py'; P='saltchannel/v2/packets.py'
C='saltchannel/v2/salt_client_session.py'; S='saltchannel/v2/salt_server_session.py'
SEEDS = [
dict(id='c01-m2hash-stale', prop='C01', edits=[(S,
"""        if not self.buffer_m2:
            await self.clear_channel.write(bytes(self.m2))  # check for copy overhead here
            self.m2_hash = self.saltlib.sha512(bytes(self.m2)) # check for copy overhead here
""",
"""        m2_raw = bytes(self.m2)  # serialize once
        self.m2_hash = self.saltlib.sha512(m2_raw)
        if not self.buffer_m2:
            await self.clear_channel.write(m2_raw)
"""),(S,
"""            self.m2.data.Time = time
            self.m2_hash = self.saltlib.sha512(bytes(self.m2))
""",
"""            self.m2.data.Time = time
""")],
needs="buffer_m2 together with a time keeper whose first time is not the same in two calls",
breaks="the hash of M2 is taken before its time is updated, so the honest client refuses the server's signature",
demo='''
from saltchannel.util.time import TimeKeeper
class K(TimeKeeper):
    def __init__(self): self.n = 0
    def get_first_time(self):
        self.n += 1
        return self.n % 2
    def get_time(self): return 7
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    s.buffer_m2 = True
    s.time_keeper = K()
    t = [asyncio.ensure_future(x.handshake()) for x in (c, s)]
    done, _ = await asyncio.wait(t, timeout=3)
    expect(len(done) == 2 and all(x.exception() is None for x in done), "honest handshake failed")
run(main)
'''),
dict(id='c01-shared-key-cache', prop='C01', edits=[(C,
"""        self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
""",
"""        peer = bytes(self.m2.ServerEncKey)
        if peer not in self.shared_keys:
            self.shared_keys[peer] = self.saltlib.compute_shared_key(self.enc_keypair.sec, peer)
        self.session_key = self.shared_keys[peer]
"""), (C,
"""    def __init__(self, sig_keypair, clear_channel, loop=None):
        self.loop""",
"""    shared_keys = {}  # key agreement is expensive

    def __init__(self, sig_keypair, clear_channel, loop=None):
        self.loop""")],
needs="two sessions of one process with the same peer encryption key but different own encryption keys",
breaks="the second session gets the session key of the first one",
demo='''
async def main():
    L = SaltLib()
    se = L.create_enc_keys()
    for i in range(2):
        ca, cb = pair()
        c, s = sessions(ca, cb, se=se)
        t = [asyncio.ensure_future(x.handshake()) for x in (c, s)]
        done, _ = await asyncio.wait(t, timeout=3)
        expect(len(done) == 2 and all(x.exception() is None for x in done), "honest handshake %d failed" % i)
        expect(c.session_key == s.session_key, "keys differ")
run(main)
'''),
dict(id='c02-maxsize', prop='C02', edits=[(P, "    MAX_SIZE = 65535\n", "    MAX_SIZE = 65536\n")],
needs="a write of several messages of which one is exactly 65536 bytes long",
breaks="the 16-bit length field wraps to 0 and the message is lost",
demo='''
async def main():
    c, s = await ready()
    msgs = [b"a", b"b" * 65536, b"c"]
    await c.app_channel.write(*msgs)
    got = [await s.app_channel.read() for _ in msgs]
    expect(got == msgs, "messages changed")
run(main)
'''),
dict(id='c02-readq-bounded', prop='C02', edits=[(A, "        self.readQ = deque()\n", "        self.readQ = deque(maxlen=1024)\n")],
needs="one write of more than 1025 messages",
breaks="the oldest queued messages are dropped silently by the receiver",
demo='''
async def main():
    c, s = await ready()
    msgs = [b"%d" % i for i in range(1500)]
    await c.app_channel.write(*msgs)
    try:
        got = [await asyncio.wait_for(s.app_channel.read(), 3) for _ in msgs]
    except asyncio.TimeoutError:
        got = None
    expect(got == msgs, "messages lost")
run(main)
'''),
dict(id='c02-count8', prop='C02', edits=[(P,
"""                    ('Count', c_uint16)]
""",
"""                    ('Count', c_uint8),
                    ('_reserved', c_uint8)]
""")],
needs="a write of more than 255 messages in one call",
breaks="the count of a multi packet is cut to 8 bits; the remaining messages are lost",
demo='''
async def main():
    c, s = await ready()
    msgs = [b"%d" % i for i in range(300)]
    await c.app_channel.write(*msgs)
    try:
        got = [await asyncio.wait_for(s.app_channel.read(), 3) for _ in msgs]
    except asyncio.TimeoutError:
        got = None
    expect(got == msgs, "messages lost")
run(main)
'''),
dict(id='c03-last-by-value', prop='C03', edits=[(EC,
"""        for i, msg in enumerate(msgs):
            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
""",
"""        for msg in msgs:
            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and msg == msgs[-1])))
""")],
needs="a write marked last whose messages do not fit a multi packet and whose final message occurs twice",
breaks="an earlier packet of the write carries the last flag too",
demo='''
async def main():
    c, s = await ready()
    await c.app_channel.write(b"x", b"y" * 70000, b"x", is_last=True)
    flags = []
    for _ in range(3):
        await s.app_channel.read()
        flags.append(s.app_channel.last)
    expect(flags[-1] is True and not flags[0], "last flag on an earlier packet: %r" % flags)
run(main)
'''),
dict(id='c03-sticky', prop='C03', edits=[(EC,
"""        self.last_flag = bool(ep.data.Header.LastFlag)
""",
"""        if ep.data.Header.LastFlag:
            self.last_flag = True
""")],
needs="an unmarked write after a marked one",
breaks="the last indicator of the receiver stays set",
demo='''
async def main():
    c, s = await ready()
    await c.app_channel.write(b"x", is_last=True)
    await c.app_channel.write(b"y")
    await s.app_channel.read()
    expect(s.app_channel.last, "last not seen")
    await s.app_channel.read()
    expect(not s.app_channel.last, "last indicator stays")
run(main)
'''),
dict(id='c04-m2-reencoded', prop='C04', edits=[(C,
"        self.m2_hash = self.saltlib.sha512(clear_chunk)\n", "        self.m2_hash = self.saltlib.sha512(bytes(self.m2))\n")],
needs="an attacker who appends bytes to M2",
breaks="the client hashes the re-encoded M2, so it accepts an M2 that was extended on the way",
demo='''
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    n = [0]
    def hook(m):
        n[0] += 1
        return m + b"evil" if n[0] == 1 else m
    cb.hook = hook
    r = await asyncio.wait_for(asyncio.gather(c.handshake(), asyncio.wait_for(s.handshake(), 3), return_exceptions=True), 30)
    expect(r[0] is not None, "client completed on an altered M2")
run(main)
'''),
dict(id='c04-m1-reencoded', prop='C04', edits=[(S,
"        self.m1_hash = self.saltlib.sha512(clear_chunk)\n", "        self.m1_hash = self.saltlib.sha512(bytes(self.m1))\n")],
needs="an attacker who appends bytes to M1",
breaks="the server hashes the re-encoded M1, so the handshake completes on both sides with an M1 that was extended on the way",
demo='''
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    n = [0]
    def hook(m):
        n[0] += 1
        return m + b"evil" if n[0] == 1 else m
    ca.hook = hook
    r = await asyncio.gather(c.handshake(), asyncio.wait_for(s.handshake(), 3), return_exceptions=True)
    expect(r[1] is not None, "server completed on an altered M1")
run(main)
'''),
dict(id='c04-known-client', prop='C04', edits=[(S,
'''        """Validates M4/Signature2."""
        try:
''',
'''        """Validates M4/Signature2."""
        known = type(self).__dict__.get('_known')
        if known is None:
            known = type(self)._known = set()
        if self.m4.ClientSigKey in known:
            return  # verified before
        try:
'''),(S,
'''            raise saltchannel.exceptions.BadPeer("invalid signature")

    def validate(self):
''',
'''            raise saltchannel.exceptions.BadPeer("invalid signature")
        known.add(self.m4.ClientSigKey)

    def validate(self):
''')],
needs="a client key that was authenticated in an earlier session of the process, then a client that claims it without owning it",
breaks="the server skips the signature check for keys it has verified once",
demo='''
from saltchannel.util.key_pair import KeyPair
async def main():
    L = SaltLib()
    ck = L.create_sig_keys()
    await ready(ck=ck)
    ca, cb = pair()
    fake = KeyPair(sec=L.create_sig_keys().sec, pub=ck.pub)
    c, s = sessions(ca, cb, ck=fake)
    r = await shake(c, s)
    expect(r[1] is not None, "server accepted a client without its key")
run(main)
'''),
dict(id='c05-advance-always', prop='C05', edits=[(EC,
"""        clear = self.decrypt(self.unwrap(raw))
        self.read_nonce.advance()
        return clear
""",
"""        try:
            return self.decrypt(self.unwrap(raw))
        finally:
            self.read_nonce.advance()
""")],
needs="a genuine packet replaced by garbage and a receiver that reads on after the error",
breaks="the packet after the replaced one is accepted",
demo='''
async def main():
    c, s = await ready()
    ca = c.clear_channel
    ca.hook = lambda m: m[:5] + bytes([m[5] ^ 1]) + m[6:]
    await c.app_channel.write(b"one")
    ca.hook = None
    await c.app_channel.write(b"two")
    try:
        await s.app_channel.read()
        expect(False, "forged packet accepted")
    except BadPeer:
        pass
    try:
        await s.app_channel.read()
        expect(False, "packet accepted in place of a dropped one")
    except BadPeer:
        pass
run(main)
'''),
dict(id='c05-resync', prop='C05', edits=[(EC,
"""        try:
            return self.saltlib.crypto_box_open_afternm(encrypted, bytes(self.read_nonce), self.key)
        except BadEncryptedDataException:
            raise BadPeer("invalid ciphertext, could not be decrypted")
""",
"""        for skipped in range(4):  # resynchronize after lost packets
            nonce = Nonce(NonceType.READ, self.read_nonce.session_nonce, value=self.read_nonce.value + 2*skipped)
            try:
                clear = self.saltlib.crypto_box_open_afternm(encrypted, bytes(nonce), self.key)
            except BadEncryptedDataException:
                continue
            self.read_nonce = nonce
            return clear
        raise BadPeer("invalid ciphertext, could not be decrypted")
""")],
needs="one to three packets dropped by an attacker",
breaks="the receiver skips nonces and so accepts a stream with missing packets",
demo='''
async def main():
    c, s = await ready()
    ca = c.clear_channel
    ca.hook = lambda m: None
    await c.app_channel.write(b"one")
    ca.hook = None
    await c.app_channel.write(b"two")
    try:
        await s.app_channel.read()
        expect(False, "gap not noticed")
    except BadPeer:
        pass
run(main)
'''),
dict(id='c06-count1', prop='C06', edits=[(P,
"        if self.data.Count < 1:\n", "        if self.data.Count < 2:\n")],
needs="a conforming peer that sends a multi packet with one message, which this library never does itself",
breaks="a legal packet is refused",
demo='''
async def main():
    c, s = await ready()
    raw = b"\\x0b\\0" + bytes(4) + struct.pack("<H", 1) + struct.pack("<H", 3) + b"abc"
    await c.enc_channel.write(raw)
    try:
        got = await s.app_channel.read()
    except BadPeer:
        got = None
    expect(got == b"abc", "legal packet refused")
run(main)
'''),
dict(id='c07-advance-after-write', prop='C07', edits=[(EC,
"""            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
            self.write_nonce.advance()
        await self.channel.write(msg_list[0], *msg_list[1:], is_last=is_last)
""",
"""            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
            self.write_nonce.advance()
        try:
            await self.channel.write(msg_list[0], *msg_list[1:], is_last=is_last)
        except Exception:
            self.write_nonce.value -= 2*len(msgs)  # nothing was sent
            raise
""")],
needs="a failing write of the underlying channel after which the application writes something else",
breaks="the nonce of the failed write is used again with other content",
demo='''
async def main():
    c, s = await ready()
    ca = c.clear_channel
    out = []
    def hook(m):
        out.append(m)
        raise ComException("broken")
    ca.hook = hook
    for m in (b"A" * 40, b"B" * 40):
        try: await c.app_channel.write(m)
        except ComException: pass
    x = bytes(a ^ b for a, b in zip(out[0][2 + 16 + 6:], out[1][2 + 16 + 6:]))
    expect(x != bytes([ord("A") ^ ord("B")]) * len(x), "same nonce twice")
run(main)
'''),
dict(id='c07-m3-advance', prop='C07', edits=[(S,
"""        msg_list.append(self.enc_channel.wrap(self.enc_channel.encrypt(bytes(p)), is_last=False))
        self.enc_channel.write_nonce.advance()

        await self.clear_channel.write(msg_list[0], *(msg_list[1:]))
""",
"""        msg_list.append(self.enc_channel.wrap(self.enc_channel.encrypt(bytes(p)), is_last=False))

        await self.clear_channel.write(msg_list[0], *(msg_list[1:]))
        self.enc_channel.write_nonce.advance()
""")],
needs="the write of M3 fails although the packet went out and the server application writes on the session all the same",
breaks="an application packet is encrypted under the nonce of M3",
demo='''
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    out = []
    def hook(m):
        out.append(m)
        if len(out) == 2: raise ComException("broken")
        return m
    cb.hook = hook
    r = await asyncio.gather(asyncio.wait_for(c.handshake(), 2), s.handshake(), return_exceptions=True)
    expect(isinstance(r[1], ComException), "server noticed the failure")
    await s.app_channel.write(b"B" * 90)
    x = bytes(a ^ b for a, b in zip(out[1][18:], out[2][18:]))
    clear = b"\\x03\\0" + bytes(4) + s.sig_keypair.pub
    app = b"\\x05\\0" + bytes(4) + b"B" * 32
    expect(x[:38] != bytes(a ^ b for a, b in zip(clear, app)), "same nonce twice")
run(main)
'''),
dict(id='c08-m1-stale-opt', prop='C08', edits=[(P,
"""        super().from_bytes(src, validate=False)  # validate at the end of this method instead
        self.validate()
""",
"""        self.data.from_bytes(src)
        if self.data.Header.ServerSigKeyIncluded:
            self.opt = self._opt_factory(body=self.data)
            self.opt.from_bytes(src[self.data.size:])
        self.validate()
""")],
needs="an M1 object that decoded an M1 with server key and then decodes one without",
breaks="the old server key stays in the object and is encoded again",
demo='''
a = packets.M1Packet(); a.data.Header.ServerSigKeyIncluded = 1; a.create_opt_fields(); a.ServerSigKey = bytes(range(32))
a.ClientEncKey = bytes(32)
b = packets.M1Packet(); b.create_opt_fields(); b.ClientEncKey = bytes(32)
p = packets.M1Packet(src_buf=bytes(a))
p.from_bytes(bytes(b))
expect(bytes(p) == bytes(b) and p.size == len(bytes(b)), "old key encoded again")
'''),
dict(id='c08-m2-lastflag', prop='C08', edits=[(P,
"""        if self.data.Header.NoSuchServer:
            self.data.Header.LastFlag = 1  # LastFlag is implied
        return bytes(self.data)
""",
"""        self.data.Header.LastFlag = self.data.Header.NoSuchServer  # LastFlag is implied
        return bytes(self.data)
""")],
needs="an M2 with the last flag but without NoSuchServer",
breaks="decoding and encoding again changes the packet",
demo='''
raw = b"\\x02\\x80" + bytes(4) + bytes(range(32))
p = packets.M2Packet(src_buf=raw)
expect(bytes(p) == raw, "re-encoded differently")
'''),
]
