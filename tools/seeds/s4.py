A='saltchannel/v2/app_channel_v2.py'; EC='saltchannel/v2/encrypted_channel_v2.py'; P='saltchannel/v2/packets.py'
C='saltchannel/v2/salt_client_session.py'; S='saltchannel/v2/salt_server_session.py'
CA='saltchannel/dev/client_server_a.py'; L='saltchannel/saltlib/saltlib.py'; AP='saltchannel/a1a2/packets.py'
TW='saltchannel/saltlib/pure_pynacl/tweetnacl.py'; MI='saltchannel/dev/mitm_channel.py'
SEEDS = [
dict(id='c01-clientkey-keep', prop='C01', edits=[(S,"        self.client_sig_key = self.m4.ClientSigKey\n","        self.client_sig_key = self.client_sig_key or self.m4.ClientSigKey\n")],
needs="a server session object that handshakes with a second client",
breaks="the server reports the key of its first client for the second one",
demo='''
async def main():
    c, s = await ready()
    ca, cb = pair()
    c2, _ = sessions(ca, cb)
    s.clear_channel = cb
    r = await shake(c2, s)
    expect(r == [None, None], "%r" % r)
    expect(s.client_sig_key == c2.sig_keypair.pub, "key of another client reported")
run(main)
'''),
dict(id='c02-last-clears', prop='C02', edits=[(A,"        msgs = (message,) + args\n","        msgs = (message,) + args\n        if is_last:\n            self.readQ.clear()  # this side is done\n")],
needs="a write marked as last while messages of a received multi-packet wait to be read",
breaks="the waiting messages are lost",
demo='''
async def main():
    c, s = await ready()
    await c.app_channel.write(b"1", b"2", b"3")
    expect(await s.app_channel.read() == b"1", "first")
    await s.app_channel.write(b"bye", is_last=True)
    await c.app_channel.write(b"4")
    r = await s.app_channel.read()
    expect(r == b"2", "got %r instead of the second message" % r)
run(main)
'''),
dict(id='c03-65536', prop='C03', edits=[(EC,"is_last=(is_last and int(i) == len(msgs)-1)","is_last=(is_last and int(i) == min(len(msgs), 65536)-1)")],
needs="a write of more than 65536 messages marked as last",
breaks="the last flag is on a packet in the middle of the write",
demo='''
async def main():
    class Ch(ByteChannel):
        out = []
        async def read(self): return self.out.pop(0)
        async def write(self, *m, is_last=False): self.out.extend(m)
    e = EncryptedChannelV2(Ch(), bytes(32), Role.CLIENT)
    await e.write(*[b"x"] * 65540, is_last=True)
    marked = [i for i, p in enumerate(Ch.out) if p[1] & 128]
    expect(marked == [65539], "marked: %r" % marked)
run(main)
'''),
dict(id='c04-either-prefix', prop='C04', edits=[(S,'''        except saltchannel.saltlib.exceptions.BadSignatureException:
            raise saltchannel.exceptions.BadPeer("invalid signature")''','''        except saltchannel.saltlib.exceptions.BadSignatureException:
            try:  # clients before 2.1 sign with the other prefix
                self.saltlib.sign_open(b''.join([self.m4.Signature2, M3Packet.SIG1_PREFIX,
                                                 self.m1_hash, self.m2_hash]), self.m4.ClientSigKey)
            except saltchannel.saltlib.exceptions.BadSignatureException:
                raise saltchannel.exceptions.BadPeer("invalid signature")''')],
needs="a client without signing key that sends the server's own key and signature back in M4",
breaks="the server completes the handshake with a peer that proved nothing",
demo='''
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    async def client():
        await c.do_m1(); await c.do_m2(); c.create_encrypted_channel(); await c.do_m3()
        m4 = packets.M4Packet()
        m4.ClientSigKey = c.m3.ServerSigKey
        m4.Signature2 = c.m3.Signature1
        await c.enc_channel.write(bytes(m4))
    r = await asyncio.gather(client(), s.handshake(), return_exceptions=True)
    expect(isinstance(r[1], BadPeer), "server: %r" % r[1])
run(main)
'''),
dict(id='c09-a2-first100', prop='C09', edits=[(AP,"        for i, prot in enumerate(self.opt.Prot):\n","        for i, prot in enumerate(self.opt.Prot[:100]):\n")],
needs="an A2 with more than 100 protocols and an illegal character in a later one",
breaks="the illegal protocol string is accepted",
demo='''
from saltchannel.a1a2.packets import A2Packet
raw = bytes([9, 0x80, 110]) + b"SCv2------" * 219
A2Packet(src_buf=raw + b"----------")
try:
    A2Packet(src_buf=raw + b"-----\\x00----")
except BadPeer:
    sys.exit(0)
expect(False, "illegal protocol string accepted")
'''),
dict(id='c12-done-buffered', prop='C12', edits=[(S,"            self.is_done = True\n            return","            self.is_done = not self.buffer_m2\n            return")],
needs="an A1 request to a server set up to send M2 and M3 together",
breaks="the server does not report itself done after its answer",
demo='''
from saltchannel.a1a2.a1_client_session import A1ClientSession
async def main():
    ca, cb = pair()
    _, s = sessions(ca, cb)
    s.buffer_m2 = True
    a = A1ClientSession(ca)
    await asyncio.gather(a.do_a1a2(), s.handshake())
    expect(s.is_done, "answered, but not done")
run(main)
'''),
dict(id='c13-monotonic', prop='C13', edits=[(A,"        current_time = self.time_keeper.get_time()\n","        self._time = current_time = max(self.time_keeper.get_time(), getattr(self, '_time', 0))\n")],
needs="a time keeper whose time goes down (as when the 32-bit clock wraps)",
breaks="packets carry an older time than the keeper gave",
demo='''
async def main():
    c, s = await ready()
    seen = []
    class K:
        t = [5, 2, 9]
        def get_first_time(self): return 1
        def get_time(self): return self.t.pop(0)
    class Ch:
        def report_first_time(self, t): pass
        def check_time(self, t): seen.append(t)
    c.app_channel.time_keeper = K(); s.app_channel.time_checker = Ch()
    for i in range(3):
        await c.app_channel.write(b"x"); await s.app_channel.read()
    expect(seen == [5, 2, 9], "times %r" % seen)
run(main)
'''),
dict(id='c20-log-bounded', prop='C20', edits=[(MI,"        self.queue = deque()","        self.queue = deque(maxlen=100)")],
needs="more than 100 messages while the log is buffered",
breaks="the oldest log records are lost",
demo='''
from saltchannel.dev.mitm_channel import MitmChannel
class Log:
    n = 0
    def info(self, *a): self.n += 1
async def main():
    ca, cb = pair()
    m = MitmChannel(ca, log=Log()); m.log_buffering = True
    for i in range(150): await m.write(b"x")
    m.flush_log_buffer()
    expect(m.log.n == 150, "%d of 150 messages logged" % m.log.n)
run(main)
'''),
dict(id='c21-fork-pool', prop='C21', edits=[(L,"        return SaltLib._rand(n)","        pool = SaltLib.__dict__.get('_pool') or b''\n        if len(pool) < n:\n            pool = SaltLib._rand(n + 256)  # fewer system calls\n        SaltLib._pool = pool[n:]\n        return pool[:n]")],
needs="two processes forked from one that has created a key before",
breaks="both create the same keys",
demo='''
L = SaltLib(); L.create_enc_keys()
def child():
    r, w = os.pipe()
    if os.fork() == 0:
        os.write(w, L.create_enc_keys().sec); os._exit(0)
    k = os.read(r, 32); os.wait(); return k
expect(child() != child(), "two processes made the same key")
'''),
dict(id='c22-verify31', prop='C22', edits=[(TW,"    for i in range(n): d |= x[i] ^ y[i]","    for i in range(n - (n == 32)): d |= x[i] ^ y[i]")],
needs="a signature altered in byte 31 only",
breaks="the pure-Python back end accepts it",
demo='''
from saltchannel.saltlib.saltlib_pure import SaltLibPure
from saltchannel.saltlib.exceptions import BadSignatureException
from saltchannel.saltlib.pure_pynacl import tweetnacl as t, IntArray
import hashlib
p = SaltLibPure()
seed = bytes(range(32)); pk, sk = p.crypto_sign_keypair_not_random(seed)
Lq = 2**252 + 27742317777372353535851937790883648493
a = bytearray(hashlib.sha512(seed).digest()[:32]); a[0] &= 248; a[31] &= 127; a[31] |= 64
a = int.from_bytes(a, "little")
r = 12345678901234567890
q = [t.gf() for i in range(4)]; t.scalarbase(q, IntArray(t.u8, init=r.to_bytes(32, "little")))
R = IntArray(t.u8, size=32); t.pack(R, q); R = bytearray(R)
for flip in (0, 1):
    R[31] ^= flip       # the signer of this one is wrong about its R in the last byte
    h = int.from_bytes(hashlib.sha512(bytes(R) + pk + b"m").digest(), "little")
    sm = bytes(R) + ((r + h * a) % Lq).to_bytes(32, "little") + b"m"
    try:
        ok = p.crypto_sign_open(sm, pk) == b"m"
    except BadSignatureException:
        ok = False
    expect(ok == (not flip), "signature with R %s: %s" % ("altered" if flip else "right", "accepted" if ok else "refused"))
'''),
dict(id='c23-eight', prop='C23', edits=[(CA,"for x in range(self.client_num)]","for x in range(min(self.client_num, 8))]")],
needs="more than eight clients of the asyncio runner",
breaks="only eight sessions are run",
demo='''
from saltchannel.dev.client_server_a import ClientServerPairA, SessionA
class Ses(SessionA):
    n = 0
    async def server_session(self, reader, writer):
        Ses.n += 1
        writer.write_msg(await reader.read_msg())
    async def client_session(self, reader, writer):
        writer.write_msg(b"x"); await reader.read_msg()
p = ClientServerPairA(Ses(), 11)
p.start_server(); p.run_sessions(); p.stop_server()
expect(Ses.n == 11, "%d of 11 sessions run" % Ses.n)
'''),
dict(id='c25-m4-after', prop='C25', edits=[(A,"            self.buffered_m4 = None\n\n        if Multi","\n        if Multi"),(A,"        await self.channel.write(rawmsg_list[0], *(rawmsg_list[1:]), is_last=is_last)","        await self.channel.write(rawmsg_list[0], *(rawmsg_list[1:]), is_last=is_last)\n        self.buffered_m4 = None")],
needs="a client with buffered M4 whose first write is cancelled while the peer is slow",
breaks="M4 is sent again with the next write and the server refuses the session",
demo='''
async def main():
    ca, cb = pair()
    class Slow(Q):
        gate = None
        async def write(self, msg, *args, is_last=False):
            await super().write(msg, *args, is_last=is_last)
            if self.gate: await self.gate.wait()
    ch = Slow(ca.inq, ca.outq)
    c, s = sessions(ch, cb)
    c.buffer_M4 = True
    hs = asyncio.ensure_future(s.handshake())
    await c.handshake()
    ch.gate = asyncio.Event()
    w = asyncio.ensure_future(c.app_channel.write(b"1"))
    await asyncio.sleep(0.05); w.cancel()
    try: await w
    except asyncio.CancelledError: pass
    ch.gate.set()
    await c.app_channel.write(b"2")
    await hs
    got = [await s.app_channel.read(), await s.app_channel.read()]
    expect(got == [b"1", b"2"], "%r" % got)
run(main)
'''),
]
