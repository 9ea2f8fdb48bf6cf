A='saltchannel/v2/app_channel_v2.py'; EC='saltchannel/v2/encrypted_channel_v2.py'; P='saltchannel/v2/packets.py'
C='saltchannel/v2/salt_client_session.py'; S='saltchannel/v2/salt_server_session.py'
CH='saltchannel/channel.py'; CA='saltchannel/dev/client_server_a.py'; E='saltchannel/dev/'
STREAM = '''
import saltchannel.dev.client_server_a as csa
class T:
    """transport that records"""
    def __init__(self): self.out = bytearray(); self.protocol = None
    def write(self, d): self.out += bytes(d)
    def writelines(self, ds):
        for d in ds: self.write(d)
    def is_closing(self): return False
    def get_extra_info(self, *a): return None
    def pause_reading(self): pass
    def resume_reading(self): pass
    def close(self): pass
    def frames(self):
        r, b = [], bytes(self.out)
        while b:
            n = struct.unpack('<i', b[:4])[0]; r.append(b[4:4 + n]); b = b[4 + n:]
        return r
def stream():
    loop = asyncio.get_running_loop()
    reader = csa.SaltChannelStreamReader(loop=loop)
    proto = csa.SaltChannelStreamReaderProtocol(reader, loop=loop)
    t = T(); proto.connection_made(t)
    return AsyncioChannel(reader, csa.SaltChannelStreamWriter(t, proto, reader, loop)), t, proto
'''
SEEDS = [
dict(id='c24-ex3-keeper', prop='C24', edits=[(E+'example_session3.py',
"""        self.client_enc_keypair = CryptoTestData.aEnc

    def server_session""",
"""        self.client_enc_keypair = CryptoTestData.aEnc
        self.server_time_keeper = OneTwoThreeTimeKeeper()

    def server_session"""),(E+'example_session3.py',
"                sss.time_keeper = OneTwoThreeTimeKeeper()\n","                sss.time_keeper = self.server_time_keeper\n"),(E+'example_session3.py',
"""        self.time = 1
        return 1
""","""        return self.get_time()
""")],
needs="a second session with the blocking example 3 server",
breaks="the times of the second session go on where those of the first one ended",
demo='''
from saltchannel.dev.example_session3 import ExampleSession
from saltchannel.dev.tunnel import Tunnel
e = ExampleSession()
class Server(threading.Thread):
    def __init__(self, ch): super().__init__(daemon=True); self.ch = ch
    def run(self): e.server_session(SocketChannel(self.ch))
for round in range(2):
    a, b = socket.socketpair(); a.settimeout(20); b.settimeout(20)
    t = Server(b); t.start()
    ch = SocketChannel(a)
    L = SaltLib()
    c = SaltClientSession(L.create_sig_keys(), ch); c.enc_keypair = L.create_enc_keys()
    try:
        c.handshake_sync()
    except BadPeer:
        pass
    expect(c.m2.data.Time == 1 and c.m3 is not None and c.m3.data.Time == 2, "session %d: time %d in M2" % (round, c.m2.data.Time))
    a.close(); t.join(20)
'''),
dict(id='c24-echo-strip', prop='C24', edits=[(E+'simple_echo_session.py',
"                if not msg:\n","                if not msg.strip(b'\\x00'):\n")],
needs="a message of zero bytes only",
breaks="the blocking echo server ends instead of returning it",
demo='''
from saltchannel.dev.simple_echo_session import SimpleEchoSession
a, b = socket.socketpair(); a.settimeout(20)
t = threading.Thread(target=lambda: SimpleEchoSession().server_session(SocketChannel(b)), daemon=True); t.start()
ch = SocketChannel(a)
for m in (b"x", bytes(5), b"y"):
    ch.write_sync(m)
    t.join(0.3)
    expect(t.is_alive() and ch.read_sync() == m, "%r is not echoed" % m)
'''),
dict(id='c24-ex1-last-any', prop='C24', edits=[(E+'example_session1.py',
"                sss.app_channel.write_sync(sss.app_channel.read_sync())  # echo once at app layer\n",
"                channel.closing = sss.app_channel.last\n                sss.app_channel.write_sync(sss.app_channel.read_sync())  # echo once at app layer\n"),
(E+'example_session1.py',"                if sss.app_channel.last: # client do","                if channel.closing: # client do")],
needs="a session whose message is marked as last, with another M1 after it on the connection",
breaks="the server goes on with the connection after the marked message (the flag is looked at before the message is read)",
demo='''
from saltchannel.dev.example_session1 import ExampleSession
a, b = socket.socketpair(); a.settimeout(20); b.settimeout(20)
t = threading.Thread(target=lambda: ExampleSession().server_session(SocketChannel(b)), daemon=True); t.start()
ch = SocketChannel(a); L = SaltLib()
c = SaltClientSession(L.create_sig_keys(), ch); c.enc_keypair = L.create_enc_keys()
c.handshake_sync()
c.app_channel.write_sync(b"m", is_last=True)
expect(c.app_channel.read_sync() == b"m", "echo")
t.join(5)
expect(not t.is_alive(), "the server still waits after the last message")
'''),
dict(id='c24-ex3a-compare', prop='C24', edits=[(E+'example_session3_a.py',
'''        if app_request2_2 != app_response3:
''','''        if len(app_request2_2) != len(app_response3):
''')],
needs="a server that returns another third message of the same length",
breaks="the example 3 asyncio client does not notice the wrong echo",
demo='''
from saltchannel.dev.example_session3_a import ExampleSessionA
import contextlib, io, saltchannel.dev.client_server_a as csa
logging.getLogger().handlers[:] = []
async def serve(r, w):
    ch = AsyncioChannel(r, w); L = SaltLib()
    s = SaltServerSession(L.create_sig_keys(), ch); s.enc_keypair = L.create_enc_keys()
    await s.handshake()
    await s.app_channel.write(await s.app_channel.read())
    m = [await s.app_channel.read(), await s.app_channel.read()]
    await s.app_channel.write(m[0], bytes(len(m[1])))
async def main():
    srv = await csa.start_saltchannel_server(serve, '127.0.0.1', 0)
    r, w = await csa.open_saltchannel_connection('127.0.0.1', srv.sockets[0].getsockname()[1])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            await ExampleSessionA().client_session(r, w)
    except AssertionError:
        return
    expect(False, "wrong echo went unnoticed")
run(main)
'''),
dict(id='c25-drain-each', prop='C25', edits=[(CH,
"""                self.writer.write_msg(m)
            await self.writer.drain()
""","""                self.writer.write_msg(m)
                await self.writer.drain()
""")],
needs="a write of several messages that waits for a slow peer and is cancelled there",
breaks="only the first messages of the call are sent",
demo=STREAM+'''
async def main():
    ch, t, proto = stream()
    proto.pause_writing()
    w = asyncio.ensure_future(ch.write(b"a", b"b"))
    await asyncio.sleep(0.05)
    w.cancel()
    try: await w
    except asyncio.CancelledError: pass
    proto.resume_writing()
    await ch.write(b"c")
    expect(t.frames() in ([b"a", b"b", b"c"], [b"c"]), "sent %r" % t.frames())
run(main)
'''),
dict(id='c25-enc-each', prop='C25', edits=[(EC,
"""        msg_list = []
        for i, msg in enumerate(msgs):
            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
            self.write_nonce.advance()
        await self.channel.write(msg_list[0], *msg_list[1:], is_last=is_last)
""","""        for i, msg in enumerate(msgs):
            last = is_last and int(i) == len(msgs)-1
            raw = self.wrap(self.encrypt(msg), is_last=last)
            self.write_nonce.advance()
            await self.channel.write(raw, is_last=last)
""")],
needs="a write that becomes several packets, cancelled while the peer is slow",
breaks="a part of the messages of a cancelled write is sent",
demo=STREAM+'''
async def main():
    ch, t, proto = stream()
    e = EncryptedChannelV2(ch, bytes(32), Role.CLIENT)
    proto.pause_writing()
    w = asyncio.ensure_future(e.write(b"a", b"b"))
    await asyncio.sleep(0.05)
    w.cancel()
    try: await w
    except asyncio.CancelledError: pass
    proto.resume_writing()
    expect(len(t.frames()) in (0, 2), "%d of 2 packets sent" % len(t.frames()))
run(main)
'''),
dict(id='c25-read-ahead', prop='C25', edits=[(A,
"""            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)
            return map.opt.Message[0]
""","""            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)
            if len(self.readQ) > 1:
                await asyncio.sleep(0)  # let others run before a burst of messages
            return map.opt.Message[0]
"""),(A,"from collections import deque\n","import asyncio\nfrom collections import deque\n")],
needs="a read that is cancelled just when a packet with three or more messages has been taken",
breaks="the first message of the packet is lost",
demo='''
async def main():
    c, s = await ready()
    await c.app_channel.write(b"1", b"2", b"3")
    for steps in range(1, 12):
        t = asyncio.ensure_future(s.app_channel.read())
        for _ in range(steps): await asyncio.sleep(0)
        if not t.done():
            t.cancel()
            try: await t
            except asyncio.CancelledError: continue
        expect(t.result() == b"1", "first message is %r" % t.result())
        break
run(main)
'''),
dict(id='c26-short-session-nonce', prop='C26', edits=[(EC,
"        return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])\n",
"        return self.value.to_bytes(8, 'little') + int.from_bytes(self.session_nonce[:4], 'little').to_bytes(16, 'little')\n")],
needs="session nonces that differ in their last four bytes only",
breaks="packets of another session nonce are accepted",
demo='''
async def main():
    ca, cb = pair()
    a = EncryptedChannelV2(ca, bytes(32), Role.CLIENT, session_nonce=b"\\x01" * 8)
    b = EncryptedChannelV2(cb, bytes(32), Role.SERVER, session_nonce=b"\\x01" * 7 + b"\\x02")
    await a.write(b"m")
    try:
        r = await b.read()
    except BadPeer:
        return
    expect(False, "packet of another session nonce accepted")
run(main)
'''),
dict(id='c26-nonce-by-key', prop='C26', edits=[(EC,
"        self.read_nonce = Nonce(NonceType.READ, session_nonce, value= 2 if role == Role.CLIENT else 1)\n        self.write_nonce = Nonce(NonceType.WRITE, session_nonce, value= 1 if role == Role.CLIENT else 2)\n",
"""        first = 1 if role == Role.CLIENT else 2
        self.read_nonce = Nonce(NonceType.READ, session_nonce, value=3 - first)
        # never start again under a key that was used before
        self.write_nonce = EncryptedChannelV2._used.setdefault((bytes(key), role), Nonce(NonceType.WRITE, session_nonce, value=first))
"""),(EC,"    def __init__(self, channel, key, role, session_nonce=bytes","    _used = {}\n\n    def __init__(self, channel, key, role, session_nonce=bytes")],
needs="two encrypted channels of the same role and key with different session nonces",
breaks="the second one uses the counter and session nonce of the first one",
demo='''
async def main():
    k = os.urandom(32)
    for sn in (bytes(8), b"\\x05" * 8):
        ca, cb = pair()
        a = EncryptedChannelV2(ca, k, Role.CLIENT, session_nonce=sn)
        b = EncryptedChannelV2(cb, k, Role.SERVER, session_nonce=sn)
        await a.write(b"m")
        try:
            r = await b.read()
        except BadPeer:
            r = None
        expect(r == b"m", "session nonce %r" % sn)
run(main)
'''),
]
