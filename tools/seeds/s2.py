A='saltchannel/v2/app_channel_v2.py'; EC='saltchannel/v2/encrypted_channel_v2.py'; P='saltchannel/v2/packets.py'
C='saltchannel/v2/salt_client_session.py'; S='saltchannel/v2/salt_server_session.py'
AP='saltchannel/a1a2/packets.py'; CH='saltchannel/channel.py'; SL='saltchannel/saltlib/saltlib.py'
NA='saltchannel/saltlib/saltlib_native.py'; PY='saltchannel/saltlib/saltlib_pynacl.py'; TW='saltchannel/saltlib/pure_pynacl/tweetnacl.py'
PU='saltchannel/saltlib/saltlib_pure.py'; U='saltchannel/util/__init__.py'; MI='saltchannel/dev/mitm_channel.py'
CS='saltchannel/dev/client_server.py'; CA='saltchannel/dev/client_server_a.py'
SEEDS = [
dict(id='c06-count-65536', prop='C06', edits=[(P,
"not 2 <= len(msgs) <= 65535 or any", "not 2 <= len(msgs) <= 65536 or any")],
needs="one write of exactly 65536 messages",
breaks="a multi packet with Count 0 goes out (the 16-bit field wraps)",
demo='''
async def main():
    c, s = await ready()
    await c.app_channel.write(*[b""] * 65536)
    n = 0
    try:
        while n < 65536:
            await asyncio.wait_for(s.app_channel.read(), 3)
            n += 1
    except (BadPeer, asyncio.TimeoutError):
        pass
    expect(n == 65536, "malformed packet on the wire; %d messages arrived" % n)
run(main)
'''),
dict(id='c07-nonce16', prop='C07', edits=[(EC,
"self.value.to_bytes(8, 'little')", "(self.value & 0xffff).to_bytes(8, 'little')")],
needs="more than 32768 packets in one direction of a session",
breaks="the nonces start again from the beginning",
demo='''
async def main():
    c, s = await ready()
    ch = c.clear_channel
    seen = set()
    for i in range(33000):
        await c.app_channel.write(b"x")
        seen.add(ch.sent.pop())
    expect(len(seen) == 33000, "the same message was encrypted to the same bytes twice")
run(main)
'''),
dict(id='c09-m1-version', prop='C09', edits=[(P,
"""        if self.data.ProtocolIndicator[:] != self.data._defaults_['ProtocolIndicator'][:]:
""",
"""        if self.data.ProtocolIndicator[:3] != self.data._defaults_['ProtocolIndicator'][:3]:
""")],
needs="an M1 of another protocol version",
breaks="an M1 with a wrong protocol indicator is accepted",
demo='''
try:
    packets.M1Packet(src_buf=b"SCv3\\x01\\0" + bytes(36))
    expect(False, "SCv3 accepted")
except BadPeer:
    pass
'''),
dict(id='c09-a2-any', prop='C09', edits=[(AP,
"""        for i, prot in enumerate(self.opt.Prot):
            if not prot.validate():
                raise BadPeer("Invalid P1, Proto: ", i)
""",
"""        if self.data.Count and not any(prot.validate() for prot in self.opt.Prot):
            raise BadPeer("Invalid P1 or P2")
""")],
needs="an A2 with several protocols of which at least one is legal and one illegal",
breaks="the illegal protocol string is returned",
demo='''
from saltchannel.a1a2.packets import A2Packet
raw = b"\\x09\\x80\\x02" + b"SCv2------" * 2 + b"bad string" + b"----------"
try:
    A2Packet(src_buf=raw)
    expect(False, "illegal protocol string accepted")
except BadPeer:
    pass
'''),
dict(id='c09-a2-count-sign', prop='C09', edits=[(AP,
"""        if not 0 <= self.data.Count <= 127:
            raise BadPeer("Count out of range")

        if len(self.opt.Prot) != self.data.Count:
""",
"""        if len(self.opt.Prot) != abs(self.data.Count):
""")],
needs="an A2 whose count byte is over 127 and has the matching number of protocols for its absolute value",
breaks="an A2 with an illegal count is accepted",
demo='''
from saltchannel.a1a2.packets import A2Packet
raw = b"\\x09\\x80\\xff" + b"SCv2------" * 2
try:
    A2Packet(src_buf=raw)
    expect(False, "count 255 accepted")
except BadPeer:
    pass
'''),
dict(id='c10-peek-type', prop='C10', edits=[(A,
"""        ap = AppPacket(src_buf=raw_chunk, validate=False)
        if ap.data.Header.PacketType == PacketType.TYPE_APP_PACKET.value:  # AppPacket detected
            ap.validate()
""",
"""        if raw_chunk[0] == PacketType.TYPE_APP_PACKET.value:  # AppPacket detected
            ap = AppPacket(src_buf=raw_chunk)
""")],
needs="an authenticated peer that sends a correctly encrypted empty packet",
breaks="IndexError escapes from read()",
demo='''
async def main():
    c, s = await ready()
    await c.enc_channel.write(b"")
    try:
        await s.app_channel.read()
        expect(False, "empty packet accepted")
    except BadPeer:
        pass
    except Exception as e:
        expect(False, "escaped: %r" % e)
run(main)
'''),
dict(id='c10-m4-key', prop='C10', edits=[(S,
"""        except saltchannel.saltlib.exceptions.BadSignatureException:
            raise saltchannel.exceptions.BadPeer("invalid signature")
""",
"""        except saltchannel.saltlib.exceptions.BadSignatureException as e:
            raise saltchannel.exceptions.BadPeer("invalid signature of " + self.m4.ClientSigKey.decode('ascii'), e)
""")],
needs="a client with a bad signature whose key is not ASCII",
breaks="UnicodeDecodeError escapes from the server's handshake",
demo='''
from saltchannel.util.key_pair import KeyPair
async def main():
    L = SaltLib()
    ca, cb = pair()
    c, s = sessions(ca, cb, ck=KeyPair(sec=L.create_sig_keys().sec, pub=b"\\xff" * 32))
    r = await shake(c, s)
    expect(isinstance(r[1], SaltChannelException), "escaped: %r" % r[1])
run(main)
'''),
dict(id='c11-zero-key-any', prop='C11', edits=[(S,
"        if self.m1.data.Header.ServerSigKeyIncluded and self.sig_keypair.pub != self.m1.ServerSigKey:\n",
"        if self.m1.data.Header.ServerSigKeyIncluded and self.m1.ServerSigKey.strip(b'\\0') not in self.sig_keypair.pub:\n")],
needs="an M1 that asks for a key which is, without its outer zero bytes, a part of the server's own (e.g. the all-zero key)",
breaks="the server proceeds although another server was asked for",
demo='''
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    c.wanted_server_sig_key = bytes(32)
    r = await asyncio.gather(c.handshake(), asyncio.wait_for(s.handshake(), 2), return_exceptions=True)
    expect([type(x) for x in r] == [NoSuchServerException] * 2, "%r" % r)
run(main)
'''),
dict(id='c11-nosuch-needs-last', prop='C11', edits=[(C,
"        if self.m2.data.Header.NoSuchServer:\n", "        if self.m2.data.Header.NoSuchServer and not any(self.m2.ServerEncKey):\n")],
needs="a NoSuchServer M2 whose unused key field is not zero",
breaks="the client goes on with the handshake instead of failing with NoSuchServerException",
demo='''
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    ca.inq.put_nowait(b"\\x02\\x81" + bytes(4) + bytes(range(32)))
    ca.inq.put_nowait(b"\\x06\\0" + bytes(140))
    try:
        await c.handshake()
        expect(False, "completed")
    except NoSuchServerException:
        pass
    except Exception as e:
        expect(False, repr(e))
run(main)
'''),
dict(id='c12-empty-list', prop='C12', edits=[(S,
"        elif self.a2:\n", "        elif self.a2 and self.a2.data.Count:\n")],
needs="a server configured with an empty protocol list",
breaks="the default list is answered instead",
demo='''
from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.a1a2.packets import A2Packet
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    s.a2 = A2Packet()
    a = A1ClientSession(ca)
    await asyncio.gather(a.do_a1a2(), s.handshake())
    expect(bytes(a.a2) == bytes(s.a2), "not the configured answer")
run(main)
'''),
dict(id='c12-done-on-bad', prop='C12', edits=[(S,
"""        await self.clear_channel.write(bytes(a2), is_last=True)

    async def do_m1""",
"""        await self.clear_channel.write(bytes(a2), is_last=bool(a2.data.Count))

    async def do_m1""")],
needs="an A1 for another server (an answer without protocols)",
breaks="the channel is not told that the answer is the last message",
demo='''
from saltchannel.a1a2.a1_client_session import A1ClientSession
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    a = A1ClientSession(ca)
    a.a1.data.AddressType = 1; a.a1.data.AddressSize = 32; a.a1.Address = bytes(32)
    await asyncio.gather(a.do_a1a2(), s.handshake())
    expect(cb.lasts == [True], "answer not marked last")
run(main)
'''),
dict(id='c13-check-late', prop='C13', edits=[(A,
"""            self.time_checker.check_time(map.data.Time)
            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)
""",
"""            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)
            self.time_checker.check_time(map.data.Time)
""")],
needs="a multi packet whose time the checker refuses, and a later read",
breaks="messages of the refused packet are delivered by the next reads",
demo='''
from saltchannel.util.time import TimeChecker
class T(TimeChecker):
    def report_first_time(self, t): pass
    def check_time(self, t):
        if t == 99: raise TimeException("late")
async def main():
    c, s = await ready()
    s.app_channel.time_checker = T()
    raw = b"\\x0b\\0" + struct.pack("<IH", 99, 2) + struct.pack("<H", 1) + b"a" + struct.pack("<H", 1) + b"b"
    await c.enc_channel.write(raw)
    await c.app_channel.write(b"good")
    try:
        await s.app_channel.read()
        expect(False, "accepted")
    except TimeException:
        pass
    got = await s.app_channel.read()
    expect(got == b"good", "delivered %r of a refused packet" % got)
run(main)
'''),
dict(id='c13-nosuch-unchecked', prop='C13', edits=[(C,
"""        self.time_checker.report_first_time(self.m2.data.Time)
        self.m2_hash = self.saltlib.sha512(clear_chunk)
""",
"""        self.m2_hash = self.saltlib.sha512(clear_chunk)
"""),(C,
"""            raise saltchannel.exceptions.NoSuchServerException()

        return (True, None)
""",
"""            raise saltchannel.exceptions.NoSuchServerException()

        self.time_checker.report_first_time(self.m2.data.Time)
        return (True, None)
""")],
needs="a NoSuchServer M2 with a time",
breaks="its time is never handed to the checker",
demo='''
from saltchannel.util.time import TimeChecker
seen = []
class T(TimeChecker):
    def report_first_time(self, t): seen.append(t)
    def check_time(self, t): pass
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    c.time_checker = T()
    ca.inq.put_nowait(b"\\x02\\x81" + struct.pack("<I", 1) + bytes(32))
    try:
        await c.handshake()
    except NoSuchServerException:
        pass
    expect(seen == [1], "time not checked")
run(main)
'''),
dict(id='c14-send', prop='C14', edits=[(CH,
"            self.sock.sendall(bytes(raw))\n",
"""            view = memoryview(bytes(raw))
            for i in range(0, len(view), 65536):
                self.sock.send(view[i:i + 65536])
""")],
needs="a message longer than what one send() takes (full socket buffer, e.g. with a timeout set or a slow reader)",
breaks="bytes are lost in the middle of the stream",
demo='''
a, b = socket.socketpair()
a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
a.settimeout(20); b.settimeout(5)
msg = os.urandom(400000)
import time
def reader():
    time.sleep(0.3)
    try: got.append(SocketChannel(b).read_sync())
    except Exception as e: got.append(e)
got = []
t = threading.Thread(target=reader); t.start()
SocketChannel(a).write_sync(msg)
t.join(15)
expect(got == [msg], "bytes lost")
'''),
dict(id='c14-skip-empty', prop='C14', edits=[(CA,
"        self.write(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))\n",
"        self.write(struct.pack('<i', len(msg)) + bytes(msg) if msg else b'')\n")],
needs="an empty message on an asyncio channel",
breaks="empty messages are not sent",
demo='''
from saltchannel.dev.client_server_a import SaltChannelStreamWriter
class T:
    out = b""
    def write(self, d): T.out += d
async def main():
    w = SaltChannelStreamWriter(T(), None, None, asyncio.get_event_loop())
    w.write_msg(b"")
    expect(T.out == bytes(4), "empty message not sent")
run(main)
'''),
dict(id='c15-partial', prop='C15', edits=[(CH,
"           if not success:\n               raise ComException(\"Unable to recv msg. NOT all requested data were obtained\")\n",
"           if not success and len(msg) <= 4:\n               raise ComException(\"Unable to recv msg. NOT all requested data were obtained\")\n")],
needs="a connection that ends inside a message, after at least one of its bytes",
breaks="a part of the message is delivered",
demo='''
a, b = socket.socketpair()
a.sendall(struct.pack("<i", 10) + b"abc"); a.close()
try:
    SocketChannel(b).read_sync()
    expect(False, "partial message delivered")
except ComException:
    pass
'''),
dict(id='c15-oserror-only', prop='C15', edits=[(CH,
"            # [TODO] do we need to close socket here if is_last == True ?\n        except Exception as e:\n",
"            # [TODO] do we need to close socket here if is_last == True ?\n        except ConnectionError as e:\n")],
needs="a socket with a time-out whose peer does not read, until the buffers are full",
breaks="TimeoutError escapes a write instead of ComException",
demo='''
a, b = socket.socketpair()
a.settimeout(0.2)
try:
    SocketChannel(a).write_sync(bytes(8000000))
    expect(False, "written")
except ComException:
    pass
except Exception as e:
    expect(False, repr(e))
'''),
dict(id='c16-kwargs', prop='C16', edits=[(U,
"            return self.loop.run_until_complete(meth(*args, **kwargs))\n",
"            return self.loop.run_until_complete(meth(*args))\n")],
needs="a blocking write with is_last=True",
breaks="keyword arguments of blocking calls are dropped, so the last flag is not sent",
demo='''
ca, cb = pair()
e = EncryptedChannelV2(ca, bytes(32), Role.CLIENT)
e.write_sync(b"x", is_last=True)
expect(ca.lasts == [True] and ca.sent[0][1] == 0x80, "last flag lost")
'''),
dict(id='c16-one-loop', prop='C16', edits=[(U,
"        loop2 = asyncio.new_event_loop()\n        asyncio.set_event_loop(loop2)\n    return loop2\n",
"""        global _thread_loop
        if _thread_loop is None or _thread_loop.is_closed():
            _thread_loop = asyncio.new_event_loop()
        loop2 = _thread_loop
        asyncio.set_event_loop(loop2)
    return loop2

_thread_loop = None  # for threads without event loop
""")],
needs="blocking calls running at the same time in two threads without event loop",
breaks="they share one loop and fail with 'This event loop is already running'",
demo='''
from saltchannel.dev.tunnel import TunnelMP
import time
class Slow(ByteChannel):
    async def read(self):
        await asyncio.sleep(0.5)
        return b"x"
    async def write(self, msg, *args, is_last=False): pass
res = []
def work():
    try: res.append(Slow().read_sync())
    except Exception as e: res.append(e)
ts = [threading.Thread(target=work) for _ in range(3)]
[t.start() for t in ts]; [t.join() for t in ts]
expect(res == [b"x"] * 3, repr(res))
'''),
dict(id='c17-sign-open-nul', prop='C17', edits=[(NA,
"        return m.raw[:mlen.value]\n", "        return m.value\n")],
needs="the native back end and a signed message with a zero byte",
breaks="the opened message is cut at the first zero byte",
demo='''
api = SaltLib.getLib(LibType.LIB_TYPE_NATIVE)
pk, sk = api.crypto_sign_keypair_not_random(bytes(32))
m = b"ab\\0cd"
expect(api.crypto_sign_open(api.crypto_sign(m, sk), pk) == m, "message cut")
'''),
dict(id='c17-box-short', prop='C17', edits=[(PY,
"""        try:
            return bindings.crypto_box_open_afternm(c, n, k)
        except Exception as e:
            raise BadEncryptedDataException(e)
""",
"""        if len(c) <= self.crypto_box_OVERHEADBYTES:
            return b''  # nothing inside
        try:
            return bindings.crypto_box_open_afternm(c, n, k)
        except Exception as e:
            raise BadEncryptedDataException(e)
""")],
needs="the PyNaCl back end and a forged box of an empty message",
breaks="any 16 bytes are opened as an empty message",
demo='''
from saltchannel.saltlib.exceptions import BadEncryptedDataException
api = SaltLib.getLib(LibType.LIB_TYPE_PYNACL)
try:
    api.crypto_box_open_afternm(bytes(16), bytes(24), bytes(32))
    expect(False, "forged box opened")
except BadEncryptedDataException:
    pass
'''),
dict(id='c18-ctor', prop='C18', edits=[(SL,
"        self.api = SaltLib.getLib(lib_type)\n", "        self.api = SaltLib.getLib()\n")],
needs="a first SaltLib(..) that asks for a specific back end other than the best one",
breaks="the best one is used instead",
demo='''
from saltchannel.saltlib.saltlib_pynacl import SaltLibPyNaCl
expect(type(SaltLib(LibType.LIB_TYPE_PYNACL).api) is SaltLibPyNaCl, "other back end")
'''),
dict(id='c18-order', prop='C18', edits=[(SL,
"            for t, api in sorted(SaltLib.lib_map.items()):\n", "            for t, api in sorted(SaltLib.lib_map.items(), key=lambda kv: kv[0] % 3):\n")],
needs="the TweetNaCl extension installed beside another back end",
breaks="TweetNaCl is preferred to native libsodium and PyNaCl",
demo='''
from saltchannel.saltlib import saltlib
class F:
    def __init__(self, n): self.n = n
    def isAvailable(self): return True
for t in (1, 2, 3): SaltLib.lib_map[t] = F(t)
expect(SaltLib.getLib().n == 1, "best is not the native one")
'''),
dict(id='c19-shared-readq', prop='C19', edits=[(A,
"""    def __init__(self, channel, time_keeper, time_checker, loop=None):
""",
"""    readQ = deque()  # messages of a multi packet that were not read yet

    def __init__(self, channel, time_keeper, time_checker, loop=None):
"""),(A,"        self.readQ = deque()\n", "")],
needs="a multi packet that is only partly read in one session while another session reads",
breaks="the other session gets the messages",
demo='''
async def main():
    c, s = await ready()
    c2, s2 = await ready()
    await c.app_channel.write(b"one", b"two")
    await c2.app_channel.write(b"three")
    await s.app_channel.read()
    expect(await s2.app_channel.read() == b"three", "message of another session")
run(main)
'''),
dict(id='c19-yield', prop='C19', edits=[(EC,
"""            self.write_nonce.advance()
        await self.channel.write(""",
"""            self.write_nonce.advance()
            if i % 16 == 15:
                await asyncio.sleep(0)  # let other tasks run during long writes
        await self.channel.write("""),(EC,"from enum import Enum\n","import asyncio\nfrom enum import Enum\n")],
needs="two tasks that write on one session, one of them 16 or more packets in one call",
breaks="the packets go out in another order than that of their nonces",
demo='''
async def main():
    c, s = await ready()
    a = [b"y" * 65536] + [b"%d" % i for i in range(20)]
    await asyncio.gather(c.app_channel.write(*a), c.app_channel.write(b"other"))
    try:
        got = [await s.app_channel.read() for _ in range(22)]
    except BadPeer as e:
        got = None
    expect(got is not None and [x for x in got if x != b"other"] == a, "stream broken")
run(main)
'''),
dict(id='c20-count-first', prop='C20', edits=[(MI,
"""        await self.orig.write(msg, *args, is_last=is_last)

        for m in (msg,) + args:
            self.counter_write += len(m)
""",
"""        for m in (msg,) + args:
            self.counter_write += len(m)

        await self.orig.write(msg, *args, is_last=is_last)
""")],
needs="a write that fails in the wrapped channel",
breaks="bytes that were never passed are counted",
demo='''
from saltchannel.dev.mitm_channel import MitmChannel
class F(ByteChannel):
    async def read(self): raise ComException("x")
    async def write(self, msg, *args, is_last=False): raise ComException("x")
async def main():
    m = MitmChannel(F())
    try: await m.write(b"abc")
    except ComException: pass
    expect(m.counter_write == 0, "counted")
run(main)
'''),
dict(id='c20-flush-order', prop='C20', edits=[(MI,
"""        for item in self.queue:
            self._log_event(item, force_log=True)
        self.queue.clear()
""",
"""        while self.queue:
            self._log_event(self.queue.pop(), force_log=True)
""")],
needs="log buffering with at least two messages before the flush",
breaks="the log gets them in reverse order",
demo='''
from saltchannel.dev.mitm_channel import MitmChannel
class Log:
    lines = []
    def info(self, s): Log.lines.append(s)
async def main():
    ca, cb = pair()
    m = MitmChannel(ca, log=Log()); m.log_buffering = True
    await m.write(b"\\x01"); await m.write(b"\\x02")
    m.flush_log_buffer()
    expect("b'01'" in Log.lines[0] and "b'02'" in Log.lines[1], "order")
run(main)
'''),
dict(id='c21-pool', prop='C21', edits=[(SL,
"    def random_bytes(n):\n        return SaltLib._rand(n)\n",
"""    def random_bytes(n):
        if n > 64:
            return SaltLib._rand(n)
        # one system call for many keys
        if SaltLib._pool is None:
            SaltLib._pool = SaltLib._rand(8192)
        SaltLib._pos = (SaltLib._pos + n) % (8192 - 64)
        return SaltLib._pool[SaltLib._pos:SaltLib._pos + n]

    _pool, _pos = None, 0
""")],
needs="more than about 254 keys created in one process",
breaks="keys repeat",
demo='''
L = SaltLib()
ks = [L.create_enc_keys().sec for _ in range(5000)]
expect(len(set(ks)) == len(ks), "keys repeat")
'''),
dict(id='c21-clamp', prop='C21', edits=[(SL,
"""        pk, sk = self.api.crypto_box_keypair_not_random(sec)
        return KeyPair(sec=sk, pub=pk)
""",
"""        pk, sk = self.api.crypto_box_keypair_not_random(bytes([sec[0] & 248]) + sec[1:31] + bytes([sec[31] & 127 | 64]))
        return KeyPair(sec=sk, pub=pk)
""")],
needs="encryption keys re-created from a secret that is not clamped",
breaks="the secret part of the pair is not the one given (still the same public key)",
demo='''
L = SaltLib()
sec = b"\\xff" * 32
expect(L.create_enc_keys_from_sec(sec).sec == sec, "secret changed")
'''),
dict(id='c22-sha-pad', prop='C22', edits=[(TW,
"    n = 256 - 128*(n < 112)\n", "    n = 256 - 128*(n <= 112)\n")],
needs="pure Python SHA-512 of a message of length 112 mod 128",
breaks="the length field overwrites the padding bit",
demo='''
import hashlib
from saltchannel.saltlib.saltlib_pure import SaltLibPure
m = b"a" * 112
expect(SaltLibPure().crypto_hash(m) == hashlib.sha512(m).digest(), "hash")
'''),
dict(id='c22-poly-carry', prop='C22', edits=[(TW,
"        u = 5*(u >> 2)\n", "        u = 5*((u >> 2) & 0xffff)\n")],
needs="pure Python Poly1305 of blocks with large values",
breaks="the tag of some messages is wrong",
demo='''
import random
from saltchannel.saltlib.saltlib_pure import SaltLibPure
from nacl import bindings
p = SaltLibPure()
r = random.Random(1)
for i in range(40):
    k, n, m = (bytes(r.randrange(256) for _ in range(x)) for x in (32, 24, 40))
    expect(p.crypto_box_afternm(m, n, k) == bindings.crypto_box_afternm(m, n, k), "box")
'''),
dict(id='c22-counter', prop='C22', edits=[(TW,
"""        for i in range(8, 16):
            u += u32(z[i])
""",
"""        for i in range(8, 9):
            u += u32(z[i])
""")],
needs="an encrypted message longer than 16 KiB",
breaks="the block counter does not carry into its second byte, the key stream repeats",
demo='''
from saltchannel.saltlib.saltlib_pure import SaltLibPure
from nacl import bindings
p = SaltLibPure()
m = bytes(16500)
k, n = bytes(range(32)), bytes(range(24))
expect(p.crypto_box_afternm(m, n, k) == bindings.crypto_box_afternm(m, n, k), "box of 16500 bytes")
'''),
dict(id='c23-join-timeout', prop='C23', edits=[(CS,
"            x.join()\n", "            x.join(timeout=1)\n")],
needs="a client session that takes longer than a second",
breaks="run_sessions returns while clients are still running",
demo='''
import time
from saltchannel.dev.client_server import MpClientServerPair, Session
done = []
class T(Session):
    def server_session(self, ch): ch.write_sync(ch.read_sync())
    def client_session(self, ch):
        time.sleep(2)
        ch.write_sync(b"x"); done.append(ch.read_sync())
p = MpClientServerPair(T())
p.start_server()
p.run_sessions(1, jitter=False)
n = len(done)
time.sleep(3)
p.stop_server()
expect(n == 1, "returned early")
'''),
dict(id='c23-shared-sock', prop='C23', edits=[(CS,
"""        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            sock.connect(self.server.server_address)
""",
"""        self.sock = sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            sock.connect(self.server.server_address)
"""),(CS,"            channel = SocketChannel(sock)\n            self.is", "            channel = SocketChannel(self.sock)\n            self.is")],
needs="two clients whose connect() overlaps (a server with a full backlog, or plain luck)",
breaks="both clients use one connection",
demo='''
import time
from saltchannel.dev.client_server import MpClientServerPair, Session
import saltchannel.dev.client_server as cs
real = socket.socket
class Slow(real):
    def connect(self, a):
        real.connect(self, a)
        time.sleep(0.2)
cs.socket.socket = Slow
socks = []
class T(Session):
    def server_session(self, ch): pass
    def client_session(self, ch): socks.append(ch.orig.sock.fileno())
p = MpClientServerPair(T())
p.start_server()
p.run_sessions(2, jitter=False)
p.stop_server()
expect(len(set(socks)) == 2, "one connection for two clients: %r" % socks)
'''),
]
