C='saltchannel/v2/salt_client_session.py'; U='saltchannel/util/__init__.py'; L='saltchannel/saltlib/saltlib.py'
CS='saltchannel/dev/client_server.py'; M='saltchannel/dev/mitm_channel.py'
SEEDS = [
dict(id='c04-skip-junk', prop='C04', edits=[(C,"        self.m2 = packets.M2Packet(src_buf=clear_chunk)\n","""        try:
            self.m2 = packets.M2Packet(src_buf=clear_chunk)
        except saltchannel.exceptions.BadPeer:  # left over from before
            clear_chunk = await self.clear_channel.read()
            self.m2 = packets.M2Packet(src_buf=clear_chunk)
""")],
needs="an attacker that puts a packet of its own in front of the server's M2",
breaks="the client completes the handshake although the messages it received are not those the server sent",
demo='''
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    ca.inq.put_nowait(b"junk from the attacker")
    async def cl():
        await c.handshake()
    r = await asyncio.gather(cl(), asyncio.wait_for(s.handshake(), 3), return_exceptions=True)
    expect(isinstance(r[0], SaltChannelException), "client: %r" % (r[0],))
run(main)
'''),
dict(id='c16-five-seconds', prop='C16', edits=[(U,"            return self.loop.run_until_complete(meth(*args, **kwargs))","            return self.loop.run_until_complete(asyncio.wait_for(meth(*args, **kwargs), 5))")],
needs="a channel on which one message takes more than five seconds",
breaks="the blocking call fails where the awaited one succeeds",
demo='''
class Slow(ByteChannel):
    async def read(self):
        await asyncio.sleep(6)
        return b"late"
    async def write(self, msg, *args, is_last=False):
        pass
from saltchannel.dev.mitm_channel import MitmChannel
e = EncryptedChannelV2(Slow(), bytes(32), Role.CLIENT)
try:
    e.read_sync()
    expect(False, "returned")
except BadPeer:
    pass
except Exception as x:
    expect(False, "%r" % x)
'''),
dict(id='c21-pair-in-object', prop='C21', edits=[(L,"        pk, sk = self.api.crypto_box_keypair_not_random(sec)\n        return KeyPair(sec=sk, pub=pk)","        self._pk, self._sk = self.api.crypto_box_keypair_not_random(sec)\n        return KeyPair(sec=self._sk, pub=self._pk)")],
needs="two threads that make encryption keys with the one SaltLib object, switched between the derivation and the result",
breaks="two threads get the same key pair",
demo='''
import threading
lib = SaltLib()
out = {}
for wait in range(6):
    # the second thread runs when the first one has executed so many lines
    out.clear()
    lines = [0]
    stop_at = wait + 1
    go, done = threading.Event(), threading.Event()
    def tr(frame, event, arg):
        if frame.f_code.co_name != "create_enc_keys_from_sec":
            return None
        def local(frame, event, arg):
            if event == "line":
                lines[0] += 1
                if lines[0] == stop_at:
                    go.set()
                    done.wait(5)
            return local
        return local
    def a():
        sys.settrace(tr)
        out[1] = lib.create_enc_keys_from_sec(b"1" * 32)
        sys.settrace(None)
        go.set()
    def b():
        go.wait(10)
        out[2] = lib.create_enc_keys_from_sec(b"2" * 32)
        done.set()
    ts = [threading.Thread(target=a), threading.Thread(target=b)]
    for t in ts: t.start()
    for t in ts: t.join(20)
    expect(bytes(out[1].sec) == b"1" * 32, "thread 1 got the key of thread 2")
    expect(bytes(out[2].sec) == b"2" * 32, "thread 2")
'''),
dict(id='c23-value-error', prop='C23', edits=[(CS,"                session.server_session(ch)\n","""                try:
                    session.server_session(ch)
                except ValueError:  # a client that talks nonsense: no more of it
                    threading.Thread(target=self.server.shutdown).start()
                    raise
""")],
needs="a server session that fails with ValueError, and a client after it",
breaks="the server stops serving: later clients wait for ever",
demo='''
import io, contextlib
from saltchannel.dev.client_server import MpClientServerPair, Session
got = []
class Mine(Session):
    def server_session(self, ch):
        m = ch.read_sync()
        if m == b"bad": raise ValueError("nonsense")
        ch.write_sync(m)
    def client_session(self, ch):
        n = len(got)
        got.append(None)
        ch.orig.sock.settimeout(5)
        ch.write_sync(b"bad" if n == 0 else b"hello")
        got[n] = ch.read_sync()
p = MpClientServerPair(Mine())
with contextlib.redirect_stderr(io.StringIO()):
    p.start_server()
    p.run_sessions(1, jitter=False)
    import time; time.sleep(1)
    p.run_sessions(1, jitter=False)
    expect(got == [None, b"hello"], "%r" % got)
    p.stop_server()
'''),
dict(id='c20-gone-quiet', prop='C20', edits=[(M,"    def read_sync(self):\n        data = self.orig.read_sync()\n","""    def read_sync(self):
        try:
            data = self.orig.read_sync()
        except ConnectionError:  # the peer has gone
            data = b''
""")],
needs="a wrapped channel whose blocking read fails with an error of the ConnectionError family",
breaks="the wrapped channel delivers an empty message instead of the error",
demo='''
from saltchannel.dev.mitm_channel import MitmChannel
class Dead(ByteChannel):
    async def read(self): raise ConnectionResetError("gone")
    async def write(self, msg, *args, is_last=False): pass
m = MitmChannel(Dead())
try:
    r = m.read_sync()
except ConnectionResetError:
    pass
else:
    expect(False, "read %r" % r)
'''),
]
