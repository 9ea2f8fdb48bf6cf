C='saltchannel/v2/salt_client_session.py'; U='saltchannel/util/__init__.py'; UT='saltchannel/util/time.py'
CS='saltchannel/dev/client_server.py'; M='saltchannel/dev/mitm_channel.py'
SEEDS = [
dict(id='c16-task-inside', prop='C16', edits=[(U,"            return self.loop.run_until_complete(meth(*args, **kwargs))","            coro = meth(*args, **kwargs)\n            return self.loop.create_task(coro) if self.loop.is_running() else self.loop.run_until_complete(coro)")],
needs="a blocking call made while the object's event loop is running",
breaks="the blocking call comes back at once with its work undone",
demo='''
sent = []
class Keep(ByteChannel):
    async def read(self):
        return b""
    async def write(self, msg, *args, is_last=False):
        sent.append(bytes(msg))
async def main():
    e = EncryptedChannelV2(Keep(), bytes(32), Role.CLIENT)
    try:
        e.write_sync(b"hello")
    except Exception:
        return
    expect(len(sent) == 1, "write_sync came back, nothing was written")
run(main)
'''),
dict(id='c19-bad-first', prop='C19', edits=[(UT,"        if time not in [0,1]:\n            raise BadPeer(\"bad first time, \" + str(time))","        if time not in [0,1]:\n            self.refused = True\n        if getattr(self, 'refused', False):\n            raise BadPeer(\"bad first time, \" + str(time))")],
needs="another session in the process whose peer began with an illegal first time",
breaks="from then on the handshakes of all other sessions are refused",
demo='''
from saltchannel.util.time import NullTimeKeeper, TimeKeeper
class Odd(TimeKeeper):
    def get_first_time(self):
        return 7
    def get_time(self):
        return 8
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    c.time_keeper = Odd()
    t = asyncio.ensure_future(c.handshake())
    try:
        await asyncio.wait_for(s.handshake(), 3)
        expect(False, "first time 7 accepted")
    except BadPeer:
        pass
    t.cancel()
    ca, cb = pair()
    c, s = sessions(ca, cb)
    r = await asyncio.gather(asyncio.wait_for(c.handshake(), 3), asyncio.wait_for(s.handshake(), 3), return_exceptions=True)
    expect(r == [None, None], "%r" % (r,))
run(main)
'''),
dict(id='c20-log-cut', prop='C20', edits=[(M,"len(log_record.data), log_record.data.hex()))","len(log_record.data), log_record.data[:32768].hex()))")],
needs="a message longer than 32768 bytes on a logging man-in-the-middle channel",
breaks="the log does not get the whole message",
demo='''
import logging
from saltchannel.dev.mitm_channel import MitmChannel
logging.disable(logging.NOTSET)
texts = []
class H(logging.Handler):
    def emit(self, record):
        texts.append(record.getMessage())
log = logging.getLogger("demo-c20")
log.setLevel(logging.INFO)
log.propagate = False
log.addHandler(H())
class Keep(ByteChannel):
    async def read(self):
        return b""
    async def write(self, msg, *args, is_last=False):
        pass
data = bytes(range(256)) * 256 + b"the end"
MitmChannel(Keep(), log=log).write_sync(data)
expect(any(data.hex() in t for t in texts), "message not in the log")
'''),
dict(id='c23-some-joined', prop='C23', edits=[(CS,"        for x in thread_list:\n            x.join()","        while len(thread_list) > 32:  # all but the latest are long done\n            thread_list.pop(0)\n        for x in thread_list:\n            x.join()")],
needs="more than 32 clients, one of the first of which takes longest",
breaks="run_sessions() returns while a client session is still running",
demo='''
import threading, time
from saltchannel.dev.client_server import MpClientServerPair, Session
ended, n, lock = [], [0], threading.Lock()
class Mine(Session):
    def server_session(self, channel):
        pass
    def client_session(self, channel):
        with lock:
            i = n[0]
            n[0] += 1
        if i == 0:
            time.sleep(1.5)
        ended.append(i)
p = MpClientServerPair(Mine())
p.start_server()
p.run_sessions(40, jitter=False)
k = len(ended)
p.stop_server()
expect(k == 40, "%d of 40 clients had ended" % k)
'''),
dict(id='c10-own-key', prop='C10', edits=[(C,"        \"\"\"Validates M3/Signature1.\"\"\"\n","        \"\"\"Validates M3/Signature1.\"\"\"\n        assert self.m3.ServerSigKey != self.sig_keypair.pub, \"connected to oneself\"\n")],
needs="an M3 that gives the client's own signing key as the server's",
breaks="AssertionError escapes from the handshake instead of a protocol error",
demo='''
async def main():
    ca, cb = pair()
    c, s = sessions(ca, cb)
    s.sig_keypair = c.sig_keypair.__class__(sec=s.sig_keypair.sec, pub=c.sig_keypair.pub)   # claims the client's key
    t = asyncio.ensure_future(s.handshake())
    try:
        await asyncio.wait_for(c.handshake(), 3)
        expect(False, "completed")
    except SaltChannelException:
        pass
    except Exception as e:
        expect(False, "%r" % e)
    finally:
        t.cancel()
run(main)
'''),
]
