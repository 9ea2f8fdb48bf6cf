"""Child process of C18: arranges which crypto libraries exist, imports the package and answers requests.

argv[1]: JSON scenario. Prints one JSON object."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import env  # noqa: E402,F401

SC = json.loads(sys.argv[1])
out = {"answers": [], "stage": "arrange"}


def arrange():
    import ctypes
    import ctypes.util
    import importlib.abc
    import types

    import nacl.bindings as nb
    # what the TweetNaCl extension gives
    raw = types.ModuleType("tweetnacl.raw")
    for name in ("crypto_sign_seed_keypair", "crypto_sign", "crypto_sign_open", "crypto_box_beforenm", "crypto_box_afternm",
                 "crypto_box_open_afternm", "crypto_scalarmult_base", "crypto_hash", "randombytes"):
        setattr(raw, name, getattr(nb, name))
    blocked = set()
    broken = set()
    if SC["tweet"] == "broken":
        broken.add("tweetnacl")
    elif SC["tweet"]:
        pkg = types.ModuleType("tweetnacl")
        pkg.__path__ = []
        pkg.raw = raw
        sys.modules["tweetnacl"] = pkg
        sys.modules["tweetnacl.raw"] = raw
    else:
        blocked.add("tweetnacl")
    if SC["pynacl"] is not True:
        for m in [m for m in sys.modules if m == "nacl" or m.startswith("nacl.")]:
            del sys.modules[m]
        if SC["pynacl"] == "broken":          # installed, but its extension module cannot be loaded
            broken.add("nacl._sodium")
        else:
            blocked.add("nacl")

    class Block(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            if name.split(".")[0] in blocked:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            if name in broken or name.split(".")[0] in broken:
                raise ImportError("cannot load %s: undefined symbol" % name, name=name)
            return None
    sys.meta_path.insert(0, Block())

    if SC["native"] != "ok":
        find, init = ctypes.util.find_library, ctypes.CDLL.__init__

        def find_library(name):
            if "sodium" in str(name) and SC["native"] == "missing":
                return None
            return find(name)

        def cdll_init(self, name, *a, **k):
            if name is not None and "sodium" in str(name):
                raise OSError("%s: cannot open shared object file" % name)
            init(self, name, *a, **k)
        ctypes.util.find_library = find_library
        ctypes.CDLL.__init__ = cdll_init


def describe(f):
    from saltchannel.saltlib import NoSuchLibException
    try:
        api = f()
    except NoSuchLibException:
        return ["NoSuchLib"]
    except Exception as e:
        return ["error", "%s: %s" % (type(e).__name__, e)]
    if not hasattr(api, "crypto_box_afternm"):
        api = getattr(api, "api", api)
    # the name of the back end and proof that it works
    import hashlib
    ok = bytes(api.crypto_hash(b"abc")) == hashlib.sha512(b"abc").digest()
    return [type(api).__name__, ok]


def session():
    """A handshake and one message each way, on the package's own sessions."""
    import asyncio
    from saltchannel.channel import ByteChannel
    from saltchannel.saltlib import SaltLib
    from saltchannel.v2.salt_client_session import SaltClientSession
    from saltchannel.v2.salt_server_session import SaltServerSession

    class Q(ByteChannel):
        def __init__(self, i, o):
            super().__init__()
            self.i, self.o = i, o

        async def read(self):
            return await asyncio.wait_for(self.i.get(), 10)

        async def write(self, msg, *args, is_last=False):
            for m in (msg,) + args:
                self.o.put_nowait(bytes(m))

    async def go():
        a, b = asyncio.Queue(), asyncio.Queue()
        lib = SaltLib()
        ck, sk = lib.create_sig_keys(), lib.create_sig_keys()
        c, s = SaltClientSession(ck, Q(a, b)), SaltServerSession(sk, Q(b, a))
        c.enc_keypair, s.enc_keypair = lib.create_enc_keys(), lib.create_enc_keys()
        await asyncio.gather(c.handshake(), s.handshake())
        await c.app_channel.write(b"ping")
        r1 = await s.app_channel.read()
        await s.app_channel.write(b"pong")
        r2 = await c.app_channel.read()
        return [bytes(r1).decode(), bytes(r2).decode()]
    asyncio.set_event_loop(asyncio.new_event_loop())
    return asyncio.get_event_loop().run_until_complete(go())


def main():
    arrange()
    import importlib
    out["stage"] = "import"
    for m in ("saltchannel", "saltchannel.saltlib", "saltchannel.channel", "saltchannel.v2.packets", "saltchannel.a1a2.packets",
              "saltchannel.util.time", "saltchannel.v2.salt_client_session", "saltchannel.v2.salt_server_session",
              "saltchannel.a1a2.a1_client_session", "saltchannel.v2.app_channel_v2", "saltchannel.dev.mitm_channel",
              "saltchannel.saltlib.saltlib_native", "saltchannel.saltlib.saltlib_pynacl", "saltchannel.saltlib.saltlib_tweetnaclext",
              "saltchannel.saltlib.saltlib_pure"):
        importlib.import_module(m)
    from saltchannel.saltlib.saltlib import LibType, SaltLib
    out["stage"] = "requests"
    t = {"best": LibType.LIB_TYPE_BEST, "native": LibType.LIB_TYPE_NATIVE, "pynacl": LibType.LIB_TYPE_PYNACL, "tweet": LibType.LIB_TYPE_TWEETNACL_EXT}
    if SC["first"] == "default":
        out["first"] = describe(lambda: SaltLib())
    elif SC["first"]:
        out["first"] = describe(lambda: SaltLib(t[SC["first"]]))
    for r in SC["requests"]:
        if r == "default":
            out["answers"].append(describe(lambda: SaltLib.getLib()))
        else:
            out["answers"].append(describe(lambda: SaltLib.getLib(t[r])))
    out["stage"] = "packets"
    from saltchannel.v2.packets import M1Packet
    from saltchannel.a1a2.packets import A1Packet
    p = M1Packet()
    p.data.ClientEncKey = (type(p.data.ClientEncKey))(*range(32))
    out["m1"] = bytes(p).hex()
    out["a1"] = bytes(A1Packet()).hex()
    out["stage"] = "session"
    if SC["session"]:
        try:
            out["session"] = session()
        except Exception as e:
            out["session"] = "%s: %s" % (type(e).__name__, e)
    out["stage"] = "done"


try:
    main()
except BaseException as e:
    import traceback
    out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
print("\n@@" + json.dumps(out))
sys.stdout.flush()
os._exit(0)
