"""Stand-in for the TweetNaCl extension, which is not installed here: the same NaCl functions from PyNaCl's bindings, with the length
checks of the extension."""
from nacl import bindings as _b
from nacl.bindings import (crypto_sign_seed_keypair, crypto_box_beforenm, crypto_box_afternm,  # noqa: F401
                           crypto_box_open_afternm, crypto_scalarmult_base, crypto_hash, randombytes)


def crypto_sign(m, sk):
    if len(sk) != 64:
        raise ValueError("incorrect secret-key length")
    return _b.crypto_sign(m, sk)


def crypto_sign_open(sm, pk):
    if len(pk) != 32:
        raise ValueError("incorrect public-key length")
    return _b.crypto_sign_open(sm, pk)
