"""Cryptographic primitives as uninterpreted functions.

With concrete arguments the real primitive runs.  With symbolic arguments the
result is an application of an uninterpreted function (congruent, consistent
with every concrete evaluation of the same function on the path), plus:
  AES          D(k, E(k, x)) = x and E(k, D(k, y)) = y for every application
  PKCS#1 v1.5  verify(key, digest, sig)  <=>  sig = SIGN(key, digest)
  PSS          verify is an uninterpreted predicate, true for produced sigs
  RSA decrypt  inverse of encrypt on produced ciphertexts; any other
               ciphertext may fail or give arbitrary octets (of the lengths a
               harness names)
Random sources return fresh symbols (or, where a harness asks, a fixed stream)
and are recorded as strong or weak.
"""
import hashlib
import hmac as _hmac
import os
import random as _random
import secrets
import sys

import z3

VENV = "/opt/venv/lib/python3.12/site-packages"
if VENV not in sys.path:
    sys.path.append(VENV)

import Cryptodome.Random
import Cryptodome.Random.random as CRandom
from Cryptodome.Cipher import AES, PKCS1_OAEP, PKCS1_v1_5 as C_PKCS1
from Cryptodome.Hash import HMAC, SHA, SHA1, SHA224, SHA256, SHA384, SHA512
from Cryptodome.PublicKey import RSA
from Cryptodome.Signature import PKCS1_PSS, PKCS1_v1_5, pkcs1_15, pss
from Cryptodome.Util import Counter, number, strxor as _strxor
from Cryptodome.Util import Padding

from . import core
from .core import (Sym, SymBytes, SymByteArray, SymInt, and_, concat_items,
                   has_sym, item_bv, mkbool, mkbytes, mkint, or_, simp,
                   split_bv, _fit, zb, PathLimit)
from .models import MODELS, OVERRIDES, model, _need_bytes, m_frombytes, m_isinstance

# real things, captured before anything is patched
REAL_HASH = {"SHA1": hashlib.sha1, "SHA224": hashlib.sha224,
             "SHA256": hashlib.sha256, "SHA384": hashlib.sha384,
             "SHA512": hashlib.sha512, "MD5": hashlib.md5}
DSIZE = {"SHA1": 20, "SHA224": 28, "SHA256": 32, "SHA384": 48, "SHA512": 64,
         "MD5": 16}
BSIZE = {"SHA1": 64, "SHA224": 64, "SHA256": 64, "SHA384": 128,
         "SHA512": 128, "MD5": 64}
CMOD = {"SHA1": SHA1, "SHA224": SHA224, "SHA256": SHA256, "SHA384": SHA384,
        "SHA512": SHA512}


class App(object):
    """One application of an uninterpreted function."""
    __slots__ = ("name", "args", "out", "real", "kind", "extra")

    def __init__(self, name, args, out, real, kind="fn", extra=None):
        self.name, self.args, self.out = name, args, out
        self.real, self.kind, self.extra = real, kind, extra


def conc(items):
    return all(isinstance(x, int) for x in items)


def uf(name, args, outlen, real, axioms=None):
    """args: list of item tuples; real: bytes... -> bytes."""
    c = core.CTX
    lens = tuple(len(a) for a in args)
    sig = (name, lens, outlen)
    fns = c.path_store.setdefault("uf", {})
    ent = fns.setdefault(sig, {"f": None, "conc": []})
    nz = [a for a in args if len(a)]
    if all(conc(a) for a in args):
        vals = [bytes(a) for a in args]
        out = real(*vals)
        key = tuple(vals)
        if key not in ent["conc"]:
            ent["conc"].append(key)
            if ent["f"] is not None and nz:
                c.fact(_capp(ent, nz, vals) == z3.BitVecVal(
                    int.from_bytes(out, "big"), 8 * outlen))
        return out
    c.uf_used[name] = c.uf_used.get(name, 0) + 1
    if ent["f"] is None:
        ent["f"] = z3.Function("%s_%s_%d" % (name, "_".join(
            str(n) for n in lens), outlen),
            *([z3.BitVecSort(8 * len(a)) for a in nz] +
              [z3.BitVecSort(8 * outlen)]))
        ent["apps"] = {}
        for vals in ent["conc"]:
            c.fact(_capp(ent, nz, vals) == z3.BitVecVal(
                int.from_bytes(real(*vals), "big"), 8 * outlen))
    es = [concat_items(a) for a in nz]
    key = tuple(e.get_id() for e in es)
    hit = ent["apps"].get(key)
    if hit is not None:
        return hit[2]
    e = ent["f"](*es)
    out = mkbytes(split_bv(e))
    ent["apps"][key] = (es, e, out)
    c.apps.append(App(name, [tuple(a) for a in args], e, real))
    if axioms:
        axioms(e, es)
    return out


def _capp(ent, nz, vals):
    return ent["f"](*[z3.BitVecVal(int.from_bytes(v, "big"), 8 * len(v))
                      for v in vals if len(v)])


# -- hashes ---------------------------------------------------------------------


def digest_of(alg, items):
    return uf(alg, [tuple(items)], DSIZE[alg],
              lambda m: REAL_HASH[alg](m).digest())


def hmac_of(alg, key, items):
    return uf("HMAC_" + alg, [tuple(key), tuple(items)], DSIZE[alg],
              lambda k, m: _hmac.new(k, m, alg.lower()).digest())


class HashModel(object):
    def __init__(self, alg, data=None):
        self.alg = alg
        self.buf = []
        self.digest_size = DSIZE[alg]
        self.block_size = BSIZE[alg]
        self.name = alg.lower()
        self.oid = getattr(CMOD.get(alg), "oid", None) or \
            (CMOD[alg].new().oid if alg in CMOD else None)
        if data is not None:
            self.update(data)

    def update(self, data):
        self.buf.extend(_need_bytes(data))
        return self

    def digest(self):
        return digest_of(self.alg, self.buf)

    def hexdigest(self):
        d = self.digest()
        return d.hex()

    def copy(self):
        h = HashModel(self.alg)
        h.buf = list(self.buf)
        return h

    def new(self, data=None):
        return HashModel(self.alg, data)


class HmacModel(HashModel):
    def __init__(self, key, alg):
        HashModel.__init__(self, alg)
        self.key = tuple(_need_bytes(key))

    def digest(self):
        return hmac_of(self.alg, self.key, self.buf)

    def verify(self, tag):
        if self.digest() != tag:
            raise ValueError("MAC check failed")

    def hexverify(self, t):
        if self.hexdigest() != t:
            raise ValueError("MAC check failed")

    def copy(self):
        h = HmacModel(mkbytes(self.key), self.alg)
        h.buf = list(self.buf)
        return h


def alg_of(d):
    """digestmod (module, name, constructor, hash object) -> alg name"""
    if isinstance(d, str):
        n = d.upper().replace("-", "")
        if n in DSIZE:
            return n
    if isinstance(d, HashModel):
        return d.alg
    for n, m in CMOD.items():
        if d is m or d is m.new:
            return n
    if d is SHA:
        return "SHA1"
    for n, f in REAL_HASH.items():
        if d is f:
            return n
    if callable(d):
        m = MODELS.get(id(d))
        if m is not None:
            h = m[1]()
            if isinstance(h, HashModel):
                return h.alg
        h = d()
        if isinstance(h, HashModel):
            return h.alg
        return h.name.upper().replace("-", "")
    n = getattr(d, "__name__", "").rsplit(".", 1)[-1]
    if n in DSIZE:
        return n
    raise PathLimit("unknown digest " + repr(d))


def _mkhash(alg):
    def new(data=None, *a, **k):
        if "string" in k:
            data = k["string"]
        return HashModel(alg, data)
    return new


for _n, _m in list(CMOD.items()):
    MODELS[id(_m.new)] = (_m.new, _mkhash(_n), False)
MODELS[id(SHA.new)] = (SHA.new, _mkhash("SHA1"), False)
for _n, _f in REAL_HASH.items():
    MODELS[id(_f)] = (_f, _mkhash(_n), False)


def m_hashlib_new(name, data=None, **k):
    return HashModel(alg_of(name), data)


MODELS[id(hashlib.new)] = (hashlib.new, m_hashlib_new, False)


def m_hmac_new(key, msg=None, digestmod=None):
    # Cryptodome: HMAC.new(key, msg=b"", digestmod=None -> MD5)
    h = HmacModel(key, alg_of(digestmod) if digestmod is not None else "MD5")
    if msg is not None:
        h.update(msg)
    return h


MODELS[id(HMAC.new)] = (HMAC.new, m_hmac_new, False)
MODELS[id(_hmac.new)] = (_hmac.new, m_hmac_new, False)
MODELS[id(_hmac.HMAC)] = (_hmac.HMAC, m_hmac_new, False)
MODELS[id(HMAC.HMAC)] = (HMAC.HMAC, m_hmac_new, False)
MODELS[id(_hmac.digest)] = (
    _hmac.digest, lambda key, msg, digest: m_hmac_new(key, msg,
                                                      digest).digest(), False)


# -- AES ------------------------------------------------------------------------


def aes_e(key, block):
    c = core.CTX

    def real(k, b):
        return AES.new(k, AES.MODE_ECB).encrypt(b)

    def ax(e, es):
        k = concat_items(key)
        d = _aes_fn(c, "AES_D", len(key))
        c.fact(d(k, e) == concat_items(block))
    r = _inverse("AES_D", key, block)
    if r is not None:
        return r
    if conc(key) and conc(block):
        return _both(c, "AES_E", "AES_D", key, block, real)
    return uf("AES_E", [tuple(key), tuple(block)], 16, real, ax)


def aes_d(key, block):
    c = core.CTX

    def real(k, b):
        return AES.new(k, AES.MODE_ECB).decrypt(b)

    def ax(e, es):
        k = concat_items(key)
        f = _aes_fn(c, "AES_E", len(key))
        c.fact(f(k, e) == concat_items(block))
    r = _inverse("AES_E", key, block)
    if r is not None:
        return r
    if conc(key) and conc(block):
        return _both(c, "AES_D", "AES_E", key, block, real)
    return uf("AES_D", [tuple(key), tuple(block)], 16, real, ax)


INVERSE = {
    "AES_E": lambda k, o: AES.new(k, AES.MODE_ECB).decrypt(o),
    "AES_D": lambda k, o: AES.new(k, AES.MODE_ECB).encrypt(o),
}


def _both(c, name, other, key, block, real):
    """A concrete evaluation is one of the inverse function too."""
    out = uf(name, [tuple(key), tuple(block)], 16, real)
    fns = c.path_store.setdefault("uf", {})
    ent = fns.setdefault((other, (len(key), 16), 16),
                         {"f": None, "conc": []})
    vals = (bytes(key), out)
    if vals not in ent["conc"]:
        ent["conc"].append(vals)
        if ent["f"] is not None:
            c.fact(_capp(ent, [1, 1], vals) == z3.BitVecVal(
                int.from_bytes(bytes(block), "big"), 128))
    return out


def _aes_fn(c, name, klen):
    """The function symbol, without an application."""
    fns = c.path_store.setdefault("uf", {})
    ent = fns.setdefault((name, (klen, 16), 16), {"f": None, "conc": []})
    if ent["f"] is None:
        ent["f"] = z3.Function("%s_%d_16_16" % (name, klen),
                               z3.BitVecSort(8 * klen), z3.BitVecSort(128),
                               z3.BitVecSort(128))
        ent["apps"] = {}
        for vals in ent["conc"]:
            f = AES.new(vals[0], AES.MODE_ECB)
            out = (f.encrypt if name == "AES_E" else f.decrypt)(vals[1])
            c.fact(_capp(ent, [1, 1], vals) == z3.BitVecVal(
                int.from_bytes(out, "big"), 128))
    return ent["f"]


def _inverse(name, key, block):
    """structural cancellation: block is exactly name(key, x) -> x"""
    e = concat_items(block)
    if z3.is_bv_value(e):
        return None
    if z3.is_app(e) and e.num_args() == 2 and \
            e.decl().name() == "%s_%d_16_16" % (name, len(key)):
        k = concat_items(key)
        if e.arg(0).eq(k):
            x = e.arg(1)
            return mkbytes(split_bv(x))
    return None


def xor_items(a, b):
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            out.append(x ^ y)
        else:
            e = simp(item_bv(x) ^ item_bv(y))
            out.append(e.as_long() if z3.is_bv_value(e) else e)
    return out


def xor_block(a, b):
    """xor of two equally long item lists as one vector"""
    if conc(a) and conc(b):
        return [x ^ y for x, y in zip(a, b)]
    return list(SymBytes.coerce(mkbytes(split_bv(simp(
        concat_items(a) ^ concat_items(b))))))


class AesModel(object):
    block_size = 16

    def __init__(self, key, mode, iv=None, counter=None, nonce=None,
                 mac_len=16, initial_value=0, **kw):
        key = _need_bytes(key)
        if len(key) not in (16, 24, 32):
            raise ValueError("Incorrect AES key length (%d bytes)" % len(key))
        self.key = key
        self.mode = mode
        if mode == AES.MODE_CBC:
            if iv is None:
                raise PathLimit("AES CBC without an IV")
            iv = _need_bytes(iv)
            if len(iv) != 16:
                raise ValueError("Incorrect IV length (it must be 16 bytes "
                                 "long)")
            self.prev = list(iv)
        elif mode == AES.MODE_CTR:
            if counter is None:
                if nonce is None:
                    raise PathLimit("AES CTR without nonce")
                n = _need_bytes(nonce)
                counter = {"counter_len": 16 - len(n),
                           "prefix": mkbytes(n), "suffix": b"",
                           "initial_value": initial_value,
                           "little_endian": False}
            self.ctr = counter
            self.n = counter["initial_value"]
            self.stream = []
        elif mode == AES.MODE_GCM:
            self.nonce = _need_bytes(nonce if nonce is not None else iv)
            self.mac_len = mac_len
            self.aad = []
            self.ct = []
            self.stream = []
            self.n = 2
            if len(self.nonce) != 12:
                raise PathLimit("GCM nonce length")
            self.ctr = {"counter_len": 4, "prefix": mkbytes(self.nonce),
                        "suffix": b"", "little_endian": False}
        elif mode != AES.MODE_ECB:
            raise PathLimit("AES mode %r" % mode)

    def _blocks(self, data, what):
        it = _need_bytes(data)
        if len(it) % 16:
            raise ValueError("Data must be %s in %s mode" % (
                "aligned to block boundary" if self.mode == AES.MODE_ECB
                else "padded to 16 byte boundary", what))
        return [it[i:i + 16] for i in range(0, len(it), 16)]

    def _keystream(self, n):
        out = self.stream
        while len(out) < n:
            c = self.ctr
            L = c["counter_len"]
            v = self.n % (1 << (8 * L))
            cb = list(v.to_bytes(L, "big"))
            if c["little_endian"]:
                cb = cb[::-1]
            blk = _need_bytes(c["prefix"]) + cb + _need_bytes(c["suffix"])
            if len(blk) != 16:
                raise ValueError("Incorrect counter block size")
            out.extend(SymBytes.coerce(aes_e(self.key, blk)))
            self.n += 1
        self.stream = out[n:]
        return out[:n]

    def encrypt(self, data):
        if self.mode == AES.MODE_ECB:
            out = []
            for b in self._blocks(data, "ECB"):
                out.extend(SymBytes.coerce(aes_e(self.key, b)))
            return mkbytes(out)
        if self.mode == AES.MODE_CBC:
            out = []
            for b in self._blocks(data, "CBC"):
                o = aes_e(self.key, xor_block(b, self.prev))
                self.prev = list(SymBytes.coerce(o))
                out.extend(self.prev)
            return mkbytes(out)
        it = _need_bytes(data)
        r = xor_items(it, self._keystream(len(it)))
        if self.mode == AES.MODE_GCM:
            self.ct.extend(r)
        return mkbytes(r)

    def decrypt(self, data):
        if self.mode == AES.MODE_ECB:
            out = []
            for b in self._blocks(data, "ECB"):
                out.extend(SymBytes.coerce(aes_d(self.key, b)))
            return mkbytes(out)
        if self.mode == AES.MODE_CBC:
            out = []
            for b in self._blocks(data, "CBC"):
                o = SymBytes.coerce(aes_d(self.key, b))
                out.extend(xor_block(list(o), self.prev))
                self.prev = list(b)
            return mkbytes(out)
        it = _need_bytes(data)
        r = xor_items(it, self._keystream(len(it)))
        if self.mode == AES.MODE_GCM:
            self.ct.extend(it)
        return mkbytes(r)

    # GCM extras
    def update(self, data):
        self.aad.extend(_need_bytes(data))
        return self

    def digest(self):
        return ref_gcm_tag(self.key, self.nonce, self.aad,
                           self.ct)[:self.mac_len]

    def verify(self, tag):
        if not (self.digest() == tag):
            raise ValueError("MAC check failed")

    def encrypt_and_digest(self, data):
        c = self.encrypt(data)
        return c, self.digest()

    def decrypt_and_verify(self, data, tag):
        p = self.decrypt(data)
        self.verify(tag)
        return p


def gf_mul_const(h, n128):
    """x -> x*h in GF(2^128) (GCM bit order) for constant h, as xor of basis
    vectors; returns list of 128 constants for bit i (lsb = index 0)."""
    basis = [0] * 128
    v = h
    for i in range(127, -1, -1):
        basis[i] = v
        v = (v >> 1) ^ (0xE1000000000000000000000000000000 if v & 1 else 0)
    return basis


def ref_gcm_tag(key, nonce, aad, ct):
    """GHASH/tag straight from SP 800-38D, for a constant hash subkey."""
    h = aes_e(key, [0] * 16)
    if not isinstance(h, bytes):
        raise PathLimit("GHASH under a symbolic key")
    basis = gf_mul_const(int.from_bytes(h, "big"), 128)
    data = list(aad) + [0] * (-len(aad) % 16) + list(ct) + \
        [0] * (-len(ct) % 16)
    data += list((8 * len(aad)).to_bytes(8, "big"))
    data += list((8 * len(ct)).to_bytes(8, "big"))
    if conc(data):
        y = 0
        for i in range(0, len(data), 16):
            x = y ^ int.from_bytes(bytes(data[i:i + 16]), "big")
            y = 0
            for j in range(128):
                if (x >> j) & 1:
                    y ^= basis[j]
        yb = list(y.to_bytes(16, "big"))
    else:
        core.CTX.path_store["linear"] = True
        cache = core.lin_cache()
        y = [0] * 128
        for i in range(0, len(data), 16):
            blk = concat_items(data[i:i + 16])
            x = [a ^ b for a, b in zip(y, core.lin_bits(blk, cache))]
            y = [0] * 128
            for j in range(128):
                if x[j]:
                    b = basis[j]
                    for t in range(128):
                        if (b >> t) & 1:
                            y[t] ^= x[j]
        yb = split_bv(core.lin_expr(y, cache))
    mask = SymBytes.coerce(aes_e(key, list(nonce) + [0, 0, 0, 1]))
    return mkbytes(xor_items(yb, mask))


def m_aes_new(key, mode, *a, **k):
    if a:
        if mode == AES.MODE_CBC:
            k["iv"] = a[0]
        elif mode == AES.MODE_GCM:
            k["nonce"] = a[0]
    if "IV" in k:
        k["iv"] = k.pop("IV")
    return AesModel(key, mode, **k)


MODELS[id(AES.new)] = (AES.new, m_aes_new, False)


def m_counter_new(nbits, prefix=b"", suffix=b"", initial_value=1,
                  little_endian=False, allow_wraparound=False):
    if nbits % 8:
        raise ValueError("'nbits' must be a multiple of 8")
    return {"counter_len": nbits // 8, "prefix": prefix, "suffix": suffix,
            "initial_value": core._ix(initial_value),
            "little_endian": little_endian}


MODELS[id(Counter.new)] = (Counter.new, m_counter_new, False)


# -- number helpers -----------------------------------------------------------


@model(number.bytes_to_long)
def m_btl(s):
    it = _need_bytes(s)
    if not it:
        return 0
    return m_frombytes(mkbytes(it))


@model(number.long_to_bytes)
def m_ltb(n, blocksize=0):
    """Cryptodome: big endian, no leading zeros, padded to a multiple of
    blocksize."""
    blocksize = core._ix(blocksize)
    if n < 0 or blocksize < 0:
        raise ValueError("Values must be non-negative")
    if isinstance(n, int):
        return number.long_to_bytes(n, blocksize)
    nb = 1
    maxb = max(1, (n.hi.bit_length() + 7) // 8)
    if blocksize:
        nb = blocksize
        while nb < maxb and n >= (1 << (8 * nb)):
            nb += blocksize
    else:
        while nb < maxb and n >= (1 << (8 * nb)):
            nb += 1
    return mkbytes(split_bv(_fit(n.e, 8 * nb, False)))


@model(_strxor.strxor)
def m_strxor(a, b, output=None):
    x, y = _need_bytes(a), _need_bytes(b)
    if len(x) != len(y):
        raise ValueError("length mismatch")
    return mkbytes(xor_items(x, y))


@model(Padding.pad)
def m_pad(data, block_size, style="pkcs7"):
    n = block_size - len(data) % block_size
    if style != "pkcs7":
        raise PathLimit("padding style")
    return data + bytes([n]) * n


@model(Padding.unpad)
def m_unpad(data, block_size, style="pkcs7"):
    if style != "pkcs7":
        raise PathLimit("padding style")
    if len(data) == 0 or len(data) % block_size:
        raise ValueError("Input data is not padded")
    n = data[-1]
    if or_(n < 1, n > min(block_size, len(data))):
        raise ValueError("Padding is incorrect.")
    n = core._ix(n)
    if data[-n:] != bytes([n]) * n:
        raise ValueError("PKCS#7 padding is incorrect.")
    return data[:-n]


@model(number.inverse)
def m_inverse(u, v):
    raise PathLimit("number.inverse on symbolic")


# -- RSA ------------------------------------------------------------------------

def FIXED(n):
    """Padding and salt octets drawn inside a primitive when a model is made
    concrete (the replay uses the same)."""
    return b"\x5a" * n


KEYRING = {}      # n -> real private key


def keyid(key):
    return getattr(key, "n", None)


def priv(key):
    if key.has_private():
        return key
    k = KEYRING.get(int(key.n))
    if k is None:
        raise PathLimit("no private key known for realisation")
    return k


class _NoKey(object):
    """not an RSA key: the library notices at the first use"""

    def __init__(self, o):
        self.__dict__["o"] = o

    def __getattr__(self, n):
        try:
            return getattr(self.__dict__["o"], n)
        except AttributeError as e:
            e.modelled = True
            raise


def _rsakey(k):
    return k if isinstance(k, RSA.RsaKey) or hasattr(k, "has_private") \
        else _NoKey(k)


def klen(key):
    return (key.n.bit_length() + 7) // 8


def _rsa_ok(key):
    return isinstance(key, RSA.RsaKey)


class _Digest(object):
    pass


def real_digest_obj(alg, dg):
    """A Cryptodome-like hash object with a given digest value."""
    class H(object):
        digest_size = DSIZE[alg]
        block_size = BSIZE[alg]
        oid = CMOD[alg].new().oid

        def digest(self):
            return dg

        def new(self, data=None):
            return CMOD[alg].new(data)
    return H()


def real_pss_hash(alg, dg):
    h = CMOD[alg].new()

    class W(object):
        digest_size = h.digest_size
        block_size = h.block_size
        oid = h.oid

        def digest(self):
            return dg

        def new(self, data=b""):
            return CMOD[alg].new(data)
    W.__module__ = CMOD[alg].__name__
    return W()


def _pkcs_em(alg, dg, k):
    """EMSA-PKCS1-v1_5 per RFC 8017."""
    prefix = {
        "SHA1": "3021300906052b0e03021a05000414",
        "SHA256": "3031300d060960864801650304020105000420",
        "SHA384": "3041300d060960864801650304020205000430",
        "SHA512": "3051300d060960864801650304020305000440"}[alg]
    t = bytes.fromhex(prefix) + dg
    if k < len(t) + 11:
        raise ValueError("key too short")
    return b"\x00\x01" + b"\xff" * (k - len(t) - 3) + b"\x00" + t


def real_pkcs_sign(key, alg, dg):
    p = priv(key)
    em = int.from_bytes(_pkcs_em(alg, dg, klen(key)), "big")
    return pow(em, int(p.d), int(p.n)).to_bytes(klen(key), "big")


def pkcs_sign_uf(key, alg, dg):
    return uf("RS_%s_%x" % (alg, int(key.n) & 0xffffffff),
              [tuple(_need_bytes(dg))], klen(key),
              lambda d: real_pkcs_sign(key, alg, d))


class PkcsSig(object):
    legacy = True

    def __init__(self, key):
        self.key = _rsakey(key)

    def can_sign(self):
        return self.key.has_private()

    def sign(self, h):
        if not self.key.has_private():
            raise TypeError("This is not a private key")
        return pkcs_sign_uf(self.key, h.alg, h.digest())

    def _ver(self, h, sig):
        it = _need_bytes(sig)
        if len(it) != klen(self.key):
            return False
        return pkcs_sign_uf(self.key, h.alg, h.digest()) == mkbytes(it)

    def verify(self, h, sig):
        r = self._ver(h, sig)
        if self.legacy:
            return r
        if not r:
            raise ValueError("Invalid signature")


class PkcsSigNew(PkcsSig):
    legacy = False


class PssSig(object):
    legacy = True

    def __init__(self, key, **kw):
        self.key = _rsakey(key)
        if any(v is not None for v in kw.values()):
            self.tag = "_".join("%s=%s" % (a, b) for a, b in sorted(
                kw.items()))
        else:
            self.tag = ""

    def can_sign(self):
        return self.key.has_private()

    def _pred(self, alg, dg):
        c = core.CTX
        name = "PS_%s_%x%s" % (alg, int(self.key.n) & 0xffffffff, self.tag)
        d = item_all(dg)
        f = z3.Function(name, z3.BitVecSort(8 * len(dg)),
                        z3.BitVecSort(8 * klen(self.key)), z3.BoolSort())
        c.uf_used[name] = c.uf_used.get(name, 0) + 1
        return f, d

    def _small(self, h):
        return (self.key.n.bit_length() - 1 + 7) // 8 < 2 * h.digest_size + 2

    def sign(self, h):
        c = core.CTX
        if not self.key.has_private():
            raise TypeError("This is not a private key")
        if self._small(h):
            raise ValueError("Digest or salt length are too long for given "
                             "key size.")
        dg = h.digest()
        if isinstance(dg, bytes):
            sig = _pss_sign(self.key, h.alg)(dg)
            f, d = self._pred(h.alg, dg)
            c.fact(f(d, z3.BitVecVal(int.from_bytes(sig, "big"),
                                     8 * len(sig))))
            return sig
        f, d = self._pred(h.alg, dg)
        n = klen(self.key)
        sig = c.fresh("pss_sig", 8 * n)
        c.add(f(d, sig))
        c.apps.append(App("PSS", [tuple(_need_bytes(dg))], sig,
                          _pss_sign(self.key, h.alg), "pss",
                          None))
        return mkbytes(split_bv(sig))

    def verify(self, h, sig):
        c = core.CTX
        it = _need_bytes(sig)
        ok = False
        if len(it) == klen(self.key) and not self._small(h):
            dg = h.digest()
            if conc(it) and isinstance(dg, bytes):
                v = pss.new(self.key)
                try:
                    v.verify(real_pss_hash(h.alg, dg), bytes(it))
                    ok = True
                except ValueError:
                    ok = False
            else:
                f, d = self._pred(h.alg, dg)
                e = concat_items(it)
                ok = mkbool(f(d, e))
                if isinstance(ok, core.SymBool):
                    v = bool(ok)
                    if v and not any(a.kind == "pss" and a.out.eq(e)
                                     for a in c.apps):
                        c.apps.append(App("PSS", [tuple(_need_bytes(dg))], e,
                                          _pss_sign(self.key, h.alg), "pss"))
                    ok = v
        if self.legacy:
            return ok
        if not ok:
            raise ValueError("Incorrect signature")


def _pss_sign(key, alg):
    def real(dg):
        return pss.new(priv(key), rand_func=FIXED).sign(
            real_pss_hash(alg, dg))
    return real


def item_all(b):
    return concat_items(SymBytes.coerce(b))


def _mk_sig(cls, real):
    def new(key, **kw):
        return cls(key, **kw)
    MODELS[id(real)] = (real, new, False)


def _pss_new(cls):
    def new(key, mgfunc=None, saltLen=None, randfunc=None, mask_func=None,
            salt_bytes=None, rand_func=None):
        return cls(key, mgf=mgfunc or mask_func,
                   salt=saltLen if saltLen is not None else salt_bytes)
    return new


MODELS[id(PKCS1_v1_5.new)] = (PKCS1_v1_5.new, PkcsSig, False)
MODELS[id(pkcs1_15.new)] = (pkcs1_15.new, PkcsSigNew, False)


class PssSigNew(PssSig):
    legacy = False


# -- ECDSA on full-size curves -----------------------------------------------
# Whether a signature is valid is a relation of hash, signature and public
# point; used where the harness asks for it (S.model_ec): the arithmetic
# itself is decided by C10 and C11 on small curves.

EW = 66 * 8
CURVES = {256: "P-256", 384: "P-384", 521: "P-521"}


def _ec_pred(bits, x):
    c = core.CTX
    name = "ES_%d_%x" % (bits, int(x) & 0xffffffff)
    n = 2 * ((bits + 7) // 8)
    c.uf_used[name] = c.uf_used.get(name, 0) + 1
    return z3.Function(name, z3.BitVecSort(EW), z3.BitVecSort(8 * n),
                       z3.BoolSort())


def _ec_h(h):
    if isinstance(h, SymInt):
        return simp(_fit(h.e, EW, False))
    return z3.BitVecVal(int(h), EW)


def ec_real_sign(bits, d):
    """deterministic signature for realisation"""
    from Cryptodome.PublicKey import ECC
    name = CURVES[bits]
    N = int(ECC._curves[name].order)
    n = (bits + 7) // 8
    k = int.from_bytes(FIXED(n), "big") & ((1 << bits) - 1)
    k = k % (N - 1) + 1
    x = int(ECC.construct(curve=name, d=k).pointQ.x)

    def real(hb):
        h = int.from_bytes(hb, "big")
        h >>= max(0, h.bit_length() - N.bit_length())
        r = x % N
        s = pow(k, -1, N) * (h + r * d) % N
        return r.to_bytes(n, "big") + s.to_bytes(n, "big")
    return real


def _ec_app(bits, x, h, e, d=None):
    c = core.CTX
    if d is None:
        d = KEYRING.get(("EC", int(x)))
    if d is None:
        raise PathLimit("no private key known for realisation")
    if not any(a.kind == "es" and a.out.eq(e) for a in c.apps):
        c.apps.append(App("ES", [tuple(split_bv(_ec_h(h)))], e,
                          ec_real_sign(bits, d), "es"))


def _ec_check(bits, x, h, it):
    f = _ec_pred(bits, x)
    e = concat_items(it)
    ok = mkbool(f(_ec_h(h), e))
    if isinstance(ok, core.SymBool):
        ok = bool(ok)
        if ok:
            _ec_app(bits, x, h, e)
    return ok


def ec_verify(f, self, h, sig, pub):
    if not core.has_sym((h, sig, pub)):
        return f(self, h, sig, pub)
    if core.has_sym(pub):
        raise PathLimit("symbolic public key on a full-size curve")
    it = _need_bytes(sig)
    if len(it) != 2 * self.bytes:
        return False
    return _ec_check(self.bits, pub[0], h, it)


def ec_sign(f, self, h, priv, k=None):
    c = core.CTX
    if not core.has_sym((h, priv, k)):
        return f(self, h, priv, k)
    if core.has_sym((priv, k)):
        raise PathLimit("symbolic private key on a full-size curve")
    from Cryptodome.PublicKey import ECC
    n = 2 * self.bytes
    if k is None:
        v = int.from_bytes(FIXED(self.bytes), "big") & ((1 << self.bits) - 1)
        c.random.append((True, "bits", self.bits, v))
        c.path_store["loose"] = True
    x = int(ECC.construct(curve=CURVES[self.bits], d=priv).pointQ.x)
    sig = c.fresh("es_sig", 8 * n)
    c.add(_ec_pred(self.bits, x)(_ec_h(h), sig))
    _ec_app(self.bits, x, h, sig, priv)
    return mkbytes(split_bv(sig))


def model_ec():
    from jwkest.ecc import NISTEllipticCurve as C
    for name, m in (("verify", ec_verify), ("sign", ec_sign)):
        f = C.__dict__.get(name)
        if f is not None:
            OVERRIDES[id(f)] = (f, m)
    core.CTX.path_store["ec"] = True


class DssSig(object):
    """Cryptodome's DSS with the same relation"""

    def __init__(self, key, mode, encoding="binary", randfunc=None):
        self.key, self.real = key, REAL_DSS(key, mode, encoding)
        self.bits = dict((v, k) for k, v in CURVES.items()).get(
            {"NIST P-256": "P-256", "NIST P-384": "P-384",
             "NIST P-521": "P-521"}.get(key.curve, key.curve))

    def verify(self, h, sig):
        it = _need_bytes(sig)
        dg = h.digest()
        if conc(it) and isinstance(dg, bytes):
            return self.real.verify(real_pss_hash(h.alg, dg), bytes(it))
        n = 2 * ((self.bits + 7) // 8)
        if len(it) != n or not _ec_check(self.bits, self.key.pointQ.x,
                                         m_btl(dg), it):
            raise ValueError("The signature is not authentic")
        return False


from Cryptodome.Signature import DSS  # noqa
REAL_DSS = DSS.new


MODELS[id(DSS.new)] = (DSS.new, DssSig, False)
MODELS[id(PKCS1_PSS.new)] = (PKCS1_PSS.new, _pss_new(PssSig), False)
MODELS[id(pss.new)] = (pss.new, _pss_new(PssSigNew), False)


class RsaCipher(object):
    """OAEP (hash) or PKCS#1 v1.5 encryption."""

    def __init__(self, key, scheme, hashalg=None):
        self.key = _rsakey(key)
        self.scheme = scheme
        self.hashalg = hashalg

    def can_encrypt(self):
        return True

    def can_decrypt(self):
        return self.key.has_private()

    def _id(self):
        return (int(self.key.n), self.scheme)

    def _real_enc(self, m):
        pub = self.key.public_key() if self.key.has_private() else self.key
        if self.scheme == "1_5":
            return C_PKCS1.new(pub, randfunc=FIXED).encrypt(m)
        return PKCS1_OAEP.new(pub, CMOD[self.hashalg],
                              randfunc=FIXED).encrypt(m)

    def encrypt(self, msg):
        c = core.CTX
        it = tuple(_need_bytes(msg))
        n = klen(self.key)
        if self.scheme == "1_5":
            if len(it) > n - 11:
                raise ValueError("Plaintext is too long.")
        elif len(it) > n - 2 - 2 * DSIZE[self.hashalg]:
            raise ValueError("Plaintext is too long.")
        e = c.fresh("rsa_ct", 8 * n)
        ct = tuple(split_bv(e))
        # one ciphertext has one plaintext
        for ident, m2, e2 in c.path_store.get("rsaenc", []):
            if ident == self._id():
                same = len(m2) == len(it) and (
                    not it or concat_items(it) == concat_items(m2))
                c.add(z3.Implies(e == e2, same if not isinstance(
                    same, bool) else z3.BoolVal(same)))
        c.path_store.setdefault("rsaenc", []).append((self._id(), it, e))
        c.apps.append(App("RSAENC", [it], e, self._real_enc, "rsaenc"))
        return mkbytes(ct)

    def decrypt(self, ct, sentinel=None, expected_pt_len=0):
        c = core.CTX
        if not self.key.has_private():
            raise TypeError("This is not a private key")
        it = tuple(_need_bytes(ct))
        n = klen(self.key)

        def fail():
            if self.scheme == "1_5":
                return sentinel
            raise ValueError("Incorrect decryption.")
        if len(it) != n:
            raise ValueError("Ciphertext with incorrect length.")
        if conc(it):
            it = bytes(it)
            if self.scheme == "1_5":
                r = C_PKCS1.new(self.key).decrypt(it, None)
            else:
                try:
                    r = PKCS1_OAEP.new(self.key, CMOD[self.hashalg]).decrypt(
                        it)
                except ValueError:
                    r = None
            v = z3.BitVecVal(int.from_bytes(it, "big"), 8 * n)
            for ident, m, e2 in c.path_store.get("rsaenc", []):
                if ident == self._id():
                    if r is None or len(r) != len(m):
                        c.add(e2 != v)
                    elif m:
                        c.add(z3.Implies(e2 == v, concat_items(m) ==
                                         concat_items(tuple(r))))
            return fail() if r is None else r
        e = concat_items(it)
        for ident, m, e2 in c.path_store.get("rsaenc", []):
            if ident == self._id() and bool(mkbool(e == e2)):
                return mkbytes(m)
        for ident, m, e2 in c.path_store.get("rsadec", []):
            if ident == self._id() and e2.eq(e):
                return fail() if m is None else mkbytes(m)
        lens = c.path_store.get("rsa_plain_lens", [])
        i = c.choose(1 + len(lens), "rsa-decrypt")
        st = c.path_store.setdefault("rsadec", [])
        if i == 0:
            st.append((self._id(), None, e))
            return fail()
        m = tuple(split_bv(c.fresh("rsa_pt", 8 * lens[i - 1])))
        st.append((self._id(), m, e))
        c.apps.append(App("RSAENC", [m], e, self._real_enc, "rsaenc"))
        return mkbytes(m)


def m_oaep_new(key, hashAlgo=None, mgfunc=None, label=b"", randfunc=None):
    if mgfunc is not None or label != b"":
        raise PathLimit("OAEP options")
    alg = alg_of(hashAlgo) if hashAlgo is not None else "SHA1"
    return RsaCipher(key, "OAEP-" + alg, alg)


MODELS[id(PKCS1_OAEP.new)] = (PKCS1_OAEP.new, m_oaep_new, False)
MODELS[id(C_PKCS1.new)] = (C_PKCS1.new,
                           lambda key, randfunc=None: RsaCipher(key, "1_5"),
                           False)


class FakeRsa(RSA.RsaKey):
    """An RSA key whose numbers are symbolic (only carried around)."""

    def __init__(self, n, e, d=None, p=None, q=None):
        self._fn = dict(n=n, e=e)
        if d is not None:
            self._fn["d"] = d
        if p is not None:
            self._fn["p"] = p
        if q is not None:
            self._fn["q"] = q

    def __getattr__(self, k):
        fn = self.__dict__.get("_fn", {})
        if k in fn:
            return fn[k]
        if k in ("d", "p", "q", "u"):
            raise AttributeError("No private exponent available")
        raise AttributeError(k)

    n = property(lambda s: s._fn["n"])
    e = property(lambda s: s._fn["e"])

    @property
    def d(self):
        if "d" not in self._fn:
            raise AttributeError("No private exponent available for public "
                                 "keys")
        return self._fn["d"]

    @property
    def p(self):
        if "p" not in self._fn:
            raise AttributeError("No p")
        return self._fn["p"]

    @property
    def q(self):
        if "q" not in self._fn:
            raise AttributeError("No q")
        return self._fn["q"]

    def has_private(self):
        return "d" in self._fn

    def __repr__(self):
        return "<FakeRsa>"

    def __eq__(self, o):
        return isinstance(o, FakeRsa) and bool(and_(self.n == o.n,
                                                    self.e == o.e))
    __hash__ = None


@model(RSA.construct)
def m_construct(comps, consistency_check=True):
    comps = list(comps)
    n, e = comps[:2]
    if len(comps) > 2:
        # a private key with symbolic parts: its arithmetic consistency is
        # assumed (generated keys are consistent)
        core.CTX.path_store["rsa_consistent"] = True
        return FakeRsa(*comps[:5])
    if or_(e <= 1, e >= n):
        raise ValueError("Invalid RSA public exponent")
    if (n & 1) == 0:
        raise ValueError("RSA modulus is not odd")
    if (e & 1) == 0:
        raise ValueError("Invalid RSA public exponent")
    return FakeRsa(n, e)


# -- random ------------------------------------------------------------------------


def _policy(pol, idx, n):
    """what the harness wants a draw of n octets to be: octets, a number,
    ("bits", b) for any number of b bits (one per path with ("fix", b)), or
    None for any"""
    v = pol(idx, n)
    if isinstance(v, tuple):
        kind = v[0]
        v = mkint(core.CTX.fresh("rndlow%d" % idx, v[1]), 0, (1 << v[1]) - 1)
        if kind == "fix" and isinstance(v, SymInt):
            v = v.__index__()
    if isinstance(v, (int, SymInt)):
        v = v.to_bytes(n, "big")
    if v is None:
        v = mkbytes([core.CTX.fresh("rnd%d_%d" % (idx, i), 8)
                     for i in range(n)])
    return v


def _rand_bytes(n, strong):
    c = core.CTX
    n = core._ix(n)
    pol = c.path_store.get("random", "symbolic")
    idx = len(c.random)
    if pol == "symbolic":
        v = mkbytes([c.fresh("rnd%d_%d" % (idx, i), 8) for i in range(n)])
    elif callable(pol):
        v = _policy(pol, idx, n)
    else:
        v = stream(idx, n)
    c.random.append((strong, "bytes", n, v))
    return v


def stream(idx, n):
    out = b""
    k = 0
    while len(out) < n:
        out += hashlib.sha256(b"verif-stream-%d-%d" % (idx, k)).digest()
        k += 1
    return out[:n]


def _rand_bits(k, strong):
    c = core.CTX
    k = core._ix(k)
    pol = c.path_store.get("random", "symbolic")
    idx = len(c.random)
    if pol == "symbolic":
        v = mkint(c.fresh("rndbits%d" % idx, max(1, k)), 0, (1 << k) - 1)
    elif callable(pol):
        b = _policy(pol, idx, (k + 7) // 8)
        v = m_btl(b) & ((1 << k) - 1) if isinstance(b, Sym) else \
            int.from_bytes(b, "big") & ((1 << k) - 1)
    else:
        v = int.from_bytes(stream(idx, (k + 7) // 8), "big") & ((1 << k) - 1)
    c.random.append((strong, "bits", k, v))
    return v


def _rand_below(lo, hi, strong):
    """uniform in [lo, hi)"""
    c = core.CTX
    n = hi - lo
    if n <= 0:
        raise ValueError("empty range")
    pol = c.path_store.get("random", "symbolic")
    idx = len(c.random)
    bits = n.bit_length()
    if pol == "symbolic":
        v = mkint(c.fresh("rndrange%d" % idx, bits), 0, (1 << bits) - 1)
        c.assume(v < n)
        v = mkint(v.e, 0, n - 1) if isinstance(v, SymInt) else v
    elif callable(pol):
        b = _policy(pol, idx, (bits + 7) // 8)
        v = (m_btl(b) if isinstance(b, Sym) else
             int.from_bytes(b, "big")) % n
    else:
        v = int.from_bytes(stream(idx, (bits + 7) // 8 + 8), "big") % n
    c.random.append((strong, "below", n, v))
    return v + lo


class RandFile(object):
    def read(self, n):
        return _rand_bytes(n, True)

    def flush(self):
        pass

    def reinit(self):
        pass

    def close(self):
        pass


def _always(f, m):
    MODELS[id(f)] = (f, m, False)


_always(Cryptodome.Random.get_random_bytes, lambda n: _rand_bytes(n, True))
_always(Cryptodome.Random.new, lambda *a, **k: RandFile())
_always(os.urandom, lambda n: _rand_bytes(n, True))
_always(secrets.token_bytes, lambda n=32: _rand_bytes(n, True))
_always(secrets.randbits, lambda k: _rand_bits(k, True))
_always(secrets.randbelow, lambda n: _rand_below(0, n, True))
_always(CRandom.getrandbits, lambda k: _rand_bits(k, True))
_always(CRandom.randint, lambda a, b: _rand_below(a, b + 1, True))
_always(CRandom.randrange, lambda *a: _rand_below(
    *((0, a[0]) if len(a) == 1 else a[:2]), True))
_always(number.getRandomRange,
        lambda a, b, randfunc=None: _rand_below(a, b, True))
_always(number.getRandomInteger,
        lambda n, randfunc=None: _rand_bits(n, True))
_always(_random.getrandbits, lambda k: _rand_bits(k, False))
_always(_random.randint, lambda a, b: _rand_below(a, b + 1, False))
_always(_random.randrange, lambda *a: _rand_below(
    *((0, a[0]) if len(a) == 1 else a[:2]), False))
if hasattr(_random, "randbytes"):
    _always(_random.randbytes, lambda n: _rand_bytes(n, False))
# bound methods of fresh generators: by function
for _cls, _strong in ((_random.SystemRandom, True),):
    MODELS[id(_cls.getrandbits)] = (
        _cls.getrandbits, lambda self, k: _rand_bits(k, True), False)
MODELS[id(_random.Random.randint)] = (
    _random.Random.randint, lambda self, a, b: _rand_below(
        a, b + 1, isinstance(self, _random.SystemRandom)), False)
MODELS[id(_random.Random.randrange)] = (
    _random.Random.randrange, lambda self, *a: _rand_below(
        *((0, a[0]) if len(a) == 1 else a[:2]),
        isinstance(self, _random.SystemRandom)), False)
for _m in ("getrandbits",):
    MODELS[id(getattr(CRandom.StrongRandom, _m))] = (
        getattr(CRandom.StrongRandom, _m),
        lambda self, k: _rand_bits(k, True), False)
MODELS[id(CRandom.StrongRandom.randint)] = (
    CRandom.StrongRandom.randint,
    lambda self, a, b: _rand_below(a, b + 1, True), False)
MODELS[id(CRandom.StrongRandom.randrange)] = (
    CRandom.StrongRandom.randrange, lambda self, *a: _rand_below(
        *((0, a[0]) if len(a) == 1 else a[:2]), True), False)
