"""C08 Asset and reissuance token ids follow the issuance commitments

The compression function of SHA-256 (CSHA256.Transform of python-bitcointx) is
an assumed contract: it is a function of the state and of the 64-byte block,
compared on every run with the reference below; Write, Midstate and everything
above is verified."""
from pv.contract import contract
from pv.models import uf_bytes, REAL
from bitcointx.core import COutPoint
from bitcointx.core.sha256 import CSHA256
from .lib import Uint256, CAsset, CElementsOutPoint, CElementsMutableOutPoint, U32, Z32
from elementstx.core import generate_asset_entropy, calculate_asset, calculate_reissuance_token

IV = bytes.fromhex('6a09e667bb67ae853c6ef372a54ff53a510e527f9b05688c1f83d9ab5be0cd19')


def _primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _icbrt(n):
    lo, hi = 0, 1 << 64
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m * m * m <= n:
            lo = m
        else:
            hi = m - 1
    return lo


K = [_icbrt(p << 96) & U32 for p in _primes(64)]


def compress(state, block):
    """the SHA-256 compression function, FIPS 180-4 6.2.2"""
    def rotr(x, n):
        return (x >> n | x << (32 - n)) & U32
    w = [int.from_bytes(block[4 * t:4 * t + 4], 'big') for t in range(16)]
    for t in range(16, 64):
        s1 = rotr(w[t - 2], 17) ^ rotr(w[t - 2], 19) ^ (w[t - 2] >> 10)
        s0 = rotr(w[t - 15], 7) ^ rotr(w[t - 15], 18) ^ (w[t - 15] >> 3)
        w.append((s1 + w[t - 7] + s0 + w[t - 16]) & U32)
    h = [int.from_bytes(state[4 * t:4 * t + 4], 'big') for t in range(8)]
    a, b, c, d, e, f, g, k = h
    for t in range(64):
        t1 = (k + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & f) ^ (~e & U32 & g)) + K[t] + w[t]) & U32
        t2 = ((rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c))) & U32
        a, b, c, d, e, f, g, k = (t1 + t2) & U32, a, b, c, (d + t1) & U32, e, f, g
    return b''.join(((x + y) & U32).to_bytes(4, 'big') for x, y in zip(h, (a, b, c, d, e, f, g, k)))


REAL['sha256_compress'] = compress


def midstate(S, data):
    if not S.symbolic:
        return compress(IV, bytes(data))
    return uf_bytes('sha256_compress', 32, IV, data)


def dsha(data):
    import hashlib
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()


def arg(S, data):
    """the three accepted ways to give 32 bytes"""
    k = S.choice('as', 3)
    return data if k == 0 else (bytearray(data) if k == 1 else Uint256(data))


@contract('C08', native_only=True, bounded='60 random blocks per run')
def compression(S):
    """the rounds of CSHA256 compute the compression function (bounded
    stand-in for the assumed contract: checked on the inputs of a sample)"""
    b = S.bytes('b', 64)
    S.ensure_eq('one block', CSHA256().Write(b).Midstate(), compress(IV, b))


def any_outpoint(S):
    h, n = S.bytes('hash', 32), S.int('n', 0, U32)
    k = S.choice('outpoint', 2)
    return h + n.to_bytes(4, 'little'), (CElementsOutPoint if k else CElementsMutableOutPoint)(h, n)


@contract('C08')
def entropy(S):
    """midstate of the double SHA-256 of the outpoint and the contract hash"""
    raw, prevout = any_outpoint(S)
    ch = S.bytes('contracthash', 32)
    r = generate_asset_entropy(prevout, arg(S, ch))
    S.ensure('256-bit number', type(r) is Uint256)
    S.ensure_eq('entropy', r.data, midstate(S, dsha(raw) + ch))


@contract('C08')
def asset(S):
    """midstate of the entropy and 32 zero bytes"""
    e = S.bytes('entropy', 32)
    r = calculate_asset(arg(S, e))
    S.ensure('asset', type(r) is CAsset)
    S.ensure_eq('asset id', r.data, midstate(S, e + Z32))


@contract('C08')
def token(S):
    """midstate of the entropy and the number 1 or 2, little endian"""
    e = S.bytes('entropy', 32)
    conf = S.choice('confidential', 2) == 1
    r = calculate_reissuance_token(arg(S, e), conf)
    S.ensure('asset', type(r) is CAsset)
    S.ensure_eq('token id', r.data, midstate(S, e + bytes([2 if conf else 1]) + bytes(31)))


@contract('C08')
def chain(S):
    """from the outpoint to the asset and the token"""
    raw, prevout = any_outpoint(S)
    ch = S.bytes('contracthash', 32)
    e = generate_asset_entropy(prevout, ch)
    m = midstate(S, dsha(raw) + ch)
    S.ensure_eq('asset id', calculate_asset(e).data, midstate(S, m + Z32))
    conf = S.choice('confidential', 2) == 1
    S.ensure_eq('token id', calculate_reissuance_token(e, conf).data,
                midstate(S, m + bytes([2 if conf else 1]) + bytes(31)))


FNS = (lambda x: generate_asset_entropy(CElementsOutPoint(), x), calculate_asset,
       lambda x: calculate_reissuance_token(x, False), lambda x: calculate_reissuance_token(x, True))


@contract('C08')
def wrong_length(S):
    """any other length is rejected"""
    b = S.bytes('b', lo=0, hi=100000)
    S.assume(len(b) != 32)
    f = FNS[S.choice('function', 4)]
    err, r = S.catch(f, bytearray(b) if S.choice('bytearray', 2) else b)
    S.ensure('rejected', isinstance(err, (ValueError, AssertionError)))


@contract('C08')
def wrong_type(S):
    """any other type is rejected"""
    v = S.int('v', -(1 << 256), 1 << 256)
    bad = [None, 'a' * 32, 1.5, [0] * 32, (0,) * 32, v, memoryview(b'a' * 32), Uint256][S.choice('bad', 8)]
    err, r = S.catch(FNS[S.choice('function', 4)], bad)
    S.ensure('rejected', isinstance(err, TypeError))


@contract('C08')
def wrong_other(S):
    """the outpoint and the flag are checked as well"""
    x = [None, b'a' * 36, 'a', 5, (b'a' * 32, 0), Uint256()][S.choice('bad', 6)]
    if S.choice('function', 2):
        err, r = S.catch(generate_asset_entropy, x, S.bytes('contracthash', 32))
    else:
        err, r = S.catch(calculate_reissuance_token, S.bytes('entropy', 32), x if S.choice('int', 2) else S.int('k', 0, 2))
    S.ensure('rejected', isinstance(err, TypeError))
