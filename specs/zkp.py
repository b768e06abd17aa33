"""The contract of libsecp256k1-zkp that the code is checked against.

Lib is used instead of the native library: by the verifier (every function
returns an uninterpreted function of the data it is given, and status bits
that are functions of that data) and natively (the same functions computed in
an ideal group whose elements are their discrete logarithms, so that the
commitments are homomorphic).  A call that breaks the C interface (number,
width or size of arguments, missing context, use of a destroyed object) raises
Misuse, which no contract allows."""
import ctypes
import hashlib

import bitcointx.core.secp256k1 as bsecp
import elementstx.core.secp256k1 as esecp
from elementstx.core import CoreElementsParams
from pv.models import uf_bytes, single_app, REAL
from pv import sym
from pv.contract import Reject
from pv.ctypes_model import SymCBuf, SymCVal, SymCArr, Ref, CharP, wrap

N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
MAXPROOF = 5134


class Misuse(Exception):
    """the call does not respect the C interface"""


# C prototypes, from include/secp256k1*.h of libsecp256k1-zkp.  P is a pointer
# to bytes; iP, uP, zP pointers to int, uint64_t and size_t; vP void**;
# aP array of pointers; C a context, O an opaque object
PROTO = {
    'secp256k1_rangeproof_info': 'int C iP iP uP uP P z',
    'secp256k1_generator_parse': 'int C P P',
    'secp256k1_generator_generate': 'int C P P',
    'secp256k1_generator_generate_blinded': 'int C P P P',
    'secp256k1_generator_serialize': 'int C P P',
    'secp256k1_pedersen_commit': 'int C P P u P',
    'secp256k1_pedersen_commitment_serialize': 'int C P P',
    'secp256k1_pedersen_commitment_parse': 'int C P P',
    'secp256k1_pedersen_blind_generator_blind_sum': 'int C uP aP aP z z',
    'secp256k1_rangeproof_sign': 'int C P zP u P P P i i u P z P z P',
    'secp256k1_rangeproof_rewind': 'int C P uP P zP P uP uP P P z P z P',
    'secp256k1_surjectionproof_allocate_initialized': 'int C vP zP P z z P z P',
    'secp256k1_surjectionproof_destroy': 'void O',
    'secp256k1_surjectionproof_generate': 'int C O P z P z P P',
    'secp256k1_surjectionproof_verify': 'int C O P z P',
    'secp256k1_surjectionproof_serialized_size': 'z C O',
    'secp256k1_surjectionproof_serialize': 'int C P zP O',
    'secp256k1_ec_pubkey_serialize': 'int C P zP P I',
    'secp256k1_ec_pubkey_parse': 'int C P P z',
    'secp256k1_ec_pubkey_create': 'int C P P',
    'secp256k1_ec_seckey_verify': 'int C P',
    'secp256k1_ecdh': 'int C P P P f P',
}
WIDTH = {'u': (64, False), 'z': (64, False), 'i': (32, True), 'I': (32, False)}

# ------------------------------------------------------ ideal group (native)

FAIL = {}           # function -> chance of a failure status in native runs
MEMO = {}


def h(tag, *parts):
    m = hashlib.sha256(tag.encode())
    for p in parts:
        m.update(len(p).to_bytes(8, 'big') + p)
    return m.digest()


def hs(tag, *parts):
    return int.from_bytes(h(tag, *parts), 'big') % N


def pt(kind, s):
    """point s in the internal 64-byte form of an object of that kind"""
    return (s % N).to_bytes(32, 'big') + h('kind.' + kind)


def un(kind, b):
    if bytes(b[32:]) != h('kind.' + kind):
        raise Misuse('not a %s' % kind)
    return int.from_bytes(b[:32], 'big')


def ok_byte(name):
    def f(*a):
        r = h('ok.' + name, *a)[0]
        return b'\x00' if r < 256 * FAIL.get(name, 0) else b'\x01'
    return f


def enc_point(kind, base, b):
    s = un(kind, b)
    return bytes([base + (s & 1)]) + s.to_bytes(32, 'big')


def dec_ok(base):
    def f(b):
        s = int.from_bytes(b[1:33], 'big')
        return bytes([1 if len(b) == 33 and b[0] in (base, base + 1) and (b[0] - base) == s & 1 and 0 < s < N else 0])
    return f


def dec_point(kind):
    return lambda b: pt(kind, int.from_bytes(b[1:33], 'big'))


def pub_ok(b):
    if len(b) == 65:
        return bytes([1 if b[0] == 4 and dec_ok(2)(bytes([2 + (b[32] & 1)]) + b[1:33]) == b'\x01'
                      and b[33:] == h('y', b[1:33]) else 0])
    return dec_ok(2)(b)


def pub_ser(b, compressed):
    c = enc_point('pubkey', 2, b)
    return c if compressed == b'\x01' else b'\x04' + c[1:] + h('y', c[1:])


def blind_sum(values, gb, fb, n_total, n_inputs):
    n, k = int.from_bytes(n_total, 'big'), int.from_bytes(n_inputs, 'big')
    acc = 0
    for i in range(n):
        v = int.from_bytes(values[8 * i:8 * i + 8], 'big')
        t = v * int.from_bytes(gb[32 * i:32 * i + 32], 'big')
        if i < n - 1:
            t += int.from_bytes(fb[32 * i:32 * i + 32], 'big')
        acc += -t if i < k else t
    return (-acc % N).to_bytes(32, 'big')


def scalars_ok(b):
    return bytes([1 if all(int.from_bytes(b[k:k + 32], 'big') < N for k in range(0, len(b), 32)) else 0])


PROOFS = {}


def rp_bytes(*a):
    p = b''.join(h('rp', bytes([k]), *a) for k in range(161))[:MAXPROOF + 1]
    return p


def rp_len(*a):
    return (40 + h('rplen', *a)[0]).to_bytes(2, 'big')


REAL.update({
    'ok.seckey': lambda k: bytes([1 if 0 < int.from_bytes(k, 'big') < N else 0]),
    'pubkey': lambda k: pt('pubkey', int.from_bytes(k, 'big')),
    'ok.pubkey_parse': pub_ok,
    'pubkey_parse': dec_point('pubkey'),
    'pubkey_ser33': lambda b: pub_ser(b, b'\x01'), 'pubkey_ser65': lambda b: pub_ser(b, b'\x00'),
    'ecdh': lambda p, k: h('ecdh', (un('pubkey', p) * int.from_bytes(k, 'big') % N).to_bytes(32, 'big')),
    'gen': lambda a, b: pt('generator', hs('asset', a) + int.from_bytes(b, 'big')),
    'ok.gen': lambda a, b: ok_byte('gen')(a, b) if scalars_ok(b) == b'\x01' else b'\x00',
    'ok.gen_parse': dec_ok(10), 'gen_parse': dec_point('generator'),
    'gen_sign': lambda g: bytes([un('generator', g) & 1]), 'gen_x': lambda g: un('generator', g).to_bytes(32, 'big'),
    'ok.gen_ser': ok_byte('gen_ser'),
    'commit': lambda b, v, g: pt('commitment', int.from_bytes(b, 'big') + int.from_bytes(v, 'big') * un('generator', g)),
    'ok.commit': lambda b, v, g: ok_byte('commit')(b, v, g) if scalars_ok(b) == b'\x01' else b'\x00',
    'ok.commit_parse': dec_ok(8), 'commit_parse': dec_point('commitment'),
    'commit_sign': lambda g: bytes([un('commitment', g) & 1]), 'commit_x': lambda g: un('commitment', g).to_bytes(32, 'big'),
    'ok.commit_ser': ok_byte('commit_ser'),
    'blind_sum': blind_sum,
    'ok.blind_sum': lambda v, g, f, n, k: ok_byte('blind_sum')(v, g, f, n, k) if scalars_ok(g + f) == b'\x01' else b'\x00',
    'ok.rangeproof': ok_byte('rangeproof'), 'rangeproof': rp_bytes, 'rangeproof_len': rp_len,
    'ok.sj_init': ok_byte('sj_init'), 'ok.sj_generate': ok_byte('sj_generate'), 'ok.sj_verify': ok_byte('sj_verify'),
    'sj_init': lambda *a: h('sj_init', *a), 'sj_generate': lambda *a: h('sj_generate', *a),
    'sj_ser': lambda st: b''.join(h('sj_ser', bytes([k]), st) for k in range(10)),
    'sj_size': lambda st: (1 + h('sj_size', st)[0]).to_bytes(2, 'big'),
    'sj_index': lambda *a: h('sj_index', *a)[:8],
    'sj_ret': lambda *a: h('sj_ret', *a)[:8],
    'ok.rewind': lambda *a: bytes([1 if a in PROOFS and PROOFS[a] is not None else 0]),
    'rewind_blind': lambda *a: PROOFS[a][0], 'rewind_value': lambda *a: PROOFS[a][1],
    'rewind_msg': lambda *a: PROOFS[a][2], 'rewind_len': lambda *a: PROOFS[a][3],
    'rewind_min': lambda *a: h('min', *a)[:8], 'rewind_max': lambda *a: h('max', *a)[:8],
    'ok.info': lambda p: bytes([1 if len(p) and p[0] & 1 else 0]),
    'info_exp': lambda p: h('exp', p)[:4], 'info_man': lambda p: h('man', p)[:4],
    'info_min': lambda p: h('imin', p)[:8], 'info_max': lambda p: h('imax', p)[:8],
})


def bit(name, *a):
    """status of a function: 0 or 1"""
    b = uf_bytes('ok.' + name, 1, *a)[0]
    return (b != 0)


def ok(lib, name, *a):
    """status of a call; always 1 if the contract is about successful calls"""
    b = bit(name, *a)
    lib.log.append((name, a, b))
    if lib.sure is True or (lib.sure and name in lib.sure):
        if sym.CTX is not None:
            sym.CTX.assume(sym.zbool(b))
            return True
        if not b:
            raise Reject()
    return b


def called(S, lib, name, *a):
    """the function was called once, with exactly that data; its status and the
    terms it was given"""
    found = [(x, b) for (n, x, b) in lib.log if n == name]
    S.ensure(name + ': called once', len(found) == 1 and len(found[0][0]) == len(a))
    for x, y in zip(found[0][0], a):
        S.ensure_eq(name + ': data', x, y)
    return found[0][1], found[0][0]


def num(name, n, *a, signed=False):
    return int.from_bytes(uf_bytes(name, n, *a), 'big', signed=signed)


def be(v, n=8):
    return v.to_bytes(n, 'big')


# ------------------------------------------- the functions, as terms of data

def gen(asset, blind):
    """generator of an asset with a blinding factor (none: zero)"""
    return uf_bytes('gen', 64, asset, blind)


def commitment(blind, value, g):
    return uf_bytes('commit', 64, blind, be(value), g)


def point_ser(name, base, p):
    return bytes([base + (uf_bytes(name + '_sign', 1, p)[0] & 1)]) + uf_bytes(name + '_x', 32, p)


def gen_ser(g):
    return point_ser('gen', 10, g)


def commit_ser(c):
    return point_ser('commit', 8, c)


def parse(name, base, b):
    """inverse of the serialization"""
    return uf_bytes(name + '_parse', 64, b)


def sign_args(min_value, commit, blind, nonce, exp, bits, value, msg, extra, g):
    return (be(min_value), commit, blind, nonce, be(exp % (1 << 32), 4), be(bits % (1 << 32), 4), be(value), msg,
            extra, g)


MODE = {'short': False}     # no range proof has the maximal length


def rangeproof(a):
    n = 1 + num('rangeproof_len', 2, *a) % (MAXPROOF - 1 if MODE['short'] else MAXPROOF)
    return uf_bytes('rangeproof', MAXPROOF + 1, *a)[:n]


def sj_state(tags, n_use, tag, iters, seed):
    return uf_bytes('sj_init', 32, b''.join(tags), be(len(tags)), be(n_use), tag, be(iters), seed)


def sj_index_term(tags, n_use, tag, iters, seed):
    return num('sj_index', 8, b''.join(tags), be(len(tags)), be(n_use), tag, be(iters), seed)


def proof_bytes(st):
    n = 1 + num('sj_size', 2, st) % 300
    return uf_bytes('sj_ser', 320, st)[:n]


# ------------------------------------------------------------------ memory

def rd(p, n):
    """n bytes at the pointer p"""
    if p is None:
        raise Misuse('null pointer')
    if isinstance(p, SymCBuf) or isinstance(p, CharP):
        b = p.raw if isinstance(p, SymCBuf) else p.target.raw
    elif isinstance(p, ctypes.Array):
        b = p.raw
    elif isinstance(p, bytes):
        b = bytes(p)
    else:
        raise Misuse('not a pointer to bytes: %s' % p.__class__.__name__)
    if len(b) < n:
        raise Misuse('read beyond the end of a buffer')
    return b[:n]


def wr(p, data):
    if isinstance(p, SymCBuf):
        if len(p) < len(data):
            raise Misuse('write beyond the end of a buffer')
        p.put(data)
    elif isinstance(p, CharP):
        wr(p.target, data)
    elif isinstance(p, ctypes.Array):
        if len(p) < len(data):
            raise Misuse('write beyond the end of a buffer')
        ctypes.memmove(p, data, len(data))
    else:
        raise Misuse('not a writable buffer: %s' % p.__class__.__name__)


def target(r):
    if isinstance(r, Ref):
        return r.target
    o = getattr(r, '_obj', None)
    if o is None:
        raise Misuse('not a reference')
    return o


TYPES = {'iP': ctypes.c_int, 'uP': ctypes.c_uint64, 'zP': ctypes.c_size_t, 'vP': ctypes.c_void_p}


def check_ref(kind, r):
    o = target(r)
    t = o.ctype if isinstance(o, SymCVal) else type(o)
    if ctypes.sizeof(t) != ctypes.sizeof(TYPES[kind]):
        raise Misuse('reference to a value of another width')
    return o


def check_arg(kind, v):
    if kind == 'C':
        if v is not CTX:
            raise Misuse('not a context')
        return v
    if kind in WIDTH:
        if isinstance(v, SymCVal) or isinstance(v, ctypes._SimpleCData):
            v = v.value
        if not isinstance(v, int):
            raise ctypes.ArgumentError('argument: TypeError: an integer is expected')
        return wrap(v, *WIDTH[kind])
    if kind == 'P':
        if not (v is None or isinstance(v, bytes) or isinstance(v, ctypes.Array) or isinstance(v, SymCBuf) or
                isinstance(v, CharP)):
            raise ctypes.ArgumentError('argument: TypeError: bytes expected, not %s' % v.__class__.__name__)
        return v
    if kind in TYPES:
        if kind == 'uP' and (isinstance(v, SymCArr) or isinstance(v, ctypes.Array)):
            return v
        return check_ref(kind, v)
    if kind == 'aP':
        if not (isinstance(v, SymCArr) or isinstance(v, ctypes.Array)):
            raise Misuse('not an array of pointers')
        return v
    if kind == 'O':
        if isinstance(v, SymCVal) or isinstance(v, ctypes.c_void_p):
            v = v.value
        return v
    if kind == 'f':
        if v is not None:
            raise Misuse('callback')
        return v
    raise Misuse(kind)


def items(a, n, size):
    """what n pointers of an array point to"""
    if len(a) < n:
        raise Misuse('array is too short')
    if isinstance(a, SymCArr):
        return [rd(a[k], size) for k in range(n)]
    q = ctypes.cast(a, ctypes.POINTER(ctypes.c_void_p))
    return [ctypes.string_at(q[k], size) for k in range(n)]


def put_item(a, k, data):
    if isinstance(a, SymCArr):
        wr(a[k], data)
        return
    q = ctypes.cast(a, ctypes.POINTER(ctypes.c_void_p))
    ctypes.memmove(q[k], data, len(data))


CTX = ctypes.c_void_p(0x1234)


class Lib:
    """stand-in for the native library"""

    def __init__(self):
        self.live = {}          # handle -> state
        self.made = 0
        self.calls = []         # names of the functions called
        self.log = []           # (function, data, status)
        self.laws = False
        self.whole = False      # arrays of targets are one piece of data (any number of them)
        self.zero = False       # the balancing factor happens to be zero
        self.nonzero = False    # the balancing factor is not zero by chance
        self.pick = None        # the inputs selected for surjection proofs: this one and the following ones
        self.picked = []
        self.sure = False       # every function (or these) succeeds if its arguments are right

    def __getattr__(self, name):
        if name not in PROTO:
            raise AttributeError(name)
        return Entry(self, name)


class Entry:
    def __init__(self, lib, name):
        self.lib = lib
        self.name = name

    def __call__(self, *args):
        kinds = PROTO[self.name].split()[1:]
        if len(args) != len(kinds):
            raise Misuse('%s: %d arguments' % (self.name, len(args)))
        lib = self.lib
        lib.calls.append(self.name)
        vals = [check_arg(k, v) for k, v in zip(kinds, args)]
        return IMPL[self.name](lib, *vals)


def status(b):
    return 1 if b else 0


def f_seckey_verify(lib, ctx, k):
    return status(bit('seckey', rd(k, 32)))


def f_pubkey_create(lib, ctx, out, k):
    k = rd(k, 32)
    if not bit('seckey', k):
        return 0
    wr(out, uf_bytes('pubkey', 64, k))
    return 1


def f_pubkey_parse(lib, ctx, out, data, n):
    d = rd(data, n)
    if not pub_valid(d):
        return 0
    wr(out, pub_point(d))
    return 1


def pub_valid(d):
    if len(d) == 33:
        if not ((d[0] == 2) | (d[0] == 3)):
            return False
    elif len(d) == 65:
        if not ((d[0] == 4) | (d[0] == 6) | (d[0] == 7)):
            return False
    else:
        return False
    return pub_ok_bit(d)


def pub_ok_bit(d):
    a = inverse('pubkey_x', d)
    return True if a is not None else bit('pubkey_parse', d)


def pub_point(d):
    """the point that was serialized, if that is how the data came about"""
    a = inverse('pubkey_x', d)
    return a if a is not None else uf_bytes('pubkey_parse', 64, d)


REAL['pubkey_sign'] = lambda b: bytes([un('pubkey', b) & 1])
REAL['pubkey_x'] = lambda b: un('pubkey', b).to_bytes(32, 'big')


def pub_ser33(p):
    return point_ser('pubkey', 2, p)


def inverse(name, d):
    """p, if d is literally the serialization of p (verifier only)"""
    x = single_app(d, last=True)
    if x is None or x[0] != name:
        return None
    p = x[1][0]
    base = {'gen_x': 10, 'commit_x': 8, 'pubkey_x': 2}[name]
    return p if sym.CTX.valid(sym.zbool(d == point_ser(name[:-2], base, p))) else None


def f_pubkey_serialize(lib, ctx, out, n, p, flags):
    p = rd(p, 64)
    if flags == 258:
        if n.value < 33:
            raise Misuse('buffer for the key is too short')
        wr(out, pub_ser33(p))
        n.value = 33
    elif flags == 2:
        if n.value < 65:
            raise Misuse('buffer for the key is too short')
        wr(out, uf_bytes('pubkey_ser65', 65, p))
        n.value = 65
    else:
        raise Misuse('flags')
    return 1


def f_ecdh(lib, ctx, out, p, k, fn, data):
    p, k = rd(p, 64), rd(k, 32)
    if not bit('seckey', k):
        return 0
    wr(out, ecdh(p, k))
    return 1


def ecdh(p, k):
    """law: the shared secret of two keys is the same on both sides"""
    x = single_app(p)
    if x is not None and x[0] == 'pubkey':
        k2 = x[1][0]
        a, b = sorted((k, k2), key=lambda x: repr(sym.arg_key(x)))
        return uf_bytes('ecdh_of', 32, a, b)
    return uf_bytes('ecdh', 32, p, k)


def f_gen_generate(lib, ctx, out, seed):
    return f_gen_blinded(lib, ctx, out, seed, b'\x00' * 32)


def f_gen_blinded(lib, ctx, out, seed, blind):
    seed, blind = rd(seed, 32), rd(blind, 32)
    if not ok(lib, 'gen', seed, blind):
        return 0
    wr(out, gen(seed, blind))
    return 1


def f_gen_parse(lib, ctx, out, data):
    d = rd(data, 33)
    if not gen_valid(d):
        return 0
    wr(out, gen_point(d))
    return 1


def gen_valid(d):
    if not ((d[0] == 10) | (d[0] == 11)):
        return False
    return True if inverse('gen_x', d) is not None else bit('gen_parse', d)


def gen_point(d):
    a = inverse('gen_x', d)
    return a if a is not None else uf_bytes('gen_parse', 64, d)


def f_gen_serialize(lib, ctx, out, g):
    g = rd(g, 64)
    if not ok(lib, 'gen_ser', g):
        return 0
    wr(out, gen_ser(g))
    return 1


def f_commit(lib, ctx, out, blind, value, g):
    blind, g = rd(blind, 32), rd(g, 64)
    if not ok(lib, 'commit', blind, be(value), g):
        return 0
    wr(out, commitment(blind, value, g))
    return 1


def f_commit_serialize(lib, ctx, out, c):
    c = rd(c, 64)
    if not ok(lib, 'commit_ser', c):
        return 0
    wr(out, commit_ser(c))
    return 1


def commit_valid(d):
    if not ((d[0] == 8) | (d[0] == 9)):
        return False
    return True if inverse('commit_x', d) is not None else bit('commit_parse', d)


def commit_point(d):
    a = inverse('commit_x', d)
    return a if a is not None else uf_bytes('commit_parse', 64, d)


def f_commit_parse(lib, ctx, out, data):
    d = rd(data, 33)
    if not commit_valid(d):
        return 0
    wr(out, commit_point(d))
    return 1


def sum_args(values, gb, fb, n_inputs):
    return (b''.join([be(v) for v in values]), b''.join(gb), b''.join(fb[:-1]), be(len(values)), be(n_inputs))


def f_blind_sum(lib, ctx, values, gb, fb, n, k):
    if n <= k or n == 0:
        raise Misuse('number of inputs')
    if len(values) < n:
        raise Misuse('array of values is too short')
    g, f = items(gb, n, 32), items(fb, n, 32)
    a = sum_args([values[j] for j in range(n)], g, f, k)
    if not ok(lib, 'blind_sum', *a):
        return 0
    t = uf_bytes('blind_sum', 32, *a)
    if lib.zero:
        t = b'\x00' * 32
    elif lib.nonzero:
        if sym.CTX is not None:
            sym.CTX.assume(sym.zbool(t != b'\x00' * 32))
        elif t == b'\x00' * 32:
            raise Reject()
    put_item(fb, n - 1, t)
    return 1


def f_sign(lib, ctx, proof, plen, min_value, commit, blind, nonce, exp, bits, value, msg, msg_len, extra, extra_len, g):
    if len(proof) < plen.value or plen.value < MAXPROOF:
        raise Misuse('size of the buffer for the proof')
    a = sign_args(min_value, rd(commit, 64), rd(blind, 32), rd(nonce, 32), exp, bits, value, rd(msg, msg_len),
                  b'' if extra is None else rd(extra, extra_len), rd(g, 64))
    if extra is None and extra_len != 0:
        raise Misuse('length of nothing')
    if not ok(lib, 'rangeproof', *a):
        return 0
    p = rangeproof(a)
    wr(proof, p)
    plen.value = len(p)
    if not sym.CTX:
        # the proof rewinds to what it was made of
        key = rewind_key(a[3], a[1], p, a[8], a[9])
        PROOFS[key] = (a[2], a[6], a[7] + bytes(4096 - len(a[7])), (64).to_bytes(2, 'big'))
    return 1


def rewind_key(nonce, commit, proof, extra, g):
    return (bytes(nonce), bytes(commit), bytes(proof), bytes(extra), bytes(g))


def rewind_args(nonce, commit, proof, extra, g):
    return (nonce, commit, proof, extra, g)


def f_rewind(lib, ctx, blind_out, value_out, msg, outlen, nonce, vmin, vmax, commit, proof, plen, extra, extra_len, g):
    if extra is None and extra_len != 0:
        raise Misuse('length of nothing')
    if outlen.value > len(msg):
        raise Misuse('size of the buffer for the message')
    a = rewind_args(rd(nonce, 32), rd(commit, 64), rd(proof, plen), b'' if extra is None else rd(extra, extra_len),
                    rd(g, 64))
    x = proof_made(a) if lib.laws else None
    if x is not None:
        # law: a proof rewinds to what it was made of
        wr(blind_out, x[2])
        value_out.value = int.from_bytes(x[6], 'big')
        wr(msg, x[7])
        outlen.value = len(x[7])
        return 1
    if not ok(lib, 'rewind', *a):
        return 0
    wr(blind_out, uf_bytes('rewind_blind', 32, *a))
    value_out.value = num('rewind_value', 8, *a)
    wr(msg, uf_bytes('rewind_msg', 4096, *a))
    outlen.value = num('rewind_len', 2, *a) % 4097
    vmin.value = num('rewind_min', 8, *a)
    vmax.value = num('rewind_max', 8, *a)
    return 1


def proof_made(a):
    """what the proof was made of, if it is literally a proof with that nonce,
    commitment, script and generator (verifier only)"""
    x = single_app(a[2])
    if x is None or x[0] != 'rangeproof':
        return None
    x = x[1]
    for u, v in ((a[0], x[3]), (a[1], x[1]), (a[3], x[8]), (a[4], x[9])):
        if u is not v and not sym.CTX.valid(sym.zbool(u == v)):
            return None
    return x


def f_info(lib, ctx, exp, man, vmin, vmax, proof, plen):
    p = rd(proof, plen)
    if not bit('info', p):
        return 0
    exp.value = num('info_exp', 4, p, signed=True)
    man.value = num('info_man', 4, p, signed=True)
    vmin.value = num('info_min', 8, p)
    vmax.value = num('info_max', 8, p)
    return 1


def split(b, n, size):
    return [b[k * size:(k + 1) * size] for k in range(n)]


def sj_init_args(tags, n_use, tag, iters, seed, n=None):
    return (b''.join(tags), be(len(tags) if n is None else n), be(n_use), tag, be(iters), seed)


def f_sj_alloc(lib, ctx, proof, index, tags, n, n_use, tag, iters, seed):
    if n < 1:
        proof.value = None
        return 0
    if n > 256 or n_use > n or n_use > 256:
        raise Misuse('number of tags')
    tags = [rd(tags, n * 32)] if lib.whole else split(rd(tags, n * 32), n, 32)
    a = sj_init_args(tags, n_use, rd(tag, 32), iters, rd(seed, 32), n)
    if lib.whole:
        if not ok(lib, 'sj_init', *a):
            proof.value = None
            return 0
        lib.made += 1
        proof.value = 0x1000 + lib.made
        lib.live[0x1000 + lib.made] = uf_bytes('sj_init', 32, *a)
        if lib.pick is not None:
            k = (lib.pick + lib.made) % n
            lib.picked.append((lib.live[0x1000 + lib.made], k))
            index.value = k
        else:
            index.value = below(num('sj_index', 8, *a), n)
        return 1 + num('sj_ret', 8, *a) % iters
    if not sj_possible(tags, a[3]) or not ok(lib, 'sj_init', *a):
        proof.value = None
        return 0
    lib.made += 1
    proof.value = 0x1000 + lib.made
    lib.live[0x1000 + lib.made] = uf_bytes('sj_init', 32, *a)
    index.value = sj_index(tags, a)
    return 1 + num('sj_ret', 8, *a) % iters


def sj_possible(tags, tag):
    """the output asset is one of the inputs"""
    return any([t == tag for t in tags])


def sj_index(tags, a):
    """position of an input of the same asset"""
    k = num('sj_index', 8, *a) % len(tags)
    if sym.CTX is not None:
        sym.CTX.assume(sym.zbool(any([(k == j) & (tags[j] == a[3]) for j in range(len(tags))])))
        return k
    while tags[k] != a[3]:
        k = (k + 1) % len(tags)
    return k


def below(v, n):
    if sym.CTX is not None:
        sym.CTX.assume(sym.zbool(v < n))
        return v
    return v % n


def state(lib, o):
    if o is None or o not in lib.live:
        raise Misuse('not a live proof')
    return lib.live[o]


def f_sj_destroy(lib, o):
    if o is None:
        return None
    state(lib, o)
    del lib.live[o]
    return None


def sj_gen_args(st, gens, g, index, ib, ob, n=None):
    return (st, b''.join(gens), be(len(gens) if n is None else n), g, be(index), ib, ob)


def f_sj_generate(lib, ctx, o, gens, n, g, index, ib, ob):
    if index >= n:
        raise Misuse('input index')
    gens = [rd(gens, n * 64)]
    a = sj_gen_args(state(lib, o), gens, rd(g, 64), index, rd(ib, 32), rd(ob, 32), n)
    if not ok(lib, 'sj_generate', *a):
        return 0
    lib.live[o] = uf_bytes('sj_generate', 32, *a)
    return 1


def f_sj_verify(lib, ctx, o, gens, n, g):
    return status(ok(lib, 'sj_verify', state(lib, o), rd(gens, n * 64), be(n), rd(g, 64)))


def f_sj_size(lib, ctx, o):
    return 1 + num('sj_size', 2, state(lib, o)) % 300


def f_sj_serialize(lib, ctx, out, n, o):
    p = proof_bytes(state(lib, o))
    if n.value < len(p):
        return 0
    wr(out, p)
    n.value = len(p)
    return 1


IMPL = {
    'secp256k1_rangeproof_info': f_info, 'secp256k1_generator_parse': f_gen_parse,
    'secp256k1_generator_generate': f_gen_generate, 'secp256k1_generator_generate_blinded': f_gen_blinded,
    'secp256k1_generator_serialize': f_gen_serialize, 'secp256k1_pedersen_commit': f_commit,
    'secp256k1_pedersen_commitment_serialize': f_commit_serialize,
    'secp256k1_pedersen_commitment_parse': f_commit_parse,
    'secp256k1_pedersen_blind_generator_blind_sum': f_blind_sum, 'secp256k1_rangeproof_sign': f_sign,
    'secp256k1_rangeproof_rewind': f_rewind, 'secp256k1_surjectionproof_allocate_initialized': f_sj_alloc,
    'secp256k1_surjectionproof_destroy': f_sj_destroy, 'secp256k1_surjectionproof_generate': f_sj_generate,
    'secp256k1_surjectionproof_verify': f_sj_verify, 'secp256k1_surjectionproof_serialized_size': f_sj_size,
    'secp256k1_surjectionproof_serialize': f_sj_serialize, 'secp256k1_ec_pubkey_serialize': f_pubkey_serialize,
    'secp256k1_ec_pubkey_parse': f_pubkey_parse, 'secp256k1_ec_pubkey_create': f_pubkey_create,
    'secp256k1_ec_seckey_verify': f_seckey_verify, 'secp256k1_ecdh': f_ecdh,
}


# ------------------------------------------------------------------- set up

DEFAULTS = CoreElementsParams.CT_EXPONENT, CoreElementsParams.CT_BITS


def fresh(S, fail=None):
    """install a new library; fail: chances of failure in native runs"""
    CoreElementsParams.CT_EXPONENT, CoreElementsParams.CT_BITS = DEFAULTS
    lib = Lib()
    FAIL.clear()
    FAIL.update(fail or {})
    PROOFS.clear()
    MODE['short'] = False
    cap = dict(has_pubkey_recovery=True, has_privkey_negate=True, has_pubkey_negate=True, has_ecdh=True,
               has_xonly_pubkeys=True, has_schnorrsig=True)
    bsecp._secp256k1 = bsecp.Secp256k1(lib=lib, ctx=bsecp.Secp256k1_Contexts(sign=CTX, verify=CTX),
                                       cap=bsecp.Secp256k1_Capabilities(**cap))
    esecp._secp256k1 = esecp.Secp256k1_ZKP(lib=lib, ctx=esecp.Secp256k1_ZKP_Contexts(sign=CTX, verify=CTX, blind=CTX),
                                           cap=esecp.Secp256k1_ZKP_Capabilities(has_zkp=True, **cap))
    return lib


def seckey(S, name):
    """32 bytes of a valid secret key"""
    b = S.bytes(name, 32)
    S.assume(bit('seckey', b))
    return b


def pubkey(S, name):
    """a valid compressed public key"""
    if not S.symbolic:
        s = 1 + int.from_bytes(S.bytes(name, 32), 'big') % (N - 1)
        return bytes([2 + (s & 1)]) + s.to_bytes(32, 'big')
    b = bytes([S.int(name + '.parity', 2, 3)]) + S.bytes(name, 32)
    S.assume(bit('pubkey_parse', b))
    return b
