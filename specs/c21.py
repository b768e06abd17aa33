"""C21 Native function declarations match the library interface"""
import ctypes
import os
import tempfile
from pv.contract import contract
from bitcointx.core.key import CPubKey, CKey
import bitcointx.core.secp256k1 as bsecp
import elementstx
import elementstx.util
import elementstx.core.secp256k1 as esecp
from elementstx.core.secp256k1 import build_aligned_data_array
import elementstx.core as ec
from . import zkp, lib

OPTIONAL = {'has_pubkey_recovery': 'secp256k1_ecdsa_sign_recoverable', 'has_privkey_negate': 'secp256k1_ec_privkey_negate',
            'has_pubkey_negate': 'secp256k1_ec_pubkey_negate', 'has_ecdh': 'secp256k1_ecdh',
            'has_xonly_pubkeys': 'secp256k1_xonly_pubkey_parse', 'has_schnorrsig': 'secp256k1_schnorrsig_sign_custom'}
ZKP = 'secp256k1_rangeproof_info'


class Fn:
    """function of a library: remembers its declaration"""
    argtypes = None
    restype = ctypes.c_int
    called = 0

    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        self.called += 1
        if self.name == 'secp256k1_context_create':
            return ctypes.c_void_p(0x5000 + a[0])
        return 1


class Recorder:
    """library with all functions but some"""

    def __init__(self, missing):
        self.missing = missing
        self.fns = {}
        self.path = None

    def __getattr__(self, name):
        if name in self.missing or not name.startswith('secp256k1_'):
            raise AttributeError(name)
        if name not in self.fns:
            self.fns[name] = Fn(name)
        return self.fns[name]


def load(S, missing, path='libsecp256k1.so'):
    """what get_secp256k1 makes of such a library"""
    rec = Recorder(missing)
    paths = []

    def loader(p):
        paths.append(p)
        return rec
    old = ctypes.cdll.__dict__.get('LoadLibrary')
    oldpath = elementstx.util._secp256k1_library_path
    esecp._secp256k1 = None
    try:
        ctypes.cdll.LoadLibrary = loader
        elementstx.util._secp256k1_library_path = path
        r = esecp.get_secp256k1()
        again = esecp.get_secp256k1()
    finally:
        esecp._secp256k1 = None
        elementstx.util._secp256k1_library_path = oldpath
        if old is None:
            del ctypes.cdll.LoadLibrary
        else:
            ctypes.cdll.LoadLibrary = old
    S.ensure('loaded once', len(paths) == 1 and again is r)
    S.ensure('path', paths[0] == path)
    S.ensure('library', r.lib is rec)
    return rec, r


SIGNED = 'bhilq'
POINTED = {'iP': ctypes.c_int, 'uP': ctypes.c_uint64, 'zP': ctypes.c_size_t, 'vP': ctypes.c_void_p,
           'aP': ctypes.c_char_p}


def same_scalar(t, bits, signed):
    code = getattr(t, '_type_', None)
    return (isinstance(code, str) and code in 'bBhHiIlLqQ' and ctypes.sizeof(t) * 8 == bits and
            (code in SIGNED) == signed)


def matches(kind, t):
    """a value of the C parameter is passed correctly as ctypes type t"""
    if kind in zkp.WIDTH:
        return same_scalar(t, *zkp.WIDTH[kind])
    if kind in ('C', 'O', 'f'):
        return t is ctypes.c_void_p
    if kind == 'P':
        return t is ctypes.c_char_p or t is ctypes.c_void_p
    p = getattr(t, '_type_', None)
    if not isinstance(p, type):
        return False
    w = POINTED[kind]
    return p is w if kind in ('vP', 'aP') else same_scalar(p, ctypes.sizeof(w) * 8, w._type_ in SIGNED)


def result_matches(kind, t):
    if kind == 'void':
        return t is None
    if kind == 'int':
        return same_scalar(t, 32, True)
    return same_scalar(t, *zkp.WIDTH[kind])


@contract('C21')
def declarations(S):
    """result and parameter types of every function used"""
    rec, r = load(S, [])
    for name, proto in zkp.PROTO.items():
        kinds = proto.split()
        f = rec.fns.get(name)
        S.ensure('%s is declared' % name, f is not None and f.argtypes is not None)
        S.ensure('result of %s' % name, result_matches(kinds[0], f.restype))
        S.ensure('number of parameters of %s' % name, len(f.argtypes) == len(kinds) - 1)
        for j, (k, t) in enumerate(zip(kinds[1:], f.argtypes)):
            S.ensure('parameter %d of %s' % (j, name), matches(k, t))
        S.ensure('%s is not called before' % name, f.called == 0)


@contract('C21')
def capabilities(S):
    """reported exactly when the library has the functions"""
    caps = sorted(OPTIONAL)
    without = [c for c in caps if S.choice(c, 2) == 0]
    has = S.choice('zkp', 2) == 1
    missing = [OPTIONAL[c] for c in without]
    if not has:
        missing += [n for n in zkp.PROTO if 'rangeproof' in n or 'surjection' in n or 'generator' in n or 'pedersen' in n]
    rec, r = load(S, missing)
    S.ensure('zkp', r.cap.has_zkp is has)
    for c in caps:
        S.ensure(c, getattr(r.cap, c) is (c not in without))
    S.ensure('blinding context', (r.ctx.blind is not None) == has)
    if has:
        S.ensure('kind of the blinding context',
                 r.ctx.blind.value == 0x5000 + (bsecp.SECP256K1_CONTEXT_SIGN | bsecp.SECP256K1_CONTEXT_VERIFY))
    S.ensure('signing context', r.ctx.sign.value == 0x5000 + bsecp.SECP256K1_CONTEXT_SIGN)
    S.ensure('verifying context', r.ctx.verify.value == 0x5000 + bsecp.SECP256K1_CONTEXT_VERIFY)


@contract('C21')
def arrays(S):
    """a buffer of exactly as many elements of that size, in order"""
    size = [32, 64, 96][S.choice('size', 3)]
    uniform = S.choice('uniform', 2)
    if uniform:
        data = S.seq('data', lambda i: S.bytes('item', size), cls=list, hi=1000)
        err, r = S.catch(build_aligned_data_array, data, size)
        S.ensure('accepted', err is None)
        S.ensure_eq('content', r, b''.join(data))
        S.ensure('size', len(r) == size * len(data))
    else:
        data = [S.bytes('item%d' % k, lo=0, hi=200) for k in range(S.choice('number', 4))]
        err, r = S.catch(build_aligned_data_array, data, size)
        S.ensure('accepted iff of the right size', (err is None) == (sum([len(d) for d in data]) == size * len(data)))
        if err is None:
            S.ensure_eq('content', r, b''.join(data))


@contract('C21')
def alignment(S):
    """sizes that are no multiples of 32 are refused"""
    n = S.int('size', 1, 1000)
    S.assume(n % 32 != 0)
    err, r = S.catch(build_aligned_data_array, [S.bytes('item', n)], n)
    S.ensure('refused', err is not None)


@contract('C21')
def path(S):
    """only existing files are accepted, and then used"""
    d = tempfile.mkdtemp()
    f = os.path.join(d, 'lib.so')
    old = elementstx.get_custom_secp256k1_path()
    try:
        with open(f, 'wb'):
            pass
        elementstx.set_custom_secp256k1_path(f)
        S.ensure('kept', elementstx.get_custom_secp256k1_path() == f)
        for bad in (d, f + 'x', '', os.path.join(d, 'no', 'lib.so')):
            err, _ = S.catch(elementstx.set_custom_secp256k1_path, bad)
            S.ensure('refused', isinstance(err, ValueError))
            S.ensure('not used', elementstx.get_custom_secp256k1_path() == f)
        load(S, [], elementstx.get_custom_secp256k1_path())
    finally:
        elementstx.util._secp256k1_library_path = old
        os.unlink(f)
        os.rmdir(d)


class Bare:
    """library without any function"""
    calls = ()

    def __getattr__(self, name):
        raise AttributeError(name)


def bare():
    """a library without the zkp functions"""
    cap = dict((c, False) for c in OPTIONAL)
    b = Bare()
    esecp._secp256k1 = esecp.Secp256k1_ZKP(lib=b, ctx=esecp.Secp256k1_ZKP_Contexts(sign=zkp.CTX, verify=zkp.CTX),
                                           cap=esecp.Secp256k1_ZKP_Capabilities(has_zkp=False, **cap))


@contract('C21')
def refused(S):
    """without the zkp functions nothing is computed"""
    zkp.fresh(S)
    pub = CPubKey(zkp.pubkey(S, 'pub'))
    key = CKey(zkp.seckey(S, 'key'))
    bare()
    w = ec.CElementsTxOutWitness(b'', S.bytes('proof', lo=0, hi=200))
    err, r = S.catch(w.get_rangeproof_info)
    S.ensure('range proof info', isinstance(err, RuntimeError))
    err, r = S.catch(ec.blinded_asset, ec.CAsset(S.bytes('asset', 32)), lib.Uint256(S.bytes('blind', 32)))
    S.ensure('blinded asset', err is not None)
    tx = ec.CElementsMutableTransaction([ec.CElementsMutableTxIn()], [ec.CElementsMutableTxOut(
        ec.CConfidentialValue(5), lib.CElementsScript(b'\x51'), ec.CConfidentialAsset(ec.CAsset(b'\x01' * 32)))])
    d = ec.BlindingInputDescriptor(asset=ec.CAsset(b'\x01' * 32), amount=5, blinding_factor=lib.Uint256(),
                                   asset_blinding_factor=lib.Uint256())
    err, r = S.catch(tx.blind, input_descriptors=[d], output_pubkeys=[pub])
    S.ensure('blinding', err is not None or not r.ok)
    out = ec.CElementsTxOut(ec.CConfidentialValue(b'\x08' + b'\x01' * 32), lib.CElementsScript(b'\x51'),
                            ec.CConfidentialAsset(b'\x0a' + b'\x01' * 32), ec.CConfidentialNonce(bytes(pub)))
    err, r = S.catch(out.unblind_confidential_pair, key, S.bytes('proof2', lo=1, hi=200))
    S.ensure('unblinding', err is not None or not r.ok)
