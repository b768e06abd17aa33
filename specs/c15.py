"""C15 Commitment and proof primitives pass exactly the documented data to the library

libsecp256k1-zkp is the stand-in of specs/zkp.py: every function is an
uninterpreted function of the data that reaches it through the C interface.
That a result is the same function of the documented data therefore means that
exactly this data was passed."""
import hashlib
from pv.contract import contract
from bitcointx.core.key import CPubKey, CKey
from bitcointx.core import Uint256
import elementstx.core as ec
from elementstx.core import CAsset, CConfidentialAsset, CConfidentialValue, CoreElementsParams
from elementstx.wallet import CElementsKey
from .lib import CElementsScript, MAX, U64
from . import zkp

EXPONENT, BITS = 0, 52          # chainparams of Elements
ALL = {n: 0.3 for n in ('gen', 'gen_ser', 'commit', 'commit_ser', 'rangeproof', 'sj_init', 'sj_generate', 'sj_verify')}


def scalar(S, name):
    return S.bytes(name, 32)


@contract('C15')
def asset_commitment(S):
    """generator of asset and blinding factor, and its serialization"""
    zkp.fresh(S, ALL)
    a, b = S.bytes('asset', 32), scalar(S, 'blind')
    err, r = S.catch(ec.blinded_asset, CAsset(a), Uint256(b))
    g = zkp.gen(a, b)
    if not zkp.bit('gen', a, b) or not zkp.bit('gen_ser', g):
        S.ensure('failure is raised', isinstance(err, RuntimeError))
        return
    S.ensure('succeeds', err is None)
    S.ensure('type', type(r[0]) is CConfidentialAsset)
    S.ensure('a commitment', r[0].is_commitment())
    S.ensure_eq('commitment', r[0].commitment, zkp.gen_ser(g))
    S.ensure_eq('generator', r[1], g)


@contract('C15')
def value_commitment(S):
    """Pedersen commitment to the amount with blinding factor and generator"""
    zkp.fresh(S, ALL)
    b, g, v = scalar(S, 'blind'), zkp.gen(S.bytes('asset', 32), S.bytes('assetblind', 32)), S.int('amount', 0, U64)
    err, r = S.catch(ec.create_value_commitment, b, g, v)
    c = zkp.commitment(b, v, g)
    if not zkp.bit('commit', b, zkp.be(v), g) or not zkp.bit('commit_ser', c):
        S.ensure('failure is raised', isinstance(err, RuntimeError))
        return
    S.ensure('succeeds', err is None)
    S.ensure('type', type(r[0]) is CConfidentialValue)
    S.ensure('a commitment', r[0].is_commitment())
    S.ensure_eq('commitment', r[0].commitment, zkp.commit_ser(c))
    S.ensure_eq('internal form', r[1], c)


def blinds(S, name):
    """a list whose last element is the one to be used"""
    last = scalar(S, name + '.last')
    return last, S.seq(name, lambda i: Uint256(S.bytes(name + '.other', 32)), cls=list, hi=1000) + [Uint256(last)]


@contract('C15')
def range_proof(S):
    """proof for amount, commitment and generator with the last blinding
    factor, the nonce, the script and the message asset and asset factor"""
    lib = zkp.fresh(S, ALL)
    bf, bfs = blinds(S, 'blinds')
    abf, abfs = blinds(S, 'assetblinds')
    nonce, asset, v = S.bytes('nonce', 32), S.bytes('asset', 32), S.int('amount', 0, U64)
    script = S.bytes('script', lo=0, hi=MAX)
    g = zkp.gen(asset, abf)
    c = zkp.commitment(bf, v, g)
    kw = {}
    exp, bits = EXPONENT, BITS
    if S.choice('other defaults', 2):
        # as in the parameters of another chain
        exp, bits = CoreElementsParams.CT_EXPONENT, CoreElementsParams.CT_BITS = 2, 40
    if S.choice('custom exponent', 2):
        exp = kw['custom_ct_exponent'] = S.int('exponent', -1, 18)
    if S.choice('custom bits', 2):
        bits = kw['custom_ct_bits'] = S.int('bits', 0, 64)
    ba = S.choice('bytearray', 2)
    err, r = S.catch(ec.generate_rangeproof, bfs, Uint256(nonce), v, CElementsScript(script),
                     bytearray(c) if ba else c, bytearray(g) if ba else g, CAsset(asset), abfs, **kw)
    unspendable = len(script) == 0 or script[0] == 0x6a or len(script) > 10000
    a = zkp.sign_args(0 if unspendable else 1, c, bf, nonce, exp, bits, v, asset + abf, script if len(script) else b'', g)
    done, a = zkp.called(S, lib, 'rangeproof', *a)
    if not done:
        S.ensure('failure is raised', isinstance(err, RuntimeError))
        return
    S.ensure('succeeds', err is None)
    S.ensure_eq('proof', r, zkp.rangeproof(a))


@contract('C15')
def range_proof_arguments(S):
    """commitments and generators of a wrong size and wrong types are refused
    before the library is called"""
    lib = zkp.fresh(S)
    good = dict(in_blinds=[Uint256(S.bytes('blind', 32))], nonce=Uint256(S.bytes('nonce', 32)),
                amount=S.int('amount', 0, U64), scriptPubKey=CElementsScript(S.bytes('script', lo=0, hi=MAX)),
                commit=S.bytes('commit', 64), gen=S.bytes('gen', 64), asset=CAsset(S.bytes('asset', 32)),
                in_assetblinds=[Uint256(S.bytes('assetblind', 32))])
    b = S.bytes('b', lo=0, hi=200)
    S.assume(len(b) != 64)
    k = S.choice('bad', 18)
    bad = [('commit', b), ('gen', b), ('commit', None), ('gen', 'a' * 64), ('nonce', bytes(32)), ('amount', 1.0),
           ('amount', None), ('scriptPubKey', b), ('asset', Uint256()), ('asset', bytes(32)), ('nonce', None),
           ('custom_ct_exponent', '1'), ('custom_ct_bits', 2.0), ('in_blinds', []), ('in_assetblinds', []),
           ('in_blinds', [bytes(32)]), ('in_assetblinds', [None]), ('commit', bytearray(b))][k]
    good[bad[0]] = bad[1]
    err, r = S.catch(lambda: ec.generate_rangeproof(**good))
    S.ensure('refused', err is not None)
    S.ensure('library not called', len([n for n in lib.calls if 'rangeproof' in n]) == 0)


@contract('C15')
def nonce(S):
    """SHA-256 of the shared secret of a fresh key and the recipient's key;
    the nonce commitment is the public key of the fresh key"""
    zkp.fresh(S)
    pub = zkp.pubkey(S, 'pub')
    e = scalar(S, 'ephemeral')
    asked = []

    def rand(n):
        asked.append(n)
        return e
    err, r = S.catch(ec.generate_output_rangeproof_nonce, CPubKey(pub), _rand_func=rand)
    S.ensure('random bytes', asked == [32])
    if not zkp.bit('seckey', e):
        S.ensure('no key: raised', err is not None)
        return
    S.ensure('succeeds', err is None)
    S.ensure('types', type(r[0]) is Uint256 and isinstance(r[1], CPubKey))
    S.ensure_eq('nonce', r[0].data, hashlib.sha256(zkp.ecdh(zkp.pub_point(pub), e)).digest())
    S.ensure_eq('nonce commitment', bytes(r[1]), zkp.pub_ser33(zkp.uf_bytes('pubkey', 64, e)))


@contract('C15')
def nonce_invalid_key(S):
    """an invalid recipient key never gives a nonce"""
    zkp.fresh(S)
    p = S.bytes('pub', lo=0, hi=70)
    S.assume(not zkp.pub_valid(p))
    e = zkp.seckey(S, 'ephemeral')
    err, r = S.catch(ec.generate_output_rangeproof_nonce, CPubKey(p), _rand_func=lambda n: e)
    S.ensure('refused', isinstance(err, ValueError))


def surjection(S, lib, tags, gens, ins, asset, ob, g, seed):
    asked = []

    def rand(n):
        asked.append(n)
        return seed
    n = len(tags)
    err, r = S.catch(ec.generate_surjectionproof, [Uint256(t) for t in tags], gens, [Uint256(b) for b in ins],
                     ob, g, CAsset(asset), _rand_func=rand)
    S.ensure('random bytes', asked == [32])
    S.ensure('proof object is released', len(lib.live) == 0)
    a = zkp.sj_init_args(tags, min(3, n), asset, 100, seed)
    return err, r, a


def outcome(S, lib, err, r, a, k, blinder, gens, g, abf):
    done, a = zkp.called(S, lib, 'sj_init', *a)
    if not done:
        S.ensure('reported', err is None and r is None)
        return
    st = zkp.uf_bytes('sj_init', 32, *a)
    done, a = zkp.called(S, lib, 'sj_generate', *zkp.sj_gen_args(st, gens, g, k, blinder(k), abf))
    if not done:
        S.ensure('failure is raised', isinstance(err, RuntimeError))
        return
    st = zkp.uf_bytes('sj_generate', 32, *a)
    done, a = zkp.called(S, lib, 'sj_verify', st, b''.join(gens), zkp.be(len(gens)), g)
    if not done:
        S.ensure('failure is raised', isinstance(err, RuntimeError))
        return
    S.ensure('succeeds', err is None)
    S.ensure_eq('proof', r, zkp.proof_bytes(a[0]))


@contract('C15')
def surjection_proof(S):
    """the proof is initialized with the input assets, the output asset and
    random data, generated for the selected input with the input generators,
    output generator and the two blinding factors, verified and serialized"""
    lib = zkp.fresh(S, ALL)
    n = 1 + S.choice('number of inputs', 4)
    tags = [S.bytes('tag%d' % k, 32) for k in range(n)]
    gens = [zkp.gen(S.bytes('gen%d' % k, 32), S.bytes('genblind%d' % k, 32)) for k in range(n)]
    ins = [scalar(S, 'inblind%d' % k) for k in range(n)]
    asset = S.select('asset', tags) if S.choice('input of the asset', 2) else S.bytes('other asset', 32)
    abf, abfs = blinds(S, 'assetblinds')
    g, seed = zkp.gen(asset, abf), S.bytes('seed', 32)
    err, r, a = surjection(S, lib, tags, gens, ins, asset, abfs, g, seed)
    if not zkp.sj_possible(tags, asset):
        S.ensure('reported', err is None and r is None)
        return
    outcome(S, lib, err, r, a, zkp.sj_index(tags, a), lambda k: S.cases(k, ins), gens, g, abf)


@contract('C15')
def surjection_proof_any(S):
    """the same for any number of inputs that the library accepts (which of
    them it selects is left open)"""
    lib = zkp.fresh(S, ALL)
    lib.whole = True
    n = S.int('n', 1, 256)
    tags = S.seq('tags', lambda i: S.bytes('tag', 32), n=n, cls=list)
    gens = S.seq('gens', lambda i: S.bytes('gen', 64), n=n, cls=list)
    ins = S.seq('ins', lambda i: S.bytes('inblind', 32), n=n, cls=list)
    asset = S.bytes('asset', 32)
    abf, abfs = blinds(S, 'assetblinds')
    g, seed = zkp.gen(asset, abf), S.bytes('seed', 32)
    err, r, a = surjection(S, lib, tags, gens, ins, asset, abfs, g, seed)
    done, b = zkp.called(S, lib, 'sj_init', *a)
    outcome(S, lib, err, r, a, zkp.below(zkp.num('sj_index', 8, *b), n), lambda k: ins[k], gens, g, abf)


@contract('C15')
def surjection_counts(S):
    """lists of different lengths or elements of a wrong size never leave a
    proof object behind"""
    lib = zkp.fresh(S)
    lib.whole = True
    n = S.int('n', 1, 256)
    m = S.int('m', 0, 256)
    k = S.int('k', 0, 256)
    S.assume(m != n)
    tags = S.seq('tags', lambda i: Uint256(S.bytes('tag', 32)), n=n, cls=list)
    gens = S.seq('gens', lambda i: S.bytes('gen', S.int('size', 0, 100)), n=m, cls=list)
    ins = S.seq('ins', lambda i: Uint256(S.bytes('inblind', 32)), n=k, cls=list)
    err, r = S.catch(ec.generate_surjectionproof, tags, gens, ins, [Uint256(S.bytes('ob', 32))], S.bytes('g', 64),
                     CAsset(S.bytes('asset', 32)), _rand_func=lambda n: bytes(n))
    S.ensure('proof object is released', len(lib.live) == 0)


@contract('C15')
def holder_unblinds(S):
    """an output made with these primitives for the key of the recipient is
    unblinded by the recipient to exactly the data it was made of"""
    lib = zkp.fresh(S)
    lib.sure = lib.laws = True
    sk, e = zkp.seckey(S, 'key'), zkp.seckey(S, 'ephemeral')
    asset, abf, bf = S.bytes('asset', 32), S.bytes('assetblind', 32), S.bytes('blind', 32)
    v = S.int('amount', 0, 21000000 * 100000000)
    script = CElementsScript(S.bytes('script', lo=0, hi=MAX))
    key = CKey(sk)
    (nonce, eph) = ec.generate_output_rangeproof_nonce(key.pub, _rand_func=lambda n: e)
    (ca, g) = ec.blinded_asset(CAsset(asset), Uint256(abf))
    (cv, c) = ec.create_value_commitment(bf, g, v)
    proof = ec.generate_rangeproof([Uint256(bf)], nonce, v, script, c, g, CAsset(asset), [Uint256(abf)])
    r = ec.unblind_confidential_pair(
        blinding_key=key, confValue=cv, confAsset=ca, confNonce=ec.CConfidentialNonce(bytes(eph)),
        committedScript=script, rangeproof=proof)
    S.ensure('unblinds', r.ok)
    S.ensure_eq('amount', r.amount, v)
    S.ensure_eq('asset', r.asset.data, asset)
    S.ensure_eq('blinding factor', r.blinding_factor.data, bf)
    S.ensure_eq('asset blinding factor', r.asset_blinding_factor.data, abf)
