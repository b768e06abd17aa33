"""C12 Successful blinding preserves the balance and returns the true factors

libsecp256k1-zkp is the stand-in of specs/zkp.py; its functions succeed here.
In the verifier the balance follows from the contract of
secp256k1_pedersen_blind_generator_blind_sum: the last factor is the one that
balances exactly the amounts and factors that it was given.  In native runs the
equation is computed in the ideal group."""
import hashlib
from pv.contract import contract
from pv.models import same_term, single_app
from bitcointx.core.key import CPubKey, CKey
from bitcointx.core import Uint256
from elementstx.core import (
    BlindingInputDescriptor, BlindingSuccess, CAsset, CConfidentialAsset, CConfidentialValue, CConfidentialNonce)
from .c08 import midstate
from .lib import *
from . import zkp

EXPONENT, BITS = 0, 52          # chainparams of Elements
MAX_MONEY = 21000000 * 100000000
NULL = b''


def amount(S, name, lo=0):
    return S.int(name, lo, MAX_MONEY)


class Data:
    """what the transaction and the request are made of"""


def entropy_of(S, i):
    return midstate(S, dsha(i['hash'] + i['n'].to_bytes(4, 'little')) + i['entropy'])


def explicit(v):
    return b'' if v is None else b'\x01' + zkp.be(v)


def mktxin(i):
    return CElementsMutableTxIn(
        CElementsMutableOutPoint(i['hash'], i['n']), CElementsScript(i['scriptSig']), i['nSequence'],
        CAssetIssuance(Uint256(i['nonce']), Uint256(i['entropy']), CConfidentialValue(i['amount']),
                       CConfidentialValue(i['keys'])), i['pegin'])


def mktxout(o):
    return CElementsMutableTxOut(CConfidentialValue(o['value']), CElementsScript(o['spk']),
                                 CConfidentialAsset(o['asset']), CConfidentialNonce(o['nonce']))


def mkinwit(w):
    return CElementsMutableTxInWitness(CScriptWitness(w['stack']), w['arp'], w['krp'], CScriptWitness(w['pstack']))


def mkoutwit(w):
    return CElementsMutableTxOutWitness(w['sp'], w['rp'])


def build(d):
    wit = CElementsMutableTxWitness([mkinwit(w) for w in d.inwit], [mkoutwit(w) for w in d.outwit])
    return CElementsMutableTransaction([mktxin(i) for i in d.ins], [mktxout(o) for o in d.outs], d.lock, d.version, wit)


def an_input(S, k, kind=0):
    """kind 1: new issuance, 2: reissuance"""
    p = 'in%d.' % k
    i = dict(hash=S.bytes(p + 'hash', 32), n=S.int(p + 'n', 0, 0x3ffffffe), scriptSig=S.bytes(p + 'sig', lo=0, hi=MAX),
             nSequence=S.int(p + 'seq', 0, U32), nonce=Z32, entropy=Z32, amount=NULL, keys=NULL,
             pegin=S.bool(p + 'pegin'), kind=kind, a=None, t=None)
    if kind == 2:
        i['nonce'] = S.bytes(p + 'bnonce', 32)
        S.assume(i['nonce'] != Z32)
    if kind:
        i['entropy'] = S.bytes(p + 'entropy', 32)
    return i


def an_output(S, k, plain=False):
    p = 'out%d.' % k
    spk = S.bytes(p + 'spk', lo=1, hi=MAX)
    if plain:
        S.assume(spk[0] != 0x6a)
        S.assume(len(spk) <= 10000)
    v, a = amount(S, p + 'amount'), S.bytes(p + 'asset', 32)
    return dict(value=explicit(v), v=v, spk=spk, asset=b'\x01' + a, a=a, nonce=NULL)


def descriptor(S, k, known=True):
    p = 'desc%d.' % k
    a = S.bytes(p + 'asset', 32) if known else Z32
    if known:
        S.assume(a != Z32)
    return BlindingInputDescriptor(amount=amount(S, p + 'amount'), asset=CAsset(a),
                                   blinding_factor=Uint256(S.bytes(p + 'bf', 32)),
                                   asset_blinding_factor=Uint256(S.bytes(p + 'abf', 32)))


def prepare(S, ins, outs, nwi=0, nwo=0):
    d = Data()
    d.ins, d.outs = ins, outs
    d.inwit = [dict(stack=[S.bytes('wi%d.item' % k, lo=0, hi=500)], arp=b'', krp=b'', pstack=[]) for k in range(nwi)]
    d.outwit = [dict(sp=b'', rp=b'') for k in range(nwo)]
    d.lock, d.version = S.int('locktime', 0, U32), S.int('version', 1, 2)
    d.pubs = [None] * len(outs)         # requested outputs
    d.akeys = [None] * len(ins)         # requested issuances
    d.tkeys = [None] * len(ins)
    d.descs = [descriptor(S, k) for k in range(len(ins))]
    d.aux = []
    d.rands = []
    d.exp, d.bits, d.kw = EXPONENT, BITS, {}
    return d


def rand_func(S, d):
    def rand(n):
        S.ensure('random bytes', n == 32)
        k = len(d.rands)
        r = zkp.seckey(S, 'rand%d' % k)
        d.rands.append(r)
        return r
    return rand


def trim(a):
    """trailing entries for nothing need not be given"""
    while a and a[-1] is None:
        a = a[:-1]
    return a


NAMES = ('gen', 'gen_ser', 'commit', 'commit_ser', 'blind_sum', 'rangeproof', 'sj_init', 'sj_generate', 'sj_verify')


def run(S, d, tx, fails=(), **kw):
    """blind; fails: functions of the library that may fail"""
    d.lib.sure = tuple([n for n in NAMES if n not in fails])
    d.lib.whole = True
    d.lib.nonzero = True
    if d.lib.pick is None:
        n = len(d.ins) + len([i for i in d.ins if i['a'] is not None]) + len([i for i in d.ins if i['t'] is not None])
        d.lib.pick = S.choice('selected', n + len(d.aux[len(d.ins):]))
    zkp.MODE['short'] = True
    for k, i in enumerate(d.ins):
        if ids(S, d, k, i)[1] is not None:
            S.assume(i['token'] != Z32)     # a hash
    pubs = [CPubKey(p) if p is not None else CPubKey() for p in d.pubs]
    for k, v in (('output_pubkeys', pubs), ('input_descriptors', d.descs),
                 ('blind_issuance_asset_keys', trim([CKey(k) if k is not None else None for k in d.akeys])),
                 ('blind_issuance_token_keys', trim([CKey(k) if k is not None else None for k in d.tkeys])),
                 ('auxiliary_generators', d.aux)):
        kw.setdefault(k, v)
    kw.update(d.kw)
    return S.catch(lambda: tx.blind(_rand_func=rand_func(S, d), **kw))


def ids(S, d, k, i):
    """ids of the asset and the token that are issued"""
    i['asset'] = i['token'] = None
    if i['kind']:
        e = entropy_of(S, i) if i['kind'] == 1 else i['entropy']
        if i['a'] is not None:
            i['asset'] = midstate(S, e + Z32)
        if i['t'] is not None:
            i['token'] = midstate(S, e + bytes([2 if d.tkeys[k] is not None else 1]) + bytes(31))
    return i['asset'], i['token']


def targets(S, d):
    """what surjection proofs refer to: asset, generator, blinding factor of
    the inputs and their issuances"""
    r = []
    for k, i in enumerate(d.ins):
        x = d.descs[k]
        if x.asset.data == Z32:
            r.append((Z32, zkp.gen_point(d.aux[k]), x.asset_blinding_factor.data))
        else:
            a, b = x.asset.data, x.asset_blinding_factor.data
            r.append((a, zkp.gen(a, b), b))
        for a in ids(S, d, k, i):
            if a is not None:
                r.append((a, zkp.gen(a, Z32), Z32))
    for g in d.aux[len(d.ins):]:
        r.append((Z32, zkp.gen_point(g), Z32))
    return r


def one_of(rands, f):
    """the random number for which f holds"""
    for r in rands:
        if f(r):
            return r
    return None


def matches(a, b):
    return b is not None and same_term(a, b)


def surjection(S, d, tg, o, g, abf):
    def f(seed):
        tags, gens = [t[0] for t in tg], [t[1] for t in tg]
        n = len(tg)
        a = zkp.sj_init_args([b''.join(tags)], min(3, n), o['a'], 100, seed, n)
        st = zkp.uf_bytes('sj_init', 32, *a)
        k = [i for (s, i) in d.lib.picked if same_term(s, st)]
        if not k:
            return None
        k = k[0]
        a = zkp.sj_gen_args(st, gens, g, k, [t[2] for t in tg][k], abf)
        return zkp.proof_bytes(zkp.uf_bytes('sj_generate', 32, *a))
    return f


def check(S, d, tx, err, r, extra=0):
    """everything that was requested is blinded, as it should be"""
    S.ensure('no exception', err is None)
    S.ensure('reported as success', type(r) is BlindingSuccess)
    S.ensure('success', r.ok if hasattr(r, 'ok') else True)
    requested = (len([p for p in d.pubs if p is not None]) + len([k for k in d.akeys if k is not None]) +
                 len([k for k in d.tkeys if k is not None]))
    failed = len([b for (n, a, b) in d.lib.log if n == 'sj_init' and not b])
    S.ensure('number of blinded items', r.num_successfully_blinded == requested - failed + extra)
    S.ensure('factors for every output', len(r.blinding_factors) == len(d.outs))
    S.ensure('asset factors for every output', len(r.asset_blinding_factors) == len(d.outs))
    S.ensure('inputs', len(tx.vin) == len(d.ins))
    S.ensure('outputs', len(tx.vout) == len(d.outs))
    S.ensure('witness for every output', len(tx.wit.vtxoutwit) == len(d.outs))
    S.ensure('witness of inputs', len(d.inwit) <= len(tx.wit.vtxinwit) <= len(d.ins))
    S.ensure_eq('lock time', tx.nLockTime, d.lock)
    S.ensure_eq('version', tx.nVersion, d.version)
    tg = targets(S, d)
    sum_in, sum_out = [], []
    for k, x in enumerate(d.descs):
        if x.blinding_factor.data != Z32 or x.asset_blinding_factor.data != Z32:
            sum_in.append((x.amount, x.asset_blinding_factor.data, x.blinding_factor.data))
    for k, i in enumerate(d.ins):
        check_input(S, d, k, i, tx.vin[k], sum_in)
        w = dict(d.inwit[k]) if k < len(d.inwit) else dict(stack=[], pstack=[])
        w['arp'], w['krp'] = i.get('arp', b''), i.get('krp', b'')
        if k < len(tx.wit.vtxinwit):
            eq_inwit(S, 'input witness', tx.wit.vtxinwit[k], mkinwit(w))
        else:
            S.ensure('witness of a blinded issuance', len(w['arp']) == 0 and len(w['krp']) == 0)
    for k, o in enumerate(d.outs):
        x, w = tx.vout[k], tx.wit.vtxoutwit[k]
        bf, abf = r.blinding_factors[k], r.asset_blinding_factors[k]
        S.ensure('factors are numbers', type(bf) is Uint256 and type(abf) is Uint256)
        S.ensure_eq('script', bytes(x.scriptPubKey), o['spk'])
        if d.pubs[k] is None:
            S.ensure_eq('factor of an unblinded output', bf.data, Z32)
            S.ensure_eq('asset factor of an unblinded output', abf.data, Z32)
            eq_txout(S, 'unblinded output', x, mktxout(o))
            S.ensure('no proofs', len(w.surjectionproof) == 0 and len(w.rangeproof) == 0)
            continue
        bf, abf = bf.data, abf.data
        sum_out.append((o['v'], abf, bf))
        g = zkp.gen(o['a'], abf)
        c = zkp.commitment(bf, o['v'], g)
        S.ensure_eq('asset commitment', x.nAsset.commitment, zkp.gen_ser(g))
        S.ensure_eq('value commitment', x.nValue.commitment, zkp.commit_ser(c))
        e = one_of(d.rands, lambda r: same_term(x.nNonce.commitment, zkp.pub_ser33(zkp.uf_bytes('pubkey', 64, r))))
        S.ensure('nonce commitment', e is not None)
        nonce = hashlib.sha256(zkp.ecdh(zkp.pub_point(d.pubs[k]), e)).digest()
        if failed and len(w.surjectionproof) == 0:
            S.ensure('no range proof without surjection proof', len(w.rangeproof) == 0)
            failed -= 1
            continue
        u = o['spk'][0] == 0x6a or len(o['spk']) > 10000
        a = zkp.sign_args(0 if u else 1, c, bf, nonce, d.exp, d.bits, o['v'], o['a'] + abf, o['spk'], g)
        S.ensure_eq('range proof', w.rangeproof, zkp.rangeproof(a))
        f = surjection(S, d, tg, o, g, abf)
        S.ensure('surjection proof', one_of(d.rands, lambda r: matches(w.surjectionproof, f(r))) is not None)
    S.ensure('every other output has proofs', failed == 0)
    if not extra:
        balance(S, d, sum_in, sum_out)


def check_input(S, d, k, i, x, sum_in):
    new = dict(i)
    for name, keys, field, proof, nm in (('a', d.akeys, 'amount', 'arp', 'asset'), ('t', d.tkeys, 'keys', 'krp', 'token')):
        if keys[k] is None:
            continue
        g = zkp.gen(i[nm], Z32)
        got = (x.assetIssuance.nAmount if name == 'a' else x.assetIssuance.nInflationKeys).commitment
        bf = one_of(d.rands, lambda r: same_term(got, zkp.commit_ser(zkp.commitment(r, i[name], g))))
        S.ensure('commitment of the issuance', bf is not None)
        c = zkp.commitment(bf, i[name], g)
        new[field] = zkp.commit_ser(c)
        sum_in.append((i[name], Z32, bf))
        a = zkp.sign_args(0, c, bf, keys[k], d.exp, d.bits, i[name], i[nm] + Z32, b'', g)
        i[proof] = zkp.rangeproof(a)
    eq_txin(S, 'input', x, mktxin(new))


def balance(S, d, sum_in, sum_out):
    """amount * asset factor + factor: the same for inputs and outputs"""
    if not S.symbolic:
        v = lambda group: sum([a * int.from_bytes(b, 'big') + int.from_bytes(f, 'big') for (a, b, f) in group]) % zkp.N
        S.ensure('balance', v(sum_in) == v(sum_out))
        return
    last, others = None, []
    for t in sum_out:
        x = single_app(t[2])
        if x is not None and x[0] == 'blind_sum':
            S.ensure('one balancing factor', last is None)
            last, args = t, x[1]
        else:
            others.append(t)
    S.ensure('balancing factor', last is not None)
    n, m = len(sum_in) + len(sum_out), len(sum_in)
    S.ensure_eq('number of terms', args[3], zkp.be(n))
    S.ensure_eq('number of input terms', args[4], zkp.be(m))
    S.ensure('sizes of terms', len(args[0]) == 8 * n and len(args[1]) == 32 * n and len(args[2]) == 32 * (n - 1))
    terms = [(args[0][8 * k:8 * k + 8], args[1][32 * k:32 * k + 32], args[2][32 * k:32 * k + 32]) for k in range(n)]
    S.ensure('balancing term', same_term(terms[-1][:2], (zkp.be(last[0]), last[1])))
    for want, got in ((sum_in, terms[:m]), (others, terms[m:-1])):
        want = sorted([repr_of((zkp.be(a), b, f)) for (a, b, f) in want])
        got = sorted([repr_of(t) for t in got])
        S.ensure('terms', want == got)


def repr_of(t):
    from pv import sym
    return repr(sym.arg_key(t))


def request(S, d, which):
    for k in range(len(d.outs)):
        if which >> k & 1:
            d.pubs[k] = zkp.pubkey(S, 'pub%d' % k)


def blinded_input(S, x):
    S.assume(x.blinding_factor.data != Z32 or x.asset_blinding_factor.data != Z32)


@contract('C12', bounded='1 input, 1 output', budget=1200)
def one_output(S):
    """an output with any script, any blinding factors of the input"""
    d = prepare(S, [an_input(S, 0)], [an_output(S, 0)], S.choice('nwi', 2), S.choice('nwo', 2))
    d.lib = zkp.fresh(S)
    request(S, d, 1)
    blinded_input(S, d.descs[0])
    tx = build(d)
    kw = {}
    if S.choice('not strict', 2):
        kw['is_blind_success_strict'] = False
    err, r = run(S, d, tx, **kw)
    check(S, d, tx, err, r)


@contract('C12', bounded='1 input, 2 outputs', budget=1200)
def two_outputs(S):
    d = prepare(S, [an_input(S, 0)], [an_output(S, k, True) for k in range(2)], 0, S.choice('nwo', 3))
    d.lib = zkp.fresh(S)
    which = 1 + S.choice('requested', 3)
    request(S, d, which)
    if which != 3:
        blinded_input(S, d.descs[0])
    tx = build(d)
    err, r = run(S, d, tx)
    check(S, d, tx, err, r)


@contract('C12', bounded='1 input, 2 outputs')
def partial(S):
    """not strict: outputs without surjection proof are not counted; the others
    are blinded and the balance is right"""
    d = prepare(S, [an_input(S, 0)], [an_output(S, k, True) for k in range(2)])
    d.lib = zkp.fresh(S, {'sj_init': 0.4})
    request(S, d, 1 + S.choice('requested', 3))
    S.assume(d.descs[0].blinding_factor.data != Z32)
    tx = build(d)
    err, r = run(S, d, tx, ('sj_init',), is_blind_success_strict=False)
    check(S, d, tx, err, r)


@contract('C12', bounded='1 input, 2 outputs')
def zero_factor(S):
    """if the balancing factor happens to be zero, the last output stays as it
    is"""
    d = prepare(S, [an_input(S, 0)], [an_output(S, k, True) for k in range(2)])
    d.lib = zkp.fresh(S)
    d.lib.zero = True
    which = S.choice('requested', 3)
    request(S, d, 1 + which)
    S.assume(d.descs[0].blinding_factor.data != Z32)
    tx = build(d)
    err, r = run(S, d, tx)
    d.pubs[0 if which == 0 else 1] = None
    check(S, d, tx, err, r, 1)


@contract('C12', bounded='2 inputs, 3 outputs', budget=1200)
def three_outputs(S):
    d = prepare(S, [an_input(S, 0), an_input(S, 1)], [an_output(S, k, True) for k in range(3)])
    d.lib = zkp.fresh(S)
    which = 1 + S.choice('requested', 7)
    request(S, d, which)
    blinded_input(S, d.descs[S.choice('blinded', 2)])
    tx = build(d)
    err, r = run(S, d, tx)
    check(S, d, tx, err, r)


@contract('C12', bounded='1 input, 1 output')
def parameters(S):
    """other parameters of the range proofs; keys given for the first outputs
    only"""
    d = prepare(S, [an_input(S, 0)], [an_output(S, k, True) for k in range(2)])
    d.lib = zkp.fresh(S)
    request(S, d, 1)
    blinded_input(S, d.descs[0])
    d.exp = d.kw['custom_ct_exponent'] = S.int('exponent', -1, 18)
    d.bits = d.kw['custom_ct_bits'] = S.int('bits', 0, 64)
    tx = build(d)
    pubs = [CPubKey(d.pubs[0])]
    err, r = run(S, d, tx, output_pubkeys=pubs if S.choice('list', 2) else tuple(pubs))
    check(S, d, tx, err, r)


@contract('C12', bounded='2 inputs, 1 output, at most 1 more generator')
def generators(S):
    """inputs of unknown asset with the generator given; more generators"""
    d = prepare(S, [an_input(S, 0), an_input(S, 1)], [an_output(S, 0, True)])
    d.lib = zkp.fresh(S)
    request(S, d, 1)
    which = S.choice('unknown', 4)
    for k in range(2):
        if which >> k & 1:
            d.descs[k] = descriptor(S, k + 2, False)
    blinded_input(S, d.descs[0])
    for k in range(2 + S.choice('more', 2)):
        g = bytes([S.int('aux%d.prefix' % k, 10, 11)]) + S.bytes('aux%d' % k, 32)
        S.assume(zkp.gen_valid(g))
        d.aux.append(g)
    tx = build(d)
    if S.choice('bytearray', 2):
        err, r = run(S, d, tx, auxiliary_generators=[bytearray(g) for g in d.aux])
    else:
        err, r = run(S, d, tx)
    check(S, d, tx, err, r)


def issue(S, d, k, asset, token):
    """amounts of an issuance; whether they are to be blinded"""
    i = d.ins[k]
    if asset:
        i['a'] = amount(S, 'issue%d.a' % k)
        i['amount'] = explicit(i['a'])
        if asset > 1:
            d.akeys[k] = zkp.seckey(S, 'akey%d' % k)
    if token:
        i['t'] = amount(S, 'issue%d.t' % k)
        i['keys'] = explicit(i['t'])
        if token > 1:
            d.tkeys[k] = zkp.seckey(S, 'tkey%d' % k)


@contract('C12', bounded='1 input with a new issuance, 1 output', budget=1200)
def new_issuance(S):
    """asset, token or both are issued and blinded or not"""
    d = prepare(S, [an_input(S, 0, 1)], [an_output(S, 0, True)], S.choice('nwi', 2))
    d.lib = zkp.fresh(S)
    a, t = S.choice('asset', 3), S.choice('token', 3)
    S.assume(a or t)
    issue(S, d, 0, a, t)
    request(S, d, 1)
    if max(a, t) < 2:
        blinded_input(S, d.descs[0])
    tx = build(d)
    err, r = run(S, d, tx)
    check(S, d, tx, err, r)


@contract('C12', bounded='2 inputs with new issuance or reissuance, 2 outputs', budget=1200)
def issuances(S):
    kinds = S.choice('kinds', 4)
    d = prepare(S, [an_input(S, k, 1 + (kinds >> k & 1)) for k in range(2)], [an_output(S, k, True) for k in range(2)])
    d.lib = zkp.fresh(S)
    for k in range(2):
        if kinds >> k & 1:
            issue(S, d, k, 1 + S.choice('blind%d' % k, 2), 0)
        else:
            issue(S, d, k, 1 + S.choice('blind%d' % k, 2), 2 * S.choice('token%d' % k, 2))
    request(S, d, 1 + S.choice('requested', 3))
    for x in d.descs:
        S.assume(x.blinding_factor.data != Z32)
    tx = build(d)
    err, r = run(S, d, tx)
    check(S, d, tx, err, r)


@contract('C12', bounded='2 inputs with new issuances, 1 output', budget=1200)
def tokens(S):
    """tokens of two issuances, blinded or not"""
    d = prepare(S, [an_input(S, k, 1) for k in range(2)], [an_output(S, 0, True)])
    d.lib = zkp.fresh(S)
    for k in range(2):
        issue(S, d, k, 1, S.choice('token%d' % k, 3))
    request(S, d, 1)
    for x in d.descs:
        S.assume(x.blinding_factor.data != Z32)
    tx = build(d)
    err, r = run(S, d, tx)
    check(S, d, tx, err, r)
