CORE = 'elementstx/core/__init__.py'
FAKE = r'''
import hashlib, ctypes, elementstx
from bitcointx import select_chain_params
select_chain_params('elements')
import bitcointx.core.secp256k1 as bs, elementstx.core.secp256k1 as es
from bitcointx.core import Uint256
from bitcointx.core.key import CKey, CPubKey
from elementstx.core import *
import elementstx.core as ec
from elementstx.core import CElementsMutableTxInWitness, CElementsMutableTxOutWitness
from elementstx.core.script import CElementsScript
V, A, N = CConfidentialValue, CConfidentialAsset, CConfidentialNonce
n = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


# libsecp256k1-zkp in an ideal group: points are their discrete logarithms
def H(*a):
    m = hashlib.sha256()
    for x in a:
        m.update(len(x).to_bytes(4, 'big') + x)
    return m.digest()


def I(b): return int.from_bytes(b, 'big')
def B(v): return (v % n).to_bytes(32, 'big')
def pt(kind, s): return B(s) + H(b'kind', kind.encode())


def un(kind, b):
    assert b[32:] == H(b'kind', kind.encode()), 'not a ' + kind
    return I(b[:32])


def rd(p, k): return (p.raw if isinstance(p, ctypes.Array) else bytes(p))[:k]
def wr(p, b): ctypes.memmove(p, b, len(b))
def obj(r): return r._obj


class Lib:
    def __init__(self): self.proofs, self.sj, self.calls, self.fail = {}, {}, [], set()
    def ok(self, f, *a):
        self.calls.append((f,) + a)
        return 0 if f in self.fail else 1
    def secp256k1_ec_seckey_verify(self, c, k): return int(0 < I(rd(k, 32)) < n)
    def secp256k1_ec_pubkey_create(self, c, o, k): wr(o, pt('pub', I(rd(k, 32)))); return 1
    def secp256k1_ec_pubkey_serialize(self, c, o, l, p, f):
        s = un('pub', rd(p, 64)); wr(o, bytes([2 + (s & 1)]) + B(s)); obj(l).value = 33; return 1
    def parse(self, kind, base, o, d, k=33):
        d = rd(d, k)
        if len(d) != 33 or d[0] != base + (d[32] & 1) or not 0 < I(d[1:]) < n: return 0
        wr(o, pt(kind, I(d[1:]))); return 1
    def secp256k1_ec_pubkey_parse(self, c, o, d, k): return self.parse('pub', 2, o, d, k)
    def secp256k1_generator_parse(self, c, o, d): return self.parse('gen', 10, o, d)
    def secp256k1_pedersen_commitment_parse(self, c, o, d): return self.parse('com', 8, o, d)
    def secp256k1_ecdh(self, c, o, p, k, f, x): wr(o, H(b'ecdh', B(un('pub', rd(p, 64)) * I(rd(k, 32))))); return 1
    def secp256k1_generator_generate(self, c, o, a): return self.secp256k1_generator_generate_blinded(c, o, a, bytes(32))
    def secp256k1_generator_generate_blinded(self, c, o, a, b):
        wr(o, pt('gen', I(H(b'asset', rd(a, 32))) + I(rd(b, 32)))); return self.ok('gen')
    def ser(self, kind, base, o, g): s = un(kind, rd(g, 64)); wr(o, bytes([base + (s & 1)]) + B(s)); return 1
    def secp256k1_generator_serialize(self, c, o, g): return self.ser('gen', 10, o, g)
    def secp256k1_pedersen_commitment_serialize(self, c, o, g): return self.ser('com', 8, o, g)
    def secp256k1_pedersen_commit(self, c, o, b, v, g):
        wr(o, pt('com', I(rd(b, 32)) + v * un('gen', rd(g, 64)))); return self.ok('commit')
    def secp256k1_pedersen_blind_generator_blind_sum(self, c, v, gb, fb, t, k):
        def it(a, j): return ctypes.string_at(ctypes.cast(a, ctypes.POINTER(ctypes.c_void_p))[j], 32)
        s = 0
        for j in range(t):
            x = v[j] * I(it(gb, j)) + (I(it(fb, j)) if j < t - 1 else 0)
            s += x if j < k else -x
        ctypes.memmove(ctypes.cast(fb, ctypes.POINTER(ctypes.c_void_p))[t - 1], B(s), 32)
        return self.ok('blind_sum')
    def secp256k1_rangeproof_sign(self, c, pr, pl, mn, cm, b, nn, e, bits, v, m, ml, x, xl, g):
        k = (rd(nn, 32), rd(cm, 64), b'' if x is None else rd(x, xl), rd(g, 64))
        p = H(b'rp', *k) * 2; self.proofs[(p,) + k] = (rd(b, 32), v, rd(m, ml))
        wr(pr, p); obj(pl).value = len(p)
        return self.ok('sign', dict(min=mn, exp=e, bits=bits, value=v, script=k[2], msg=rd(m, ml), nonce=k[0]))
    def secp256k1_rangeproof_rewind(self, c, bo, vo, m, ol, nn, mn, mx, cm, p, l, x, xl, g):
        r = self.proofs.get((rd(p, l), rd(nn, 32), rd(cm, 64), b'' if x is None else rd(x, xl), rd(g, 64)))
        if r is None: return 0
        wr(bo, r[0]); obj(vo).value = r[1]; wr(m, r[2]); obj(ol).value = len(r[2]); return 1
    def secp256k1_surjectionproof_allocate_initialized(self, c, po, ix, t, k, u, tag, it, seed):
        t, tag = rd(t, 32 * k), rd(tag, 32); t = [t[32 * j:32 * j + 32] for j in range(k)]
        if not self.ok('sj_init', t, tag) or tag not in t: return 0
        h = 77 + len(self.calls); obj(po).value = h; obj(ix).value = t.index(tag); self.sj[h] = H(b'sj', *t, tag); return 1
    def h(self, o): return o.value if hasattr(o, 'value') else o
    def secp256k1_surjectionproof_generate(self, c, o, gs, k, g, ix, ib, ob):
        gs, g, ix = rd(gs, 64 * k), rd(g, 64), self.h(ix)
        if (un('gen', gs[64 * ix:64 * ix + 64]) - I(rd(ib, 32)) - un('gen', g) + I(rd(ob, 32))) % n: return 0
        self.sj[self.h(o)] = H(b'sjp', gs, g); return self.ok('sj_generate')
    def secp256k1_surjectionproof_verify(self, c, o, gs, k, g):
        return int(self.sj[self.h(o)] == H(b'sjp', rd(gs, 64 * k), rd(g, 64))) and self.ok('sj_verify')
    def secp256k1_surjectionproof_serialized_size(self, c, o): return 32
    def secp256k1_surjectionproof_serialize(self, c, out, l, o): wr(out, self.sj[self.h(o)]); return 1
    def secp256k1_surjectionproof_destroy(self, o): del self.sj[self.h(o)]


lib, ctx = Lib(), ctypes.c_void_p(1)
cap = dict(has_pubkey_recovery=True, has_privkey_negate=True, has_pubkey_negate=True, has_ecdh=True,
           has_xonly_pubkeys=True, has_schnorrsig=True)
bs._secp256k1 = bs.Secp256k1(lib=lib, ctx=bs.Secp256k1_Contexts(sign=ctx, verify=ctx), cap=bs.Secp256k1_Capabilities(**cap))
es._secp256k1 = es.Secp256k1_ZKP(lib=lib, ctx=es.Secp256k1_ZKP_Contexts(sign=ctx, verify=ctx, blind=ctx),
                                 cap=es.Secp256k1_ZKP_Capabilities(has_zkp=True, **cap))
cnt = [0]


def rand(k):
    cnt[0] += 1
    return H(b'rand', bytes([cnt[0]]))[:k]


def key(j): return CKey(H(b'key', bytes([j])))
asset = CAsset(b'\x07' * 32)
other = CAsset(b'\x08' * 32)


def desc(v, bf=3, abf=5, a=asset):
    return BlindingInputDescriptor(amount=v, asset=a, blinding_factor=Uint256(B(bf)), asset_blinding_factor=Uint256(B(abf)))


def txin(k=1, **kw): return CElementsMutableTxIn(CElementsMutableOutPoint(bytes([k]) * 32, k), **kw)
def txout(v, a=asset, spk=b'\x51'): return CElementsMutableTxOut(V(v), CElementsScript(spk), A(a))


def side(v, abf, bf): return v * I(abf.data) + I(bf.data)


def check_outputs(tx, r, vals, pubs, descs):
    """all outputs with a key are blinded, the balance is right"""
    s = sum(side(x.amount, x.asset_blinding_factor, x.blinding_factor) for x in descs)
    for k, (v, a) in enumerate(vals):
        bf, abf = r.blinding_factors[k], r.asset_blinding_factors[k]
        if k >= len(pubs) or not pubs[k]:
            assert bf.is_null() and abf.is_null() and tx.vout[k].nValue.to_amount() == v
            continue
        ca, g = ec.blinded_asset(a, abf)
        cv, c = ec.create_value_commitment(bf.data, g, v)
        assert tx.vout[k].nAsset == ca, 'asset commitment of output %d' % k
        assert tx.vout[k].nValue == cv, 'value commitment of output %d' % k
        s -= side(v, abf, bf)
        u = tx.vout[k].unblind_confidential_pair(pubs[k], tx.wit.vtxoutwit[k].rangeproof)
        assert u.ok and u.amount == v and u.asset == a and u.blinding_factor == bf and u.asset_blinding_factor == abf, u
    return s % n
'''
BUGS = [
 dict(id='C12-input-factors', property='C12',
      edits=[(CORE, """        if (
            not input_descriptors[nIn].blinding_factor.is_null()
            or not input_descriptors[nIn].asset_blinding_factor.is_null()
        ):""", """        if not input_descriptors[nIn].blinding_factor.is_null():""")],
      needs='an input with an asset blinding factor, but a zero value blinding factor',
      breaks='the asset blinding factor of that input is left out of the balance',
      demo=FAKE + r'''
tx = CElementsMutableTransaction([txin(1), txin(2)], [txout(30), txout(70)])
d = [desc(60, bf=0, abf=9), desc(40)]
ks = [key(1), key(2)]
r = tx.blind(input_descriptors=d, output_pubkeys=[k.pub for k in ks], _rand_func=rand)
assert r.ok, r
assert check_outputs(tx, r, [(30, asset), (70, asset)], ks, d) == 0, 'not balanced'
'''),
 dict(id='C12-issuance-count', property='C12',
      edits=[(CORE, """                    nBlindAttempts + nBlindsIn, nIssuanceBlindAttempts + nBlindsIn)""",
              """                    nBlindAttempts + nBlindsIn, min(nIssuanceBlindAttempts, len(tx.vin)) + nBlindsIn)""")],
      needs='blinding an input that issues both asset and tokens',
      breaks='a blinded issuance is taken as an output in the balance',
      demo=FAKE + r'''
i = txin(1, assetIssuance=CAssetIssuance(Uint256(), Uint256(b'\x03' * 32), V(500), V(2)))
tx = CElementsMutableTransaction([i], [txout(30), txout(70)])
d = [desc(100)]
ks = [key(1), key(2)]
r = tx.blind(input_descriptors=d, output_pubkeys=[k.pub for k in ks], blind_issuance_asset_keys=[key(3)],
             blind_issuance_token_keys=[key(4)], _rand_func=rand)
assert r.ok and r.num_successfully_blinded == 4
s = check_outputs(tx, r, [(30, asset), (70, asset)], ks, d)
e = ec.generate_asset_entropy(i.prevout, b'\x03' * 32)
for k, v, a, cv, p in ((key(3), 500, ec.calculate_asset(e), tx.vin[0].assetIssuance.nAmount, tx.wit.vtxinwit[0].issuanceAmountRangeproof),
                       (key(4), 2, ec.calculate_reissuance_token(e, True), tx.vin[0].assetIssuance.nInflationKeys, tx.wit.vtxinwit[0].inflationKeysRangeproof)):
    u = ec.unblind_confidential_pair(blinding_key=k, confValue=cv, confAsset=A(a), confNonce=N(), committedScript=CElementsScript(), rangeproof=p)
    assert u.ok and u.amount == v, u
    s += I(u.blinding_factor.data)
assert s % n == 0, 'not balanced'
'''),
 dict(id='C12-factor-index', property='C12',
      edits=[(CORE, """            output_blinding_factors[nOut] = blinds[-1]
            output_asset_blinding_factors[nOut] = assetblinds[-1]
""", """            output_blinding_factors[nOut] = blinds[-1]
            output_asset_blinding_factors[output_asset_blinding_factors.index(None)] = assetblinds[-1]
""")],
      needs='blinding an output that comes after one that is not blinded',
      breaks='the asset blinding factor is reported for another output',
      demo=FAKE + r'''
tx = CElementsMutableTransaction([txin(1)], [txout(30), txout(70)])
d = [desc(100)]
r = tx.blind(input_descriptors=d, output_pubkeys=[CPubKey(), key(2).pub], _rand_func=rand)
assert r.ok, r
assert check_outputs(tx, r, [(30, asset), (70, asset)], [None, key(2)], d) == 0, 'not balanced'
'''),
 dict(id='C12-token-confidential', property='C12',
      edits=[(CORE, """                blind_issuance = (len(blind_issuance_token_keys) > i
                                  and blind_issuance_token_keys[i] is not None)""",
              """                blind_issuance = any(k is not None for k in blind_issuance_token_keys)""")],
      needs='two issuances with tokens, of which only one is blinded, and an output of the other token',
      breaks='the surjection proof refers to a wrong token id, so that blinding the output of the real token fails',
      demo=FAKE + r'''
def mk():
    return CElementsMutableTransaction(
        [txin(k, assetIssuance=CAssetIssuance(Uint256(), Uint256(bytes([k]) * 32), V(500), V(2))) for k in (1, 2)],
        [txout(2, tok), txout(30)])


i = txin(1)
tok = ec.calculate_reissuance_token(ec.generate_asset_entropy(i.prevout, b'\x01' * 32), False)
tx = mk()
d = [desc(100), desc(100)]
ks = [key(1), key(2)]
r = tx.blind(input_descriptors=d, output_pubkeys=[k.pub for k in ks], blind_issuance_token_keys=[None, key(4)], _rand_func=rand)
assert r.ok, r
check_outputs(tx, r, [(2, tok), (30, asset)], ks, d)
'''),
 dict(id='C13-proof-present', property='C13',
      edits=[(CORE, """            if len(tx.wit.vtxoutwit) > nOut and not tx.wit.vtxoutwit[nOut].is_null():""",
              """            if len(tx.wit.vtxoutwit) > nOut and len(tx.wit.vtxoutwit[nOut].rangeproof):""")],
      needs='an output with a surjection proof and no range proof',
      breaks='such an output is blinded again',
      demo=FAKE + r'''
tx = CElementsMutableTransaction([txin(1)], [txout(30), txout(70)])
tx.wit = CElementsMutableTxWitness([], [CElementsMutableTxOutWitness(b'\x01\x02', b'')])
before = tx.serialize()
r = tx.blind(input_descriptors=[desc(100)], output_pubkeys=[key(1).pub, key(2).pub], _rand_func=rand)
assert isinstance(r, ec.BlindingFailure)
assert tx.serialize() == before
'''),
 dict(id='C13-aux-count', property='C13',
      edits=[(CORE, """                if result != 1:
                    assert result == 0
                    return BlindingFailure(
                        'auxiliary""", """                if result != 1 and i < len(output_pubkeys):
                    assert result == 0
                    return BlindingFailure(
                        'auxiliary""")],
      needs='an invalid auxiliary generator for an input after as many inputs as there are keys',
      breaks='blinding with an invalid generator is not refused',
      demo=FAKE + r'''
tx = CElementsMutableTransaction([txin(1), txin(2), txin(3)], [txout(30), txout(70)])
g, _ = ec.blinded_asset(asset, Uint256(B(5)))
bad = b'\x0a' + b'\x00' * 32
before = tx.serialize()
d = [desc(60), desc(40), BlindingInputDescriptor(amount=0, asset=CAsset(), blinding_factor=Uint256(), asset_blinding_factor=Uint256())]
try:
    r = tx.blind(input_descriptors=d, output_pubkeys=[key(1).pub, key(2).pub],
                 auxiliary_generators=[g.commitment, g.commitment, bad], _rand_func=rand)
    assert isinstance(r, ec.BlindingFailure), 'invalid generator accepted'
except (ValueError, TypeError):
    pass
assert tx.serialize() == before
'''),
 dict(id='C13-negative-abf', property='C13',
      edits=[(CORE, """            if input_descriptors[nIn].amount < 0:""",
              """            if input_descriptors[nIn].amount < 0 and not input_descriptors[nIn].blinding_factor.is_null():""")],
      needs='a negative amount for an input that has only an asset blinding factor',
      breaks='the negative amount is accepted',
      demo=FAKE + r'''
tx = CElementsMutableTransaction([txin(1), txin(2)], [txout(30), txout(70)])
before = tx.serialize()
r = tx.blind(input_descriptors=[desc(100), desc(-1, bf=0)], output_pubkeys=[key(1).pub, key(2).pub], _rand_func=rand)
assert isinstance(r, ec.BlindingFailure), 'negative amount accepted'
assert tx.serialize() == before
'''),
 dict(id='C13-strict-issuance', property='C13',
      edits=[(CORE, """                # Successfully blinded this issuance
                nSuccessfullyBlinded += 1
""", """                # Successfully blinded this issuance
                nSuccessfullyBlinded += 1 + nPseudo
""")],
      needs='strict mode, a blinded token issuance, and an output whose asset is not among the inputs',
      breaks='a blinding that failed for one output is reported as success',
      demo=FAKE + r'''
i = txin(1, assetIssuance=CAssetIssuance(Uint256(), Uint256(b'\x03' * 32), V(500), V(2)))
tx = CElementsMutableTransaction([i], [txout(30), txout(70, other)])
before = tx.serialize()
r = tx.blind(input_descriptors=[desc(100)], output_pubkeys=[key(1).pub, key(2).pub],
             blind_issuance_token_keys=[key(4)], _rand_func=rand)
assert isinstance(r, ec.BlindingFailure), 'reported as success'
assert tx.serialize() == before
'''),

 dict(id='C14-null-nonce-script', property='C14',
      edits=[(CORE, '''        committedScript = CElementsScript()
        nonce = blinding_key.secret_bytes
''', '''        nonce = blinding_key.secret_bytes
''')],
      needs='unblinding a pair without nonce, with a script given',
      breaks='a rangeproof made for an issuance cannot be opened when a script is given',
      demo=FAKE + r'''
ca, g = ec.blinded_asset(asset, Uint256(B(5)))
cv, c = ec.create_value_commitment(B(3), g, 70)
k = key(1)
p = ec.generate_rangeproof([Uint256(B(3))], Uint256(k.secret_bytes), 70, CElementsScript(), c, g, asset, [Uint256(B(5))])
for spk in (b'', b'\x51'):
    u = ec.unblind_confidential_pair(blinding_key=k, confValue=cv, confAsset=ca, confNonce=N(), committedScript=CElementsScript(spk), rangeproof=p)
    assert u.ok and u.amount == 70 and u.asset == asset, u
'''),
 dict(id='C14-explicit-asset', property='C14',
      edits=[(CORE, '''    if observed_generator.raw != derived_generator.raw:
        return UnblindingFailure(''', '''    if confAsset.is_commitment() and observed_generator.raw != derived_generator.raw:
        return UnblindingFailure(''')],
      needs='a pair with an explicit asset, and a rangeproof whose message names another asset',
      breaks='unblinding succeeds with the asset named by the message',
      demo=FAKE + r'''
k = key(1)
for a, want in ((asset, True), (other, False)):
    _, g = ec.blinded_asset(asset, Uint256())
    cv, c = ec.create_value_commitment(B(3), g, 70)
    p = ec.generate_rangeproof([Uint256(B(3))], Uint256(k.secret_bytes), 70, CElementsScript(), c, g, a, [Uint256()])
    u = ec.unblind_confidential_pair(blinding_key=k, confValue=cv, confAsset=A(asset), confNonce=N(), committedScript=CElementsScript(), rangeproof=p)
    assert u.ok == want, u
    assert not want or u.asset == asset
'''),
 dict(id='C14-message-length', property='C14',
      edits=[(CORE, '''    if msg_size.value != 64:
''', '''    if msg_size.value > 64:
''')],
      needs='a rangeproof whose message is shorter than 64 bytes',
      breaks='a short message is taken as asset and blinding factor filled up with zeros',
      demo=FAKE + r'''
k = key(1)
_, g = ec.blinded_asset(asset, Uint256())
cv, c = ec.create_value_commitment(B(3), g, 70)
pr, l = ctypes.create_string_buffer(5134), ctypes.c_size_t(5134)
for m, want in ((asset.data + bytes(32), True), (asset.data, False)):
    lib.secp256k1_rangeproof_sign(None, pr, ctypes.byref(l), 0, c, B(3), k.secret_bytes, 0, 36, 70, m, len(m), None, 0, g)
    u = ec.unblind_confidential_pair(blinding_key=k, confValue=cv, confAsset=A(asset), confNonce=N(), committedScript=CElementsScript(), rangeproof=pr.raw[:l.value])
    assert u.ok == want, u
'''),
 dict(id='C15-unspendable', property='C15',
      edits=[(CORE, '''        0 if scriptPubKey.is_unspendable() else 1,
''', '''        0 if not len(scriptPubKey) or scriptPubKey[0] == 0x6a else 1,
''')],
      needs='a script of more than 10000 bytes',
      breaks='the range proof for an output that cannot be spent does not allow zero as the minimal value',
      demo=FAKE + r'''
_, g = ec.blinded_asset(asset, Uint256(B(5)))
_, c = ec.create_value_commitment(B(3), g, 0)
for spk, mn in ((b'\x6a\x01\x02', 0), (b'\x51' * 10001, 0), (b'\x51' * 10000, 1), (b'', 0)):
    ec.generate_rangeproof([Uint256(B(3))], Uint256(B(9)), 70, CElementsScript(spk), c, g, asset, [Uint256(B(5))])
    assert lib.calls[-1][1]['min'] == mn, (len(spk), lib.calls[-1][1]['min'])
'''),
 dict(id='C15-zero-exponent', property='C15',
      edits=[(CORE, '''    if custom_ct_exponent is not None:
        ensure_isinstance''', '''    if custom_ct_exponent:
        ensure_isinstance''')],
      needs='a custom exponent of zero, while the default of the chain is another one',
      breaks='the custom exponent is ignored',
      demo=FAKE + r'''
_, g = ec.blinded_asset(asset, Uint256(B(5)))
_, c = ec.create_value_commitment(B(3), g, 0)
from elementstx.core import CoreElementsParams
CoreElementsParams.CT_EXPONENT = 2
for e in (None, 3, 0):
    ec.generate_rangeproof([Uint256(B(3))], Uint256(B(9)), 70, CElementsScript(b'\x51'), c, g, asset, [Uint256(B(5))], custom_ct_exponent=e)
    assert lib.calls[-1][1]['exp'] == (2 if e is None else e), (e, lib.calls[-1])
'''),
 dict(id='C15-proof-leak', property='C15',
      edits=[(CORE, '''    finally:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)

    return serialized_proof.raw
''', '''    except ValueError:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
        raise

    secp256k1.lib.secp256k1_surjectionproof_destroy(proof)

    return serialized_proof.raw
''')],
      needs='a failure of the library after the proof object was allocated',
      breaks='the proof object is not released',
      demo=FAKE + r'''
_, g = ec.blinded_asset(asset, Uint256(B(5)))
_, og = ec.blinded_asset(asset, Uint256(B(6)))
args = [Uint256(asset.data)], [g], [Uint256(B(5))], [Uint256(B(6))], og, asset
assert ec.generate_surjectionproof(*args, _rand_func=rand)
assert not lib.sj
for f in 'sj_generate', 'sj_verify':
    lib.fail = {f}
    try:
        ec.generate_surjectionproof(*args, _rand_func=rand)
        assert 0, 'no error'
    except RuntimeError:
        pass
    assert not lib.sj, 'proof object not released'
'''),
]
