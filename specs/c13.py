"""C13 Refused blinding is reported and leaves the transaction unchanged

libsecp256k1-zkp is the stand-in of specs/zkp.py."""
from pv.contract import contract
from bitcointx.core.key import CPubKey, CKey
from bitcointx.core import Uint256
from elementstx.core import BlindingInputDescriptor, BlindingSuccess, BlindingFailure, CAsset, blind_transaction
from .lib import *
from .c12 import (an_input, an_output, prepare, build, run, request, issue, explicit, descriptor, check, NAMES,
                  blinded_input)
from . import zkp


def unchanged(S, d, tx):
    eq_tx(S, 'unchanged', tx, build(d))


def refused(S, d, tx, err, r):
    if err is not None:
        S.ensure('TypeError or ValueError', isinstance(err, (TypeError, ValueError)))
    else:
        S.ensure('reported as failure', type(r) is BlindingFailure)
        S.ensure('with an explanation', isinstance(r.error, str) and len(r.error) > 0)
    unchanged(S, d, tx)


def standard(S, wits=True):
    """a transaction and a request that could be fulfilled"""
    n = S.choice('witnesses', 2)
    d = prepare(S, [an_input(S, 0), an_input(S, 1)], [an_output(S, k, True) for k in range(2)], 2 * n, 2 * n)
    d.lib = zkp.fresh(S)
    request(S, d, 3)
    for x in d.descs:
        S.assume(x.blinding_factor.data != Z32)
    return d


def changed(x, **kw):
    f = dict(amount=x.amount, asset=x.asset, blinding_factor=x.blinding_factor,
             asset_blinding_factor=x.asset_blinding_factor)
    f.update(kw)
    return BlindingInputDescriptor(**f)


def strictness(S):
    return {} if S.choice('strict', 2) else {'is_blind_success_strict': False}


@contract('C13', bounded='2 inputs, 2 outputs')
def counts(S):
    """too many keys, wrong number of descriptors or generators"""
    d = standard(S)
    x, k = d.descs[0], CKey(zkp.seckey(S, 'key'))
    p = CPubKey(zkp.pubkey(S, 'pub'))
    g = b'\x0a' + S.bytes('generator', 32)
    bad = [('output_pubkeys', [p] * 3), ('output_pubkeys', [p] * 2 + [CPubKey()]),
           ('blind_issuance_asset_keys', [k] * 3), ('blind_issuance_asset_keys', [None] * 3),
           ('blind_issuance_token_keys', [None] * 2 + [k]), ('blind_issuance_token_keys', (None,) * 3),
           ('input_descriptors', []), ('input_descriptors', [x]), ('input_descriptors', [x] * 3),
           ('auxiliary_generators', [g])]
    i = S.choice('bad', len(bad))
    tx = build(d)
    err, r = run(S, d, tx, **{bad[i][0]: bad[i][1]}, **strictness(S))
    S.ensure('ValueError', isinstance(err, ValueError))
    refused(S, d, tx, err, r)


@contract('C13', bounded='2 inputs, 2 outputs')
def types(S):
    """arguments of other types"""
    d = standard(S)
    ok = d.descs[0]
    p, k = CPubKey(zkp.pubkey(S, 'pub')), CKey(zkp.seckey(S, 'key'))
    g = b'\x0a' + S.bytes('generator', 32)
    bad = [('output_pubkeys', [bytes(p)]), ('output_pubkeys', [p, None]), ('output_pubkeys', [p, k]),
           ('blind_issuance_asset_keys', [p]), ('blind_issuance_asset_keys', [b'']),
           ('blind_issuance_asset_keys', [None, 0]), ('blind_issuance_token_keys', ['']),
           ('blind_issuance_token_keys', [None, k.secret_bytes]), ('blind_issuance_token_keys', [False]),
           ('input_descriptors', [ok, changed(ok, amount=1.0)]), ('input_descriptors', [ok, changed(ok, amount=None)]),
           ('input_descriptors', [changed(ok, asset=Uint256(ok.asset.data)), ok]),
           ('input_descriptors', [changed(ok, asset=ok.asset.data), ok]),
           ('input_descriptors', [ok, changed(ok, blinding_factor=ok.blinding_factor.data)]),
           ('input_descriptors', [ok, changed(ok, asset_blinding_factor=None)]),
           ('auxiliary_generators', [g, None]), ('auxiliary_generators', [g, 'a' * 33]),
           ('auxiliary_generators', [g, g, [10] * 33])]
    i = S.choice('bad', len(bad))
    tx = build(d)
    err, r = run(S, d, tx, **{bad[i][0]: bad[i][1]}, **strictness(S))
    S.ensure('TypeError', isinstance(err, TypeError))
    refused(S, d, tx, err, r)


@contract('C13', bounded='2 inputs, 2 outputs')
def not_a_mutable_transaction(S):
    d = standard(S)
    tx = build(d).to_immutable()
    err, r = S.catch(lambda: blind_transaction(tx, input_descriptors=d.descs, output_pubkeys=[CPubKey(p) for p in d.pubs]))
    S.ensure('ValueError', isinstance(err, ValueError))
    unchanged(S, d, tx)
    bad = [None, b'', tx.vout[0]][S.choice('bad', 3)]
    err, r = S.catch(lambda: blind_transaction(bad, input_descriptors=d.descs, output_pubkeys=[]))
    S.ensure('TypeError', isinstance(err, TypeError))


@contract('C13', bounded='2 inputs, 2 outputs')
def generators(S):
    """unknown asset of an input without a valid generator"""
    d = standard(S)
    k = S.choice('unknown', 2)
    d.descs[k] = descriptor(S, 2, False)
    S.assume(d.descs[k].blinding_factor.data != Z32)
    good = b'\x0a' + S.bytes('good', 32)
    S.assume(zkp.gen_valid(good))
    bad = S.bytes('bad', lo=0, hi=100)
    if len(bad) == 33:
        S.assume(not zkp.gen_valid(bad))
    kind = S.choice('generators', 4)
    if kind == 1:
        d.aux = [good, good]
        d.aux[k] = bad
    elif kind == 2:
        d.aux = [good, good, bad]
    elif kind == 3:
        d.aux = [bad] * 3
        d.descs[k] = descriptor(S, 3)
    tx = build(d)
    d.lib.pick = 0
    if S.choice('bytearray', 2):
        err, r = run(S, d, tx, auxiliary_generators=[bytearray(a) for a in d.aux], **strictness(S))
    else:
        err, r = run(S, d, tx, **strictness(S))
    refused(S, d, tx, err, r)


@contract('C13', bounded='3 inputs, 1 output')
def more_inputs(S):
    """the same with more inputs than outputs"""
    d = prepare(S, [an_input(S, k) for k in range(3)], [an_output(S, 0, True)])
    d.lib = zkp.fresh(S)
    request(S, d, 1)
    k = S.choice('unknown', 3)
    d.descs[k] = descriptor(S, 3, False)
    for x in d.descs:
        S.assume(x.blinding_factor.data != Z32)
    good, bad = b'\x0a' + S.bytes('good', 32), S.bytes('bad', 33)
    S.assume(zkp.gen_valid(good))
    S.assume(not zkp.gen_valid(bad))
    d.aux = [good] * 4
    if S.choice('additional', 2):
        d.aux[3] = bad
    else:
        d.aux[k] = bad
    tx = build(d)
    d.lib.pick = 0
    err, r = run(S, d, tx, **strictness(S))
    refused(S, d, tx, err, r)


@contract('C13', bounded='2 inputs, 2 outputs')
def outputs(S):
    """outputs that cannot be blinded: value or asset not explicit, fee, proofs
    already there, invalid key"""
    d = standard(S)
    k = S.choice('output', 2)
    o = d.outs[k]
    what = S.choice('what', 5)
    if what == 0:
        o['value'] = any_conf(S, 'value', 'value').commitment
        S.assume(b_not(S, b_and(S, len(o['value']) == 9, S.byte0(o['value']) == 1)))
    elif what == 1:
        o['asset'] = any_conf(S, 'asset', 'asset').commitment
        S.assume(b_not(S, b_and(S, len(o['asset']) == 33, S.byte0(o['asset']) == 1)))
    elif what == 2:
        o['spk'] = b''
    elif what == 3:
        while len(d.outwit) < 2:
            d.outwit.append(dict(sp=b'', rp=b''))
        d.outwit[k] = dict(sp=S.bytes('proof.sp', lo=0, hi=MAX), rp=S.bytes('proof.rp', lo=0, hi=MAX))
        S.assume(len(d.outwit[k]['sp']) > 0 or len(d.outwit[k]['rp']) > 0)
    else:
        d.pubs[k] = S.bytes('key', lo=1, hi=100)
        S.assume(not zkp.pub_valid(d.pubs[k]))
    tx = build(d)
    err, r = run(S, d, tx, **strictness(S))
    refused(S, d, tx, err, r)


@contract('C13', bounded='2 inputs, 2 outputs')
def negative_amounts(S):
    """blinding factors of an input, but a negative amount"""
    d = standard(S)
    k = S.choice('input', 2)
    x = d.descs[k]
    bf, abf = S.bytes('bf', 32), S.bytes('abf', 32)
    d.descs[k] = changed(x, amount=S.int('negative', -(1 << 70), -1), blinding_factor=Uint256(bf),
                            asset_blinding_factor=Uint256(abf))
    blinded_input(S, d.descs[k])
    tx = build(d)
    err, r = run(S, d, tx, **strictness(S))
    refused(S, d, tx, err, r)


@contract('C13', bounded='2 inputs, 2 outputs', budget=1200)
def issuances(S):
    """issuances that cannot be blinded: no issuance, amounts not explicit,
    proofs already there, token of a reissuance"""
    n = S.choice('witnesses', 2)
    k = S.choice('input', 2)
    what = S.choice('what', 8)
    d = prepare(S, [an_input(S, i, {0: 0, 7: 2}.get(what, 1) if i == k else 0) for i in range(2)],
                [an_output(S, i, True) for i in range(2)], 2 * n, 2 * n)
    d.lib = zkp.fresh(S)
    request(S, d, 3)
    for x in d.descs:
        S.assume(x.blinding_factor.data != Z32)
    i = d.ins[k]
    if what == 0:
        if S.choice('token', 2):
            d.tkeys[k] = zkp.seckey(S, 'tkey')
        else:
            d.akeys[k] = zkp.seckey(S, 'akey')
    elif what in (1, 2):
        # an amount is not explicit
        issue(S, d, k, 2, 2)
        f = 'amount' if what == 1 else 'keys'
        i[f] = any_conf(S, 'not explicit', 'value').commitment
        S.assume(b_not(S, b_and(S, len(i[f]) == 9, S.byte0(i[f]) == 1)))
        if S.choice('other not blinded', 2):
            if what == 1:
                d.tkeys[k] = None
            else:
                d.akeys[k] = None
    elif what in (3, 4):
        # a commitment is there and no blinding was requested for it
        issue(S, d, k, 1, 1)
        i['amount' if what == 3 else 'keys'] = bytes([S.int('prefix', 8, 9)]) + S.bytes('commitment', 32)
    elif what in (5, 6):
        issue(S, d, k, 2, 2)
        while len(d.inwit) < 2:
            d.inwit.append(dict(stack=[], arp=b'', krp=b'', pstack=[]))
        proof = S.bytes('proof', lo=1, hi=MAX)
        d.inwit[k]['arp' if what == 5 else 'krp'] = proof
    else:
        issue(S, d, k, S.choice('asset', 3), 1 + S.choice('token', 2))
    tx = build(d)
    d.lib.pick = 0
    i['t'] = 1 if i['kind'] == 1 else None
    err, r = run(S, d, tx, **strictness(S))
    refused(S, d, tx, err, r)


@contract('C13', bounded='1 input, 2 outputs')
def cannot_balance(S):
    """a single item to be blinded and no blinded input; nothing but issuances
    to be blinded: refused in strict mode"""
    kind = S.choice('kind', 4)
    n = S.choice('witnesses', 2)
    d = prepare(S, [an_input(S, 0, 1 if kind else 0)], [an_output(S, i, True) for i in range(2)], n, 2 * n)
    d.lib = zkp.fresh(S)
    d.descs[0] = changed(d.descs[0], blinding_factor=Uint256(), asset_blinding_factor=Uint256())
    if kind == 0:
        request(S, d, 1 + S.choice('requested', 2))
    else:
        issue(S, d, 0, 1 + (kind & 1), 1 + (kind >> 1))
    tx = build(d)
    d.lib.pick = 0
    err, r = run(S, d, tx)
    refused(S, d, tx, err, r)


@contract('C13', bounded='1 input with an issuance, 2 outputs', budget=1200)
def failures_inside(S):
    """whatever fails on the way: the transaction is unchanged unless success
    is reported, and then everything is blinded"""
    d = prepare(S, [an_input(S, 0, 1)], [an_output(S, i, True) for i in range(2)], 0, 0)
    d.lib = zkp.fresh(S, {n: 0.15 for n in NAMES})
    issue(S, d, 0, 2, 1 + S.choice('token', 2))
    request(S, d, 3)
    S.assume(d.descs[0].blinding_factor.data != Z32)
    d.lib.pick = 0
    tx = build(d)
    err, r = run(S, d, tx, NAMES)
    if err is not None:
        S.ensure('RuntimeError', isinstance(err, RuntimeError))
    if err is not None or type(r) is BlindingFailure:
        unchanged(S, d, tx)
        return
    check(S, d, tx, err, r)
