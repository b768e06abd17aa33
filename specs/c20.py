"""C20 Results of blinding and unblinding cannot be misread"""
from pv.contract import contract
from bitcointx.core import Uint256
from elementstx.core import (
    CAsset, BlindingFailure, BlindingSuccess, UnblindingFailure, UnblindingSuccess, BlindingInputDescriptor)
from . import lib                                       # noqa: F401

MAX_MONEY = 21000000 * 100000000


def u256(S, name):
    return Uint256(S.bytes(name, 32))


def success(S, k):
    """any success result"""
    if k == 0:
        return BlindingSuccess(num_successfully_blinded=S.int('n', 0, 1000),
                               blinding_factors=[u256(S, 'f%d' % j) for j in range(S.choice('factors', 3))],
                               asset_blinding_factors=[u256(S, 'g%d' % j) for j in range(S.choice('asset factors', 3))])
    return UnblindingSuccess(asset=CAsset(S.bytes('asset', 32)), amount=S.int('amount', 0, MAX_MONEY),
                             blinding_factor=u256(S, 'bf'), asset_blinding_factor=u256(S, 'abf'))


@contract('C20')
def success_ok(S):
    """a success has no error text, is ok and is not a truth value"""
    r = success(S, S.choice('class', 2))
    S.ensure('no error', r.error == '')
    S.ensure('ok', isinstance(r.ok, bool) and r.ok == True)
    err, _ = S.catch(bool, r)
    S.ensure('no truth value', isinstance(err, TypeError))
    err, _ = S.catch(negation, r)
    S.ensure('no negation', isinstance(err, TypeError))


def negation(r):
    return 1 if not r else 2


@contract('C20')
def failure_not_ok(S):
    """a failure has an error text, is not ok and is not a truth value"""
    cls = [BlindingFailure, UnblindingFailure][S.choice('class', 2)]
    text = S.text('text')
    err, r = S.catch(cls, text)
    S.ensure('refused iff there is no text', (err is not None) == (text == ''))
    if err is not None:
        return
    S.ensure('text', r.error == text)
    S.ensure('not empty', r.error != '')
    S.ensure('not ok', isinstance(r.ok, bool) and r.ok == False)
    err, _ = S.catch(bool, r)
    S.ensure('no truth value', isinstance(err, TypeError))
    err, _ = S.catch(negation, r)
    S.ensure('no negation', isinstance(err, TypeError))


@contract('C20')
def failure_text_type(S):
    """the error text is a str"""
    cls = [BlindingFailure, UnblindingFailure][S.choice('class', 2)]
    err, r = S.catch(cls, [None, b'x', 5, ['x'], True][S.choice('bad', 5)])
    S.ensure('refused', isinstance(err, Exception))


@contract('C20')
def unblinding_fields(S):
    """an unblinding success keeps its fields and gives them in the descriptor"""
    a, n = S.bytes('asset', 32), S.int('amount', -(1 << 70), 1 << 70)
    bf, abf = u256(S, 'bf'), u256(S, 'abf')
    asset = CAsset(a)
    if S.choice('keywords', 2):
        err, r = S.catch(UnblindingSuccess, asset=asset, amount=n, blinding_factor=bf, asset_blinding_factor=abf)
    else:
        err, r = S.catch(UnblindingSuccess, asset, n, bf, abf)
    S.ensure('refused iff outside the money range', (err is None) == ((n >= 0) & (n <= MAX_MONEY)))
    if err is not None:
        return
    d = r.get_descriptor()
    S.ensure('class of the descriptor', type(d) is BlindingInputDescriptor)
    for x, who in ((r, 'result'), (d, 'descriptor')):
        S.ensure_eq('asset of the ' + who, x.asset.data, a)
        S.ensure('class of the asset of the ' + who, isinstance(x.asset, CAsset))
        S.ensure('amount of the ' + who, x.amount == n)
        S.ensure_eq('factor of the ' + who, x.blinding_factor.data, bf.data)
        S.ensure_eq('asset factor of the ' + who, x.asset_blinding_factor.data, abf.data)


@contract('C20')
def unblinding_types(S):
    """fields of wrong types are refused"""
    args = [CAsset(S.bytes('asset', 32)), S.int('amount', 0, MAX_MONEY), u256(S, 'bf'), u256(S, 'abf')]
    k = S.choice('field', 4)
    x = S.bytes('x', 32)
    args[k] = [[Uint256(x), x, None, 5], [None, 1.5, b'\x01', '5'], ['x', x, None, 5],
               ['x', x, None, 5]][k][S.choice('bad', 4)]
    err, r = S.catch(UnblindingSuccess, *args)
    S.ensure('refused', isinstance(err, Exception))


@contract('C20')
def blinding_fields(S):
    """a blinding success keeps its fields"""
    n = S.int('n', 0, 1 << 40)
    f = S.seq('factors', lambda i: u256(S, 'f'))
    g = S.seq('asset factors', lambda i: u256(S, 'g'))
    r = BlindingSuccess(num_successfully_blinded=n, blinding_factors=f, asset_blinding_factors=g)
    S.ensure('number', r.num_successfully_blinded == n)
    S.ensure('factors', len(r.blinding_factors) == len(f))
    S.ensure('asset factors', len(r.asset_blinding_factors) == len(g))
    S.each('factor', r.blinding_factors, f, lambda a, b: S.ensure_eq('factor', a.data, b.data))
    S.each('asset factor', r.asset_blinding_factors, g, lambda a, b: S.ensure_eq('asset factor', a.data, b.data))


@contract('C20')
def blinding_types(S):
    """fields of wrong types are refused"""
    k = S.choice('field', 3)
    n = [None, 1.5, '3', b'3'][S.choice('bad', 4)] if k == 0 else 3
    m = S.choice('position', 3)
    bad = ['x', S.bytes('y', 32), None, 7][S.choice('bad factor', 4)]
    f = [bad if k == 1 and m == j else u256(S, 'f%d' % j) for j in range(3)]
    g = [bad if k == 2 and m == j else u256(S, 'g%d' % j) for j in range(3)]
    err, r = S.catch(BlindingSuccess, n, f, g)
    S.ensure('refused', isinstance(err, Exception))
