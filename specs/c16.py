"""C16 Immutable objects never change, conversions keep the content

`frozen` is the invariant of immutable objects: every part is of a type that
cannot change.  It holds for whatever the constructors, conversions and the
parser make; `thawed` and `apart` are the counterparts for mutable objects."""
from pv.contract import contract
from .lib import *

PLAIN = (bytes, CElementsScript)
PAIRS = [(CElementsOutPoint, CElementsMutableOutPoint), (CElementsTxIn, CElementsMutableTxIn),
         (CElementsTxOut, CElementsMutableTxOut), (CElementsTxInWitness, CElementsMutableTxInWitness),
         (CElementsTxOutWitness, CElementsMutableTxOutWitness), (CElementsTxWitness, CElementsMutableTxWitness),
         (CElementsTransaction, CElementsMutableTransaction)]


# ---- the invariants

def f_conf(S, nm, c, cls):
    S.ensure(nm + ': class', type(c) is cls)
    S.ensure(nm + ': content', type(c.commitment) is bytes)


def f_uint(S, nm, u):
    S.ensure(nm + ': class', type(u) in (Uint256, CAsset) and type(u.data) is bytes)


def f_stack(S, nm, w):
    S.ensure(nm + ': class', type(w) is CScriptWitness and type(w.stack) is tuple)
    S.each(nm, w.stack, w.stack, lambda a, b: S.ensure(nm + ': item', type(a) is bytes))


def f_issuance(S, nm, a):
    S.ensure(nm + ': class', type(a) is CAssetIssuance)
    f_uint(S, nm + ' nonce', a.assetBlindingNonce)
    f_uint(S, nm + ' entropy', a.assetEntropy)
    f_conf(S, nm + ' amount', a.nAmount, CConfidentialValue)
    f_conf(S, nm + ' keys', a.nInflationKeys, CConfidentialValue)


def inv_outpoint(S, nm, o, m):
    S.ensure(nm + ': class', type(o) is PAIRS[0][m])
    S.ensure(nm + ': hash', type(o.hash) is bytes and type(o.n) is int)


def inv_txin(S, nm, x, m):
    S.ensure(nm + ': class', type(x) is PAIRS[1][m])
    inv_outpoint(S, nm + ' prevout', x.prevout, m)
    S.ensure(nm + ': plain fields', type(x.scriptSig) is CElementsScript and type(x.nSequence) is int and type(x.is_pegin) is bool)
    f_issuance(S, nm + ' issuance', x.assetIssuance)


def inv_txout(S, nm, o, m):
    S.ensure(nm + ': class', type(o) is PAIRS[2][m])
    S.ensure(nm + ': script', type(o.scriptPubKey) is CElementsScript)
    f_conf(S, nm + ' value', o.nValue, CConfidentialValue)
    f_conf(S, nm + ' asset', o.nAsset, CConfidentialAsset)
    f_conf(S, nm + ' nonce', o.nNonce, CConfidentialNonce)


def inv_inwit(S, nm, w, m):
    S.ensure(nm + ': class', type(w) is PAIRS[3][m])
    S.ensure(nm + ': proofs', type(w.issuanceAmountRangeproof) is bytes and type(w.inflationKeysRangeproof) is bytes)
    f_stack(S, nm + ' stack', w.scriptWitness)
    f_stack(S, nm + ' pegin stack', w.pegin_witness)


def inv_outwit(S, nm, w, m):
    S.ensure(nm + ': class', type(w) is PAIRS[4][m])
    S.ensure(nm + ': proofs', type(w.surjectionproof) is bytes and type(w.rangeproof) is bytes)


def inv_wit(S, nm, w, m):
    S.ensure(nm + ': class', type(w) is PAIRS[5][m])
    S.ensure(nm + ': sequences', type(w.vtxinwit) is (list if m else tuple) and type(w.vtxoutwit) is (list if m else tuple))
    S.each(nm + ' input', w.vtxinwit, w.vtxinwit, lambda a, b: inv_inwit(S, nm + ' input', a, m))
    S.each(nm + ' output', w.vtxoutwit, w.vtxoutwit, lambda a, b: inv_outwit(S, nm + ' output', a, m))


def inv_tx(S, nm, t, m):
    S.ensure(nm + ': class', type(t) is PAIRS[6][m])
    S.ensure(nm + ': plain fields', type(t.nVersion) is int and type(t.nLockTime) is int)
    S.ensure(nm + ': sequences', type(t.vin) is (list if m else tuple) and type(t.vout) is (list if m else tuple))
    S.each(nm + ' input', t.vin, t.vin, lambda a, b: inv_txin(S, nm + ' input', a, m))
    S.each(nm + ' output', t.vout, t.vout, lambda a, b: inv_txout(S, nm + ' output', a, m))
    inv_wit(S, nm + ' witness', t.wit, m)


# ---- nothing that can change is shared

def apart_obj(S, nm, a, b):
    S.ensure(nm + ': another object', a is not b)


def apart_txin(S, nm, a, b):
    S.ensure(nm + ': another object', a is not b)
    S.ensure(nm + ': another prevout', a.prevout is not b.prevout)


def apart_wit(S, nm, a, b):
    S.ensure(nm + ': another object', a is not b)
    S.ensure(nm + ': other sequences', a.vtxinwit is not b.vtxinwit and a.vtxoutwit is not b.vtxoutwit)
    S.each(nm, a.vtxinwit, b.vtxinwit, lambda x, y: apart_obj(S, nm + ' input', x, y))
    S.each(nm, a.vtxoutwit, b.vtxoutwit, lambda x, y: apart_obj(S, nm + ' output', x, y))


def apart_tx(S, nm, a, b):
    S.ensure(nm + ': another object', a is not b)
    S.ensure(nm + ': other sequences', a.vin is not b.vin and a.vout is not b.vout)
    S.each(nm, a.vin, b.vin, lambda x, y: apart_txin(S, nm + ' input', x, y))
    S.each(nm, a.vout, b.vout, lambda x, y: apart_obj(S, nm + ' output', x, y))
    if len(a.wit.vtxinwit) == len(b.wit.vtxinwit) and len(a.wit.vtxoutwit) == len(b.wit.vtxoutwit):
        apart_wit(S, nm + ' witness', a.wit, b.wit)


# ---- equality of the content

def eq_outpoint(S, nm, a, b):
    S.ensure_eq(nm + ' hash', a.hash, b.hash)
    S.ensure_eq(nm + ' index', a.n, b.n)


def eq_wit(S, nm, a, b):
    S.each(nm, a.vtxinwit, b.vtxinwit, lambda x, y: eq_inwit(S, nm + ' input', x, y))
    S.each(nm, a.vtxoutwit, b.vtxoutwit, lambda x, y: eq_outwit(S, nm + ' output', x, y))


def outpoint(S, p, m):
    return PAIRS[0][m](S.bytes(p + '.hash', 32), S.int(p + '.n', 0, U32))


def any_wit(S, p, m):
    return PAIRS[5][m](S.seq(p + '.wi', lambda i: inwit(S, p + '.wi', m), 0, MAX, cls=list),
                       S.seq(p + '.wo', lambda i: outwit(S, p + '.wo', m), 0, MAX, cls=list))


KINDS = [('outpoint', outpoint, eq_outpoint, inv_outpoint, apart_obj),
         ('input', txin, eq_txin, inv_txin, apart_txin),
         ('output', txout, eq_txout, inv_txout, apart_obj),
         ('input witness', inwit, eq_inwit, inv_inwit, apart_obj),
         ('output witness', outwit, eq_outwit, inv_outwit, apart_obj),
         ('witness', any_wit, eq_wit, inv_wit, apart_wit)]


def convert(S, o, m, pair):
    """one conversion; whether the result is mutable, and is another object"""
    how = ['clone', 'to_mutable', 'to_immutable', 'immutable from_instance', 'mutable from_instance'][S.choice('conversion', 5)]
    if how == 'clone':
        return o.clone(), m
    if how == 'to_mutable':
        return o.to_mutable(), 1
    if how == 'to_immutable':
        return o.to_immutable(), 0
    if how == 'immutable from_instance':
        return pair[0].from_instance(o), 0
    return pair[1].from_instance(o), 1


def converted(S, name, build, eq, inv, apart, pair):
    m = S.choice('mutable', 2)
    o = build(S, 'x', m)
    inv(S, 'source', o, m)
    r, rm = convert(S, o, m, pair)
    inv(S, 'result', r, rm)
    eq(S, 'result', r, o)
    inv(S, 'source after', o, m)
    if m or rm:
        apart(S, 'result', r, o)


@contract('C16')
def conversions(S):
    """parts of transactions: every conversion keeps the content, shares nothing that can change"""
    k = S.choice('kind', len(KINDS))
    converted(S, *KINDS[k], PAIRS[k])


def full_wit_tx(S, p, m):
    """with a witness of matching size, or an immutable one without"""
    if not m and S.choice('without witness', 2):
        return mktx(S, p, mutable=m, wit='none')
    vin = S.seq(p + '.vin', lambda i: txin(S, p + '.in', m), 0, MAX, cls=list)
    vout = S.seq(p + '.vout', lambda i: txout(S, p + '.out', m), 0, MAX, cls=list)
    w = mkwit(S, p, m, len(vin), len(vout))
    t = PAIRS[6][m](vin, vout, S.int(p + '.locktime', 0, U32), S.int(p + '.version', -(1 << 31), (1 << 31) - 1), w)
    eq_body(S, 'built', t, vin, vout)
    eq_wit(S, 'built', t.wit, w)
    return t


def eq_body(S, nm, t, vin, vout):
    S.each(nm + ' inputs', t.vin, vin, lambda x, y: eq_txin(S, nm + ' input', x, y))
    S.each(nm + ' outputs', t.vout, vout, lambda x, y: eq_txout(S, nm + ' output', x, y))


def eq_whole(S, nm, a, b):
    eq_tx(S, nm, a, b, wit=False)
    if len(b.wit.vtxinwit) == 0 and len(b.wit.vtxoutwit) == 0:
        # one that has no records may get empty ones
        S.ensure(nm + ' without witness', null_wit(S, a.wit))
    else:
        eq_wit(S, nm, a.wit, b.wit)


@contract('C16')
def transaction_conversions(S):
    """transactions"""
    converted(S, 'transaction', full_wit_tx, eq_whole, inv_tx, apart_tx, PAIRS[6])


# ---- attribute assignment

def any_conf_of(kind):
    def build(S, p, m):
        return conf(S, p, kind)
    return build


def eq_conf(S, nm, a, b):
    S.ensure_eq(nm, a.commitment, b.commitment)


def eq_uint(S, nm, a, b):
    S.ensure_eq(nm, a.data, b.data)


OBJECTS = [(k[0], k[1], k[2]) for k in KINDS] + [
    ('transaction', lambda S, p, m: mktx(S, p, mutable=m), eq_tx),
    ('asset commitment', any_conf_of('asset'), eq_conf), ('value commitment', any_conf_of('value'), eq_conf),
    ('nonce', any_conf_of('nonce'), eq_conf),
    ('issuance', lambda S, p, m: issuance(S, p), eq_issuance),
    ('asset', lambda S, p, m: CAsset(S.bytes(p + '.asset', 32)), eq_uint)]
NAMES = ['hash', 'n', 'prevout', 'scriptSig', 'nSequence', 'assetIssuance', 'is_pegin', 'nValue', 'nAsset', 'nNonce',
         'scriptPubKey', 'surjectionproof', 'rangeproof', 'scriptWitness', 'issuanceAmountRangeproof',
         'inflationKeysRangeproof', 'pegin_witness', 'vtxinwit', 'vtxoutwit', 'vin', 'vout', 'wit', 'nVersion', 'nLockTime',
         'commitment', 'assetBlindingNonce', 'assetEntropy', 'nAmount', 'nInflationKeys', 'data', 'stack',
         '_cached_GetHash', '_cached__hash__', '__class__', '__dict__', 'serialize', 'another']


@contract('C16')
def assignment(S):
    """no attribute of an immutable object can be assigned or deleted"""
    nm, build, eq = OBJECTS[S.choice('kind', len(OBJECTS))]
    o = build(S, 'x', 0)
    before = type(o)
    kept = fields(o)
    for n in NAMES:
        v = [None, 0, b'', (), kept][S.choice('value', 5)] if n == 'another' else None
        err, _ = S.catch(setattr, o, n, v)
        S.ensure('assignment refused', isinstance(err, AttributeError))
        err, _ = S.catch(delattr, o, n)
        S.ensure('deletion refused', isinstance(err, AttributeError))
        if hasattr(o, n) and n in kept:
            S.ensure('assignment of the same refused', isinstance(S.catch(setattr, o, n, getattr(o, n))[0], AttributeError))
    S.ensure('class', type(o) is before)
    for n in kept:
        S.ensure('same ' + n, getattr(o, n) is kept[n])


def fields(o):
    return {n: getattr(o, n) for n in NAMES[:31] if hasattr(o, n)}


# ---- data passed to constructors

def changeable(S, name, n=None, lo=0, hi=MAX):
    """bytes as bytes or bytearray; the value, and the argument"""
    b = S.bytes(name, n) if n is not None else S.bytes(name, lo=lo, hi=hi)
    return b, (bytearray(b) if S.choice(name + ' is bytearray', 2) else b)


def change(*args):
    for a in args:
        if isinstance(a, bytearray):
            a.append(1)


@contract('C16')
def constructor_bytes(S):
    """changing a bytearray after it was passed to a constructor changes nothing"""
    k = S.choice('kind', 7)
    m = S.choice('mutable', 2) if k < 4 else 0
    if k == 0:
        b, a = changeable(S, 'hash', 32)
        o = PAIRS[0][m](a, 5)
        change(a)
        S.ensure_eq('hash', o.hash, b)
        inv_outpoint(S, 'outpoint', o, m)
    elif k == 1:
        b, a = changeable(S, 'amount')
        c, d = changeable(S, 'keys')
        o = PAIRS[3][m](CScriptWitness(), a, d)
        change(a, d)
        S.ensure_eq('amount proof', o.issuanceAmountRangeproof, b)
        S.ensure_eq('keys proof', o.inflationKeysRangeproof, c)
        inv_inwit(S, 'witness', o, m)
    elif k == 2:
        b, a = changeable(S, 'surjection')
        c, d = changeable(S, 'range')
        o = PAIRS[4][m](a, d)
        change(a, d)
        S.ensure_eq('surjection proof', o.surjectionproof, b)
        S.ensure_eq('range proof', o.rangeproof, c)
        inv_outwit(S, 'witness', o, m)
    elif k == 3:
        b, a = changeable(S, 'script')
        if S.choice('output', 2):
            o = PAIRS[2][m](scriptPubKey=CElementsScript(a))
            change(a)
            S.ensure_eq('script', bytes(o.scriptPubKey), b)
            inv_txout(S, 'output', o, m)
        else:
            o = PAIRS[1][m](scriptSig=CElementsScript(a))
            change(a)
            S.ensure_eq('script', bytes(o.scriptSig), b)
            inv_txin(S, 'input', o, m)
    elif k == 4:
        cls, n = [(CConfidentialAsset, 33), (CConfidentialValue, 9), (CConfidentialValue, 33), (CConfidentialNonce, 33)][S.choice('field', 4)]
        b, a = changeable(S, 'commitment', n)
        o = cls(a)
        change(a)
        S.ensure_eq('commitment', o.commitment, b)
        f_conf(S, 'field', o, cls)
    elif k == 5:
        b, a = changeable(S, 'data', 32)
        o = [Uint256, CAsset][S.choice('class', 2)](a)
        change(a)
        S.ensure_eq('data', o.data, b)
        f_uint(S, 'number', o)
    else:
        b, a = changeable(S, 'item', 40)
        l = [a]
        o = CScriptWitness(l)
        change(a)
        l.append(b'')
        S.ensure_eq('number', len(o.stack), 1)
        S.ensure_eq('item', o.stack[0], b)
        f_stack(S, 'stack', o)


@contract('C16')
def constructor_parts(S):
    """immutable objects made from mutable parts and lists, and the other way round: same content, nothing shared"""
    m = S.choice('mutable', 2)
    pm = S.choice('mutable parts', 2)
    k = S.choice('kind', 3)
    if k == 0:
        p = outpoint(S, 'p', pm)
        o = PAIRS[1][m](p)
        eq_outpoint(S, 'prevout', o.prevout, p)
        inv_txin(S, 'input', o, m)
        S.ensure('another prevout', not (m or pm) or o.prevout is not p)
    elif k == 1:
        wi = S.seq('wi', lambda i: inwit(S, 'wi', pm), 0, MAX, cls=list)
        wo = S.seq('wo', lambda i: outwit(S, 'wo', pm), 0, MAX, cls=list)
        o = PAIRS[5][m](wi, wo)
        inv_wit(S, 'witness', o, m)
        S.each('inputs', o.vtxinwit, wi, lambda x, y: eq_inwit(S, 'input', x, y))
        S.each('outputs', o.vtxoutwit, wo, lambda x, y: eq_outwit(S, 'output', x, y))
        S.ensure('other lists', o.vtxinwit is not wi and o.vtxoutwit is not wo)
        if m or pm:
            S.each('inputs', o.vtxinwit, wi, lambda x, y: apart_obj(S, 'input', x, y))
            S.each('outputs', o.vtxoutwit, wo, lambda x, y: apart_obj(S, 'output', x, y))
    else:
        vin = S.seq('vin', lambda i: txin(S, 'in', pm), 0, MAX, cls=list)
        vout = S.seq('vout', lambda i: txout(S, 'out', pm), 0, MAX, cls=list)
        w = mkwit(S, 'w', pm, len(vin), len(vout))
        o = PAIRS[6][m](vin, vout, S.int('locktime', 0, U32), S.int('version', -(1 << 31), (1 << 31) - 1), w)
        inv_tx(S, 'transaction', o, m)
        eq_body(S, 'transaction', o, vin, vout)
        eq_wit(S, 'transaction', o.wit, w)
        S.ensure('other lists', o.vin is not vin and o.vout is not vout)
        if m or pm:
            S.each('inputs', o.vin, vin, lambda x, y: apart_txin(S, 'input', x, y))
            S.each('outputs', o.vout, vout, lambda x, y: apart_obj(S, 'output', x, y))
            apart_wit(S, 'witness', o.wit, w)


# ---- methods

@contract('C16')
def methods(S):
    """the methods of an immutable object leave it as it was"""
    nm, build, eq = OBJECTS[S.choice('kind', len(OBJECTS))]
    o = build(S, 'x', 0)
    kept = fields(o)
    k = S.choice('method', 9)
    if k == 0:
        a = o.serialize()
        S.ensure_eq('again', o.serialize(), a)
    elif k == 1:
        a = o.GetHash()
        S.ensure_eq('hash of the encoding', a, dsha(o.serialize()))
        S.ensure_eq('again', o.GetHash(), a)
    elif k == 2 and hasattr(o, 'to_mutable'):
        o.to_mutable()
        S.ensure('its own copy', o.clone() is o)
    elif k == 3 and hasattr(o, 'is_null'):
        o.is_null()
    elif k == 4 and nm == 'transaction':
        S.ensure_eq('id', o.GetTxid(), o.GetTxid())
        o.has_witness()
        o.is_coinbase()
    elif k == 5 and nm == 'transaction':
        o.num_issuances
    elif k == 6 and nm in ('asset commitment', 'value commitment', 'nonce'):
        o.is_explicit(), o.is_commitment(), o.is_valid()
        S.catch(o.to_asset if nm == 'asset commitment' else o.to_amount if nm == 'value commitment' else o.is_null)
    elif k == 7 and nm == 'output':
        o.is_fee()
        S.ensure_eq('again', bytes(o.scriptPubKey), bytes(kept['scriptPubKey']))
    for n in kept:
        S.ensure('same ' + n, getattr(o, n) is kept[n])


def parsing(S, wit):
    m = S.choice('mutable', 2)
    t = mktx(S, 'x', mutable=m, wit=wit)
    r = PAIRS[6][m].deserialize(t.serialize())
    inv_tx(S, 'parsed', r, m)


@contract('C16')
def parsed(S):
    """what the parser makes, without witness"""
    parsing(S, 'none')


@contract('C16', tier='thorough')
def parsed_witness(S):
    """what the parser makes"""
    parsing(S, 'any')


# ---- histories

@contract('C16', bounded='one input and one output (for any number: nothing is shared, see conversions)')
def changed_copy(S):
    """a change of any part of a mutable copy is seen in the copy and not in the source"""
    m = S.choice('mutable', 2)
    t = PAIRS[6][m]([txin(S, 'in', m)], [txout(S, 'out', m)], S.int('locktime', 0, U32), S.int('version', 0, 9),
                    PAIRS[5][m]([inwit(S, 'wi', m)], [outwit(S, 'wo', m)]))
    a, h = t.serialize(), t.GetHash()
    c = t.to_mutable()
    S.ensure_eq('hash of the copy', c.GetHash(), h)
    k = S.choice('change', 10)
    before = fields(t.vin[0]), fields(t.vout[0]), fields(t.wit)
    if k == 0:
        c.nVersion = S.int('new version', 0, 9)
        S.assume(c.nVersion != t.nVersion)
    elif k == 1:
        c.vin[0].prevout.n = S.int('new n', 0, 0x3fffffff)
    elif k == 2:
        c.vin[0].is_pegin = not c.vin[0].is_pegin
    elif k == 3:
        c.vout[0].scriptPubKey = CElementsScript(S.bytes('new script', lo=0, hi=100))
    elif k == 4:
        c.vin.append(CElementsMutableTxIn())
    elif k == 5:
        c.vout.append(CElementsMutableTxOut())
    elif k == 6:
        c.wit.vtxoutwit[0].rangeproof = b'123'
    elif k == 7:
        c.wit.vtxinwit[0].scriptWitness = CScriptWitness([b'1'])
    elif k == 8:
        c.wit = CElementsMutableTxWitness()
    else:
        c.nLockTime = S.int('new time', 0, U32)
    S.ensure_eq('hash follows', c.GetHash(), dsha(c.serialize()))
    S.ensure_eq('source', t.serialize(), a)
    S.ensure_eq('hash of the source', t.GetHash(), h)
    for x, y in zip(before, (t.vin[0], t.vout[0], t.wit)):
        for n in x:
            S.ensure('part of the source ' + n, getattr(y, n) is x[n])
    d = c.to_immutable()
    S.ensure_eq('back', d.serialize(), c.serialize())
