"""small functions with contracts that hold (ok_*) and that do not (bad_*):
the verifier has to accept the first and refuse the second"""
import struct
import hashlib
from io import BytesIO
from pv.contract import contract
from .lib import CElementsMutableTxIn, CElementsMutableOutPoint, CElementsScript


def pack(n):
    return struct.pack('<I', n) + bytes([n & 0xff])


def join(items):
    r = b''
    for x in items:
        r += bytes([len(x)]) + x
    return r


def total(items):
    t = 0
    for x in items:
        if len(x) > 3:
            t += len(x)
    return t


def find(items, what):
    for k, x in enumerate(items):
        if x == what:
            return k
    return -1


def read_all(f, n):
    return [f.read(1)[0] for _ in range(n)]


@contract('T')
def ok_pack(S):
    n = S.int('n', 0, 0xffffffff)
    S.ensure_eq('pack', pack(n), n.to_bytes(4, 'little') + bytes([n % 256]))


@contract('T')
def bad_pack(S):
    n = S.int('n', 0, 0xffffffff)
    S.ensure_eq('pack', pack(n), n.to_bytes(4, 'little') + bytes([0 if n == 0x12345678 else n % 256]))


@contract('T')
def bad_pack_range(S):
    n = S.int('n', 0, 0x100000000)
    S.ensure('length', len(pack(n)) == 5)


@contract('T')
def ok_join(S):
    items = S.seq('items', lambda i: S.bytes('item', lo=0, hi=255), 0, 1000)
    S.ensure_eq('join', join(items), b''.join([bytes([len(x)]) + x for x in items]))


@contract('T')
def bad_join(S):
    items = S.seq('items', lambda i: S.bytes('item', lo=0, hi=255), 0, 1000)
    S.ensure_eq('join', join(items), b''.join([bytes([len(x)]) + (x if len(x) != 77 else b'a' * 77) for x in items]))


@contract('T')
def bad_join_range(S):
    items = S.seq('items', lambda i: S.bytes('item', lo=0, hi=256), 0, 1000)
    S.ensure_eq('join', join(items), b''.join([bytes([len(x)]) + x for x in items]))


@contract('T')
def ok_total(S):
    items = S.seq('items', lambda i: S.bytes('item', lo=0, hi=255), 0, 1000)
    S.ensure('non-negative', total(items) >= 0)


@contract('T')
def bad_total(S):
    items = S.seq('items', lambda i: S.bytes('item', lo=0, hi=255), 0, 1000)
    S.ensure('small', total(items) < 2000)


@contract('T')
def ok_find(S):
    items = S.seq('items', lambda i: S.int('item', 0, 1000), 0, 1000)
    w = S.int('w', 0, 1000)
    k = find(items, w)
    S.ensure('in range', -1 <= k < len(items))
    if k >= 0:
        S.ensure('found', items[k] == w)
    else:
        S.forall('none', items, lambda x: x != w) if False else None


@contract('T')
def bad_find(S):
    items = S.seq('items', lambda i: S.int('item', 0, 1000), 0, 1000)
    w = S.int('w', 0, 1000)
    k = find(items, w)
    S.ensure('never late', k < 7)


@contract('T')
def ok_hash(S):
    b = S.bytes('b', lo=0, hi=1000)
    h = hashlib.sha256()
    h.update(b[:10])
    h.update(b[10:])
    S.ensure_eq('hash', h.digest(), hashlib.sha256(b).digest())


@contract('T')
def bad_hash(S):
    b = S.bytes('b', lo=0, hi=1000)
    S.ensure_eq('hash', hashlib.sha256(b).digest(), hashlib.sha256(b + b'\0').digest())


@contract('T')
def bad_vacuous(S):
    n = S.int('n', 0, 10)
    S.assume(n > 10)
    S.ensure('anything', n == 99)


@contract('T')
def ok_read(S):
    b = S.bytes('b', lo=3, hi=10)
    f = BytesIO(b)
    S.ensure('first', f.read(3) == b[:3])
    S.ensure_eq('rest', f.read(), b[3:])


@contract('T')
def bad_exception(S):
    b = S.bytes('b', lo=0, hi=10)
    S.ensure('first', b[0] >= 0)


# ---------------------------------------------- modification of list elements

def _mtx(S):
    return S.seq('vin', lambda i: CElementsMutableTxIn(CElementsMutableOutPoint(S.bytes('h', 32), S.int('n', 0, 100)),
                                                       nSequence=S.int('q', 0, 1000)), 0, 50, cls=list)


def _seqs(l):
    return b''.join([x.nSequence.to_bytes(4, 'little') for x in l])


@contract('T')
def ok_elem_one(S):
    l = _mtx(S)
    k = S.int('k', 0, 49)
    S.assume(k < len(l))
    before = _seqs([l[i] for i in range(k)])
    after = _seqs([l[i] for i in range(k + 1, len(l))])
    l[k].nSequence = 5
    l[k].nSequence += 1
    S.ensure_eq('one', _seqs(l), before + b'\x06\0\0\0' + after)


@contract('T')
def bad_elem_one(S):
    l = _mtx(S)
    k = S.int('k', 0, 49)
    S.assume(k < len(l))
    before = _seqs(l)
    l[k].nSequence = 5
    S.ensure_eq('one', _seqs(l), before)


@contract('T')
def ok_elem_loop(S):
    l = _mtx(S)
    k = S.int('k', 0, 49)
    S.assume(k < len(l))
    keep = l[k].nSequence
    for x in l:
        x.scriptSig = CElementsScript(b'ab')
    l[k].scriptSig = CElementsScript(b'c')
    for i in range(len(l)):
        if i != k:
            l[i].nSequence = 0
    S.ensure_eq('all', b''.join([x.nSequence.to_bytes(4, 'little') + x.scriptSig for x in l]),
                b''.join([b'\0\0\0\0ab' for i in range(k)]) + keep.to_bytes(4, 'little') + b'c' +
                b''.join([b'\0\0\0\0ab' for i in range(k + 1, len(l))]))


@contract('T')
def bad_elem_loop(S):
    l = _mtx(S)
    k = S.int('k', 0, 49)
    S.assume(k < len(l))
    for i in range(len(l)):
        if i != k:
            l[i].nSequence = 0
    S.ensure_eq('all', _seqs(l), b''.join([b'\0\0\0\0' for i in range(len(l))]))


@contract('T')
def ok_elem_nested(S):
    l = _mtx(S)
    for x in l:
        x.prevout.n = x.prevout.n + 1
    for x in l:
        S_ok = x.prevout.n >= 1
        if not S_ok:
            S.fail('n')
    l2 = list(l)
    m = len(l)
    if m > 3:
        l2[3].prevout.n = 7
        S.ensure('aliased', l[3].prevout.n == 7)


@contract('T')
def bad_elem_nested(S):
    l = _mtx(S)
    for x in l:
        x.prevout.n = x.prevout.n + 1
    for x in l:
        if x.prevout.n < 2:
            S.fail('n')


@contract('T')
def ok_elem_cond(S):
    l = _mtx(S)
    for x in l:
        if x.nSequence > 10:
            x.nSequence = 10
    S.ensure('all', all(x.nSequence <= 10 for x in l))


def _while_copy(items, n, off):
    out = []
    i = 0
    while i < n:
        if items[i] == 7:
            raise ValueError(i)
        out.append(items[i] + off)
        i += 1
    k = len(out)
    while len(out) < 2 * n:
        out.append(k - n)
    return out, i


@contract('T')
def ok_while(S):
    a = S.seq('a', lambda i: S.int('x', 0, 255), 0, 1000, cls=list)
    err, r = S.catch(_while_copy, a, len(a), 3)
    if err is not None:
        S.ensure('refused', type(err) is ValueError)
        return
    S.ensure('count', r[1] == len(a))
    S.ensure('length', len(r[0]) == 2 * len(a))
    S.each('values', [x + 3 for x in a] + [0 for x in a], r[0], lambda x, y: S.ensure_eq('value', x, y))


@contract('T')
def bad_while(S):
    a = S.seq('a', lambda i: S.int('x', 0, 255), 0, 1000, cls=list)
    err, r = S.catch(_while_copy, a, len(a), 3)
    if err is not None:
        S.ensure('refused', type(err) is ValueError)
        return
    S.each('values', [x + 3 for x in a] + [1 for x in a], r[0], lambda x, y: S.ensure_eq('value', x, y))


@contract('T')
def bad_while_counter(S):
    """the number of the element that was refused"""
    a = S.seq('a', lambda i: S.int('x', 0, 255), 0, 1000, cls=list)
    err, r = S.catch(_while_copy, a, len(a), 3)
    if err is not None:
        S.ensure('position', err.args[0] == 0)


@contract('T')
def ok_while_counter(S):
    a = S.seq('a', lambda i: S.int('x', 0, 255), 0, 1000, cls=list)
    err, r = S.catch(_while_copy, a, len(a), 3)
    if err is not None:
        S.ensure('element', a[err.args[0]] == 7)
    else:
        S.ensure('no such element', not any(x == 7 for x in a))


def _index(items):
    n = 0
    out = []
    for x in items:
        out.append((n, x))
        n += 1
    return out, n


@contract('T')
def ok_counter(S):
    a = S.seq('a', lambda i: S.int('x', 0, 255), 0, 1000, cls=list)
    out, n = _index(a)
    S.ensure('n', n == len(a))
    S.each('pairs', list(enumerate(a)), out, lambda x, y: S.ensure('pair', x[0] == y[0] and x[1] == y[1]))
