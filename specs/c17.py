"""C17 Peg-out scripts are recognised exactly"""
from pv.contract import contract
from .lib import CElementsScript, MAX

OP_RETURN = 0x6a


def push_at(S, s, i):
    """the push at position i: None if there is none (end of the script,
    truncated, or another opcode), otherwise (data, position after it)"""
    n = len(s)
    if not S.fork(i < n):
        return None
    op = s[i]
    if S.fork(op < 0x4c):
        size, j = op, i + 1
    elif S.fork(op == 0x4c):
        if not S.fork(i + 2 <= n):
            return None
        size, j = s[i + 1], i + 2
    elif S.fork(op == 0x4d):
        if not S.fork(i + 3 <= n):
            return None
        size, j = s[i + 1] + 256 * s[i + 2], i + 3
    elif S.fork(op == 0x4e):
        if not S.fork(i + 5 <= n):
            return None
        size, j = s[i + 1] + 256 * s[i + 2] + 65536 * s[i + 3] + (s[i + 4] << 24), i + 5
    else:
        return None
    if not S.fork(j + size <= n):
        return None
    return s[j:j + size], j + size


def pegout(S, s):
    if not S.fork(len(s) > 0) or not S.fork(s[0] == OP_RETURN):
        return None
    p = push_at(S, s, 1)
    if p is None or not S.fork(len(p[0]) == 32):
        return None
    q = push_at(S, s, p[1])
    if q is None or not S.fork(len(q[0]) > 0):
        return None
    return p[0], q[0]


def compare(S, raw):
    script = CElementsScript(raw)
    ref = pegout(S, raw)
    got = script.get_pegout_data()
    S.ensure('recognised exactly', (got is None) == (ref is None))
    S.ensure('is_pegout', script.is_pegout() == (ref is not None))
    if ref is None:
        return
    S.ensure('two parts', type(got) is tuple and len(got) == 2)
    S.ensure_eq('genesis hash', bytes(got[0]), ref[0])
    S.ensure('destination is a script of Elements', type(got[1]) is CElementsScript)
    S.ensure_eq('destination', bytes(got[1]), ref[1])


@contract('C17')
def any_script(S):
    """any bytes: never raises, recognised iff OP_RETURN, push of 32 bytes,
    push of a non-empty script; data are exactly the two pushes"""
    compare(S, S.bytes('script', lo=0, hi=MAX))


def enc_push(S, name, data):
    """any encoding of a push that can hold the data"""
    n = len(data)
    k = S.choice(name, 4)
    if k == 0:
        S.assume(n < 0x4c)
        return bytes([n]) + data
    if k == 1:
        S.assume(n <= 0xff)
        return b'\x4c' + bytes([n]) + data
    if k == 2:
        S.assume(n <= 0xffff)
        return b'\x4d' + n.to_bytes(2, 'little') + data
    return b'\x4e' + n.to_bytes(4, 'little') + data


@contract('C17')
def every_encoding(S):
    """all push encodings are treated alike, whatever follows"""
    h = S.bytes('genesis', 32)
    d = S.bytes('dest', lo=1, hi=MAX)
    rest = S.bytes('rest', lo=0, hi=MAX)
    s = CElementsScript(bytes([OP_RETURN]) + enc_push(S, 'push1', h) + enc_push(S, 'push2', d) + rest)
    got = s.get_pegout_data()
    S.ensure('recognised', got is not None and s.is_pegout())
    S.ensure_eq('genesis hash', bytes(got[0]), h)
    S.ensure_eq('destination', bytes(got[1]), d)


@contract('C17', native_only=True, samples=600, bounded='600 random damaged peg-out scripts per run')
def near_misses(S):
    """a peg-out with one part damaged (native inputs are rarely random
    peg-outs)"""
    n = S.int('n', 0, 80)
    h = S.bytes('genesis', n=None, lo=0, hi=80)
    d = S.bytes('dest', lo=0, hi=300)
    op = S.int('op', 0, 255)
    s = bytes([op]) + enc_push(S, 'push1', h) + enc_push(S, 'push2', d)
    cut = S.int('cut', 0, 1000)
    S.assume(cut <= len(s))
    compare(S, s[:cut])


@contract('C17')
def unspendable(S):
    """unspendable iff empty, starting with OP_RETURN or longer than 10000"""
    raw = S.bytes('script', lo=0, hi=MAX)
    n = len(raw)
    S.ensure('unspendable', CElementsScript(raw).is_unspendable() == (n == 0 or n > 10000 or raw[0] == OP_RETURN))
