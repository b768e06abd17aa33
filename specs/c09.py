"""C09 Blech32 strings are canonical, checked and reversible

The program, the version and the characters are unknown bits; checksum and base
conversion are linear in them (pv/linear.py), lengths are enumerated."""
from pv.contract import contract
from elementstx.liquid_addr import encode, decode

HRPS = ['el', 'lq']
ALPHABET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
PRINTABLE = ''.join(map(chr, range(33, 127)))
G = [0x7d52fba40bd886, 0x5e8dbf1a03950c, 0x1c3a3c74072a18, 0x385d72fa0e5139, 0x7093e5a608865b]
BLECH32, BLECH32M = 1, 0x455972a3350f7a1
NONE = (None, None)


# ---- reference

def polymod(values):
    c = 1
    for v in values:
        top = c >> 55
        c = (c & (2**55 - 1)) << 5
        c = c ^ v
        for i in range(5):
            c = c ^ ((top >> i) & 1) * G[i]
    return c


def expanded(hrp):
    return [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]


def groups(prog):
    """groups of 5 bits, the last one filled with zeros"""
    r = []
    for i in range(0, 8 * len(prog), 5):
        k, o = i // 8, i % 8
        w = prog[k] << 8
        if k + 1 < len(prog):
            w = w | prog[k + 1]
        r.append((w >> (11 - o)) & 31)
    return r


def constant(version):
    return BLECH32 if version == 0 else BLECH32M


def with_checksum(hrp, symbols, const):
    c = polymod(expanded(hrp) + symbols + [0] * 12) ^ const
    return hrp + '1' + ''.join([ALPHABET[x] for x in symbols + [(c >> (55 - 5 * i)) & 31 for i in range(12)]])


def reference(hrp, version, prog):
    return with_checksum(hrp, [version] + groups(prog), constant(version))


def permitted(version, n):
    return n in (53, 65) if version == 0 else 0 < version <= 16 and 2 <= n <= 73


def check_encoding(S, hrp, version, n):
    p = S.bit_bytes('program', n)
    s = encode(hrp, version, p)
    if not permitted(version, n):
        S.ensure('nothing', s is None)
        return
    S.ensure('string', s is not None)
    S.ensure('is the reference encoding', s == reference(hrp, version, p))
    for t in (s, s.upper()):
        v, q = decode(hrp, t)
        S.ensure('version', v == version)
        S.ensure('program', type(q) is bytes and q == p)
    S.ensure('other prefix', decode(HRPS[hrp == HRPS[0]], s) == NONE)


@contract('C09', budget=300)
def address_sizes(S):
    """all versions, programs of address size"""
    check_encoding(S, HRPS[S.choice('prefix', 2)], S.choice('version', 17), [53, 65][S.choice('size', 2)])


@contract('C09', budget=300)
def all_sizes(S):
    """programs of all sizes"""
    check_encoding(S, HRPS[0], [0, 1, 16][S.choice('version', 3)], S.choice('size', 76))


@contract('C09', budget=3000, tier='thorough')
def all_sizes_versions(S):
    """programs of all sizes, all versions"""
    check_encoding(S, HRPS[S.choice('prefix', 2)], S.choice('version', 17), S.choice('size', 76))


def length(n):
    """of strings for programs of n bytes"""
    return 2 + 1 + 1 + (8 * n + 4) // 5 + 12


def accepted_only(S, hrp, s):
    v, p = decode(hrp, s)
    if v is None:
        S.ensure('nothing', p is None)
        return
    S.ensure('version', 0 <= v <= 16)
    S.ensure('one case', s == s.lower() or s == s.upper())
    S.ensure('is the encoding of what it decodes to', encode(hrp, v, p) == s.lower())


@contract('C09', budget=1500, samples=5, tier='thorough')
def any_string(S):
    """any printable characters, strings of address size"""
    accepted_only(S, HRPS[S.choice('prefix', 2)], S.chars('text', length([53, 65][S.choice('size', 2)]), PRINTABLE))


@contract('C09', budget=600, samples=5)
def any_string_short(S):
    """any printable characters, short strings"""
    accepted_only(S, HRPS[0], S.chars('text', S.choice('length', 25), PRINTABLE))


def any_data(S, case):
    """prefix and separator as they should be, any symbols"""
    hrp = HRPS[S.choice('prefix', 2)]
    n = S.choice('length', 140)
    s = S.chars('text', n, ALPHABET.upper() if case else ALPHABET)
    accepted_only(S, hrp, (hrp.upper() if case else hrp) + '1' + s)


@contract('C09', budget=600)
def data_part(S):
    """any data part of up to 140 characters"""
    any_data(S, 0)


@contract('C09', budget=600)
def data_part_upper(S):
    """... in upper case"""
    any_data(S, 1)


def valid(S, prefixes=2, types=3):
    """valid string of address size"""
    hrp = HRPS[S.choice('prefix', prefixes)]
    v, n = [(1, 65), (0, 53), (0, 65)][S.choice('type', types)]
    return hrp, reference(hrp, v, S.bit_bytes('program', n))


@contract('C09', budget=600)
def substitution(S):
    """one character of the data part replaced by another one of the alphabet"""
    hrp, s = valid(S)
    i = S.choice('position', length(65) - 3) + 3
    S.assume(i < len(s))
    d = S.bits('difference', 5)
    S.assume(d != 0)
    x = ALPHABET[ALPHABET.find(s[i]) ^ d]
    S.ensure('refused', decode(hrp, s[:i] + x + s[i + 1:]) == NONE)


def with_foreign_character(S, *a):
    hrp, s = valid(S, *a)
    i = S.choice('position', length(65) - 3) + 3
    S.assume(i < len(s))
    x = S.chars('character', 1, [chr(c) for c in range(0, 300) if chr(c) not in ALPHABET])
    S.ensure('refused', decode(hrp, s[:i] + x + s[i + 1:]) == NONE)


@contract('C09', budget=600)
def foreign_character(S):
    """one character of the data part replaced by one that is not in the alphabet"""
    with_foreign_character(S, 1, 1)


@contract('C09', budget=900, tier='thorough')
def foreign_character_all(S):
    """one character of the data part replaced by one that is not in the alphabet"""
    with_foreign_character(S)


@contract('C09', budget=600)
def burst(S):
    """any change within 12 consecutive characters after the version, to others of the alphabet"""
    hrp, s = valid(S)
    i = S.choice('position', length(65) - 15) + 4
    S.assume(i + 12 <= len(s))
    d = S.bits('difference', 60)
    S.assume(d != 0)
    x = ''.join([ALPHABET[ALPHABET.find(s[i + k]) ^ ((d >> (5 * k)) & 31)] for k in range(12)])
    S.ensure('refused', decode(hrp, s[:i] + x + s[i + 12:]) == NONE)


@contract('C09', budget=3000, tier='thorough')
def two_substitutions(S):
    """two characters of the data part replaced by others of the alphabet"""
    hrp, s = valid(S, 1)
    i = S.choice('position', length(65) - 3) + 3
    S.assume(i < len(s))
    j = S.choice('other position', length(65) - 3) + 3
    S.assume(i < j < len(s))
    d = S.bits('difference', 5)
    e = S.bits('other difference', 5)
    S.assume(d != 0)
    S.assume(e != 0)
    x = ALPHABET[ALPHABET.find(s[i]) ^ d]
    y = ALPHABET[ALPHABET.find(s[j]) ^ e]
    S.ensure('refused', decode(hrp, s[:i] + x + s[i + 1:j] + y + s[j + 1:]) == NONE)


@contract('C09', budget=600)
def length_changed(S):
    """1 to 11 characters removed from or added at either end"""
    hrp, s = valid(S)
    k = S.choice('number', 11) + 1
    S.ensure('truncated', decode(hrp, s[:-k]) == NONE)
    S.ensure('without the first', decode(hrp, s[k:]) == NONE)
    x = S.chars('added', k, ALPHABET)
    S.ensure('extended', decode(hrp, s + x) == NONE)
    S.ensure('in front', decode(hrp, x + s) == NONE)


def native_decode(hrp, s):
    if not all(33 <= ord(c) <= 126 for c in s) or (s != s.lower() and s != s.upper()):
        return NONE
    s = s.lower()
    i = s.rfind('1')
    if i < 1 or s[:i] != hrp or len(s) - i - 1 < 12 or any(c not in ALPHABET for c in s[i + 1:]):
        return NONE
    d = [ALPHABET.index(c) for c in s[i + 1:]]
    if len(d) == 12:
        return NONE
    v, g = d[0], d[1:-12]
    n = len(g) * 5 // 8
    b = ''.join('{:05b}'.format(x) for x in g)
    if len(b) - 8 * n >= 5 or '1' in b[8 * n:] or not permitted(v, n) \
            or polymod(expanded(hrp) + d) != constant(v):
        return NONE
    return v, bytes(int(b[8 * k:8 * k + 8], 2) for k in range(n))


@contract('C09', native_only=True, samples=1500)
def compared(S):
    """accepted as by a reference decoder; valid, nearly valid and other strings"""
    hrp = HRPS[S.choice('prefix', 2)]
    h = (HRPS + ['ert', 'e', 'elo', 'EL', 'e1'])[S.choice('written prefix', 12) % 7]
    v = S.int('version', 0, 31)
    n = [53, 65, S.int('size', 0, 90)][S.choice('address size', 3)]
    g = groups(S.bytes('program', n))
    if S.choice('last symbol', 3) == 0 and g:
        g[-1] = S.int('symbol', 0, 31)
    if S.choice('more symbols', 4) == 0:
        g += [0] * S.int('more', 1, 3)
    s = with_checksum(h, [v] * (S.choice('with version', 8) > 0) + g,
                      [constant(v), constant(v), BLECH32, BLECH32M][S.choice('variant', 4)])
    k = S.choice('case', 6)
    j = S.int('letters', 0, len(s))
    s = [s, s, s, s.upper(), s[:j].upper() + s[j:], s[:j] + s[j:].upper()][k]
    for j in range([0, 0, 0, 1, 2][S.choice('changes', 5)]):
        i = S.int('at%d' % j, 0, len(s) - 1)
        c = (ALPHABET + PRINTABLE + ' \t\n\x7f\x80é')[S.int('to%d' % j, 0, 31 + 94 + 6)]
        s = [s[:i] + c + s[i + 1:], s[:i] + s[i + 1:], s[:i] + c + s[i:], s[:i] + s[i].swapcase() + s[i + 1:]][S.choice('how%d' % j, 4)]
    S.ensure('decoded', decode(hrp, s) == native_decode(hrp, s))
