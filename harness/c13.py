from symex.hapi import Case
from pdfmajor.parser.PDFStream.ccitt import ccittfaxdecode

# ITU-T T.4 tables 2 and 3
WHITE = '''00110101 000111 0111 1000 1011 1100 1110 1111 10011 10100 00111 01000 001000 000011 110100 110101
101010 101011 0100111 0001100 0001000 0010111 0000011 0000100 0101000 0101011 0010011 0100100 0011000 00000010 00000011 00011010
00011011 00010010 00010011 00010100 00010101 00010110 00010111 00101000 00101001 00101010 00101011 00101100 00101101 00000100 00000101 00001010
00001011 01010010 01010011 01010100 01010101 00100100 00100101 01011000 01011001 01011010 01011011 01001010 01001011 00110010 00110011 00110100'''.split()
WHITE64 = '''11011 10010 010111 0110111 00110110 00110111 01100100 01100101 01101000 01100111 011001100 011001101 011010010
011010011 011010100 011010101 011010110 011010111 011011000 011011001 011011010 011011011 010011000 010011001 010011010 011000 010011011'''.split()
BLACK = '''0000110111 010 11 10 011 0011 0010 00011 000101 000100 0000100 0000101 0000111 00000100 00000111 000011000
0000010111 0000011000 0000001000 00001100111 00001101000 00001101100 00000110111 00000101000 00000010111 00000011000 000011001010 000011001011 000011001100 000011001101 000001101000 000001101001
000001101010 000001101011 000011010010 000011010011 000011010100 000011010101 000011010110 000011010111 000001101100 000001101101 000011011010 000011011011 000001010100 000001010101 000001010110 000001010111
000001100100 000001100101 000001010010 000001010011 000000100100 000000110111 000000111000 000000100111 000000101000 000001011000 000001011001 000000101011 000000101100 000001011010 000001100110 000001100111'''.split()
BLACK64 = '''0000001111 000011001000 000011001001 000001011011 000000110011 000000110100 000000110101 0000001101100 0000001101101 0000001001010 0000001001011 0000001001100 0000001001101
0000001110010 0000001110011 0000001110100 0000001110101 0000001110110 0000001110111 0000001010010 0000001010011 0000001010100 0000001010101 0000001011010 0000001011011 0000001100100 0000001100101'''.split()
EXT = '''00000001000 00000001100 00000001101 000000010010 000000010011 000000010100 000000010101 000000010110 000000010111 000000011100 000000011101 000000011110 000000011111'''.split()
VERT = {0: '1', 1: '011', 2: '000011', 3: '0000011', -1: '010', -2: '000010', -3: '0000010'}
EOFB = '000000000001' * 2


def run(n, white):
    s = ''
    while n >= 2560:
        s += EXT[12]
        n -= 2560
    if n >= 1792:
        s += EXT[(n - 1792) // 64]
        n %= 64
    elif n >= 64:
        s += (WHITE64 if white else BLACK64)[n // 64 - 1]
        n %= 64
    return s + (WHITE if white else BLACK)[n]


def change(line, start, color, w):
    """first changing element right of `start` that has the colour opposite to `color`
    (an imaginary white pixel stands before the line)"""
    x = start + 1
    while x < w:
        prev = line[x - 1] if x > 0 else 1
        if prev == color and line[x] != color:
            return x
        x += 1
    return w


def encode_line(ref, cur, w):
    """T.6 coding procedure; pixels 1 = white"""
    s = ''
    a0, color = -1, 1
    while a0 < w:
        b1 = change(ref, a0, color, w)
        b2 = b1
        while b2 < w and ref[b2] != color:
            b2 += 1
        a1 = max(a0, 0)
        while a1 < w and cur[a1] == color:
            a1 += 1
        if b2 < a1:
            s += '0001'
            a0 = b2
        elif -3 <= a1 - b1 <= 3:
            s += VERT[a1 - b1]
            a0 = a1
            color = 1 - color
        else:
            a2 = a1
            while a2 < w and cur[a2] != color:
                a2 += 1
            s += '001' + run(a1 - max(a0, 0), color == 1) + run(a2 - a1, color == 0)
            a0 = a2
    return s


def pack(bits):
    bits += '0' * (-len(bits) % 8)
    return bytes([int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)])


def expect(rows, black1):
    out = b''
    for r in rows:
        out += pack(''.join(str(1 - p) if black1 else str(p) for p in r))
    return out


def finish(h, s, rows, w, align, end=True):
    black1 = h.choice('blackis1', (False, True, None))
    eofb = h.choice('eofb', ('none', 'eofb', 'more'))
    if align:
        s += '0' * (-len(s) % 8)
    if eofb != 'none':
        s += EOFB
    data = pack(s)
    if eofb == 'more':
        data += b'\x26\xa0\x55'
    params = {'K': -1, 'Columns': w}
    if black1 is not None:
        params['BlackIs1'] = black1
    if align:
        params['EncodedByteAlign'] = True
    got = ccittfaxdecode(data, params)
    h.observe('out', got)
    h.equal(got, expect(rows, black1), 'decoded image')
    h.reach('end')


def image(h, w, rows, align=False, fixed=()):
    """encoding of an arbitrary image"""
    img = []
    ref = [1] * w
    s = ''
    for y in range(rows):
        row = [h.realize(h.int('p%d_%d' % (y, x), 0, 1)) for x in range(w)]
        s += encode_line(ref, row, w)
        if align:
            s += '0' * (-len(s) % 8)
        img.append(row)
        ref = row
    finish(h, s, img, w, align)


def modes(h, w, rows):
    """every sequence of coding modes a T.6 encoder may choose"""
    img = []
    ref = [1] * w
    s = ''
    for y in range(rows):
        cur = []
        a0, color = -1, 1
        n = 0
        while a0 < w:
            b1 = change(ref, a0, color, w)
            b2 = b1
            while b2 < w and ref[b2] != color:
                b2 += 1
            pos = max(a0, 0)
            opts = []
            for dx in range(-3, 4):
                if (b1 + dx > a0 or (a0 == 0 and False)) and b1 + dx <= w and b1 + dx >= 0 and (b1 + dx > pos or a0 < 0):
                    opts.append(dx)
            if b2 < w:
                opts.append('p')
            opts.append('h')
            m = h.choice('m%d_%d' % (y, n), opts)
            n += 1
            if m == 'p':
                s += '0001'
                cur += [color] * (b2 - pos)
                a0 = b2
            elif m == 'h':
                r1 = h.choice('r1_%d_%d' % (y, n), range(0 if a0 < 0 else 1, w - pos + 1))
                r2 = h.choice('r2_%d_%d' % (y, n), range(0 if r1 + pos == w else 1, w - pos - r1 + 1))
                s += '001' + run(r1, color == 1) + run(r2, color == 0)
                cur += [color] * r1 + [1 - color] * r2
                a0 = pos + r1 + r2
            else:
                s += VERT[m]
                cur += [color] * (b1 + m - pos)
                a0 = b1 + m
                color = 1 - color
        img.append(cur)
        ref = cur
    finish(h, s, img, w, False)


def runs(h, step, white):
    """every run-length code: a horizontal pair on one very wide line"""
    n = h.choice('n', step)
    m = h.choice('m', (1, 2, 63))
    w = n + m + 1
    if white:
        s = '001' + run(n, True) + run(m, False) + VERT[0]
        row = [1] * n + [0] * m + [1]
    else:
        w = n + m
        s = '001' + run(0, True) + run(n, False) + ('001' + run(m, True) + run(0, False))
        row = [0] * n + [1] * m
    data = pack(s + EOFB)
    got = ccittfaxdecode(data, {'K': -1, 'Columns': w})
    h.observe('len', len(got))
    h.equal(got, expect([row], False), 'decoded line')
    h.reach('end')


CODES = {}
for _i in range(64):
    CODES[True, WHITE[_i]] = CODES[False, BLACK[_i]] = _i
for _i in range(27):
    CODES[True, WHITE64[_i]] = CODES[False, BLACK64[_i]] = 64 * _i + 64
for _i in range(13):
    CODES[True, EXT[_i]] = CODES[False, EXT[_i]] = 64 * _i + 1792
MODES = {v: k for k, v in VERT.items()}
MODES['0001'] = 'p'
MODES['001'] = 'h'
MODES['000000000001'] = 'e'


class End(Exception):
    pass


def prefixes(codes):
    return {c[:i] for c in codes for i in range(len(c) + 1)}


PRE = {w: prefixes(c for v, c in CODES if v == w) for w in (True, False)}
PREM = prefixes(MODES)


class Bits:
    def __init__(self, h, data, prefix):
        self.h, self.data, self.n, self.prefix = h, data, 0, prefix

    def bit(self):
        i = self.n
        if i < len(self.prefix):
            self.n += 1
            return self.prefix[i]
        i -= len(self.prefix)
        if i >= 8 * len(self.data):
            raise End('out')
        self.n += 1
        return '1' if self.data[i // 8] & (128 >> i % 8) else '0'

    def mode(self):
        c = ''
        while c not in MODES:
            c += self.bit()
            if c not in PREM:
                raise End('invalid')
        return MODES[c]

    def run(self, white):
        n = 0
        while True:
            c = ''
            while (white, c) not in CODES:
                c += self.bit()
                if c not in PRE[white]:
                    raise End('invalid')
            k = CODES[white, c]
            n += k
            if k < 64:
                return n


def decode(h, w, n, align=False, prefix='', params=None):
    """arbitrary bytes: the real decoder against a T.6 reference decoder that reads the same
    symbolic bits; inputs the reference rejects (a code that T.6 does not define, a run or a
    vertical position outside the line) are outside the property"""
    data = h.bytes('data', n)
    bits = Bits(h, data, prefix)
    rows = []
    ref = [1] * w
    try:
        while True:
            cur = []
            a0, color = -1, 1
            while a0 < w:
                m = bits.mode()
                if m == 'e':
                    for b in '000000000001':
                        if bits.bit() != b:
                            raise End('invalid')
                    raise End('eofb')
                b1 = change(ref, a0, color, w)
                pos = max(a0, 0)
                if m == 'p':
                    b2 = b1
                    while b2 < w and ref[b2] != color:
                        b2 += 1
                    if b2 >= w:
                        raise End('invalid')
                    cur += [color] * (b2 - pos)
                    a0 = b2
                elif m == 'h':
                    r1 = bits.run(color == 1)
                    r2 = bits.run(color == 0)
                    if pos + r1 + r2 > w:
                        raise End('invalid')
                    if r1 == 0 and a0 >= 0 or r2 == 0 and pos + r1 < w:
                        raise End('invalid')
                    cur += [color] * r1 + [1 - color] * r2
                    a0 = pos + r1 + r2
                else:
                    a1 = b1 + m
                    if not (a1 > a0 and 0 <= a1 <= w and (a0 < 0 or a1 > pos)):
                        raise End('invalid')
                    cur += [color] * (a1 - pos)
                    a0 = a1
                    color = 1 - color
            rows.append(cur)
            ref = cur
            if align:
                while bits.n % 8:
                    if bits.bit() != '0':
                        raise End('invalid')
    except End as e:
        why = str(e)
    if why == 'invalid':
        return
    lead = bytes(int(prefix[i:i + 8], 2) for i in range(0, len(prefix), 8))
    got = ccittfaxdecode(lead + data, dict({'K': -1, 'Columns': w, 'EncodedByteAlign': align}, **(params or {})))
    h.observe('out', got)
    h.equal(got, expect(rows, bool((params or {}).get('BlackIs1'))), 'decoded rows')
    h.reach(why)


def cases(tier):
    q = tier == 'quick'
    out = []
    for w, r in ((1, 1), (1, 3), (2, 3), (3, 2), (4, 2), (7, 1)) if q else ((1, 5), (2, 4), (3, 3), (4, 2), (5, 2), (9, 1), (10, 1)):
        out.append(Case('image%dx%d' % (w, r), image, {'w': w, 'rows': r}, 'every %dx%d bilevel image, both polarities, with and without end-of-block' % (w, r), ['end']))
    for w, r in ((3, 2), (5, 1)) if q else ((3, 3), (9, 1), (4, 2)):
        out.append(Case('align%dx%d' % (w, r), image, {'w': w, 'rows': r, 'align': True}, 'every %dx%d image, byte aligned lines' % (w, r), ['end']))
    for w, r in ((2, 2), (3, 2), (6, 1)) if q else ((3, 3), (4, 2), (7, 1)):
        out.append(Case('modes%dx%d' % (w, r), modes, {'w': w, 'rows': r}, 'every legal mode sequence for %d columns, %d rows' % (w, r), ['end']))
    for white in (True, False):
        out.append(Case('runs-%s' % ('white' if white else 'black'), runs, {'white': white, 'step': list(range(1, 64)) + list(range(64, 2561, 64)) + [2623, 2624, 100]},
                        'every terminating and make-up code (white and black)', ['end'], steps=400000))
    for w, n in ((4, 1), (9, 1)) if q else ((3, 2), (4, 3), (9, 3), (12, 3), (70, 3)):
        out.append(Case('decode%d-%d' % (w, n), decode, {'w': w, 'n': n}, 'every %d-byte input, %d columns, against a T.6 reference decoder' % (n, w), ['out']))
    out.append(Case('decode-align', decode, {'w': 3, 'n': 2 if q else 3, 'align': True}, 'byte aligned lines', ['out']))
    out.append(Case('decode-black', decode, {'w': 5, 'n': 1 if q else 3, 'params': {'BlackIs1': True}}, 'inverted polarity', ['out']))
    # a line with one black run, then arbitrary data coded against it
    out.append(Case('decode-ref', decode, {'w': 8, 'n': 1 if q else 3, 'prefix': ('001' + run(3, True) + run(2, False) + VERT[0]).ljust(16, '1')[:16]}, 'a non-trivial reference line, then every input', ['out']))
    for w, p in ((70, '00100000'), (70, '0010011010100000')):
        out.append(Case('decode%d-%s' % (w, p), decode, {'w': w, 'n': 1 if q else 2, 'prefix': p}, 'inputs beginning with a horizontal mode code', ['out']))
    out.append(Case('decode-eofb', decode, {'w': 4, 'n': 2, 'prefix': VERT[0] * 4 + '0000' + '00000001'}, 'data around an end-of-block code', ['eofb']))
    return out
