from symex.hapi import Case
from harness.lib import *
from pdfmajor.execptions import UnicodeNotDefined
from pdfmajor.parser.EncodingDB import EncodingDB
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.utils import name2unicode
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont import get_font

ASSUMPTIONS = ['oracle tables of the base encodings: codecs of the Python library, corrected by the notes of the specification, and transcriptions',
               'difference lists of up to six elements; glyph names from a fixed set, and every uniXXXX, uXXXX(XX) name',
               'a ToUnicode map of a font here lists one code']


def tables():
    win = {i: bytes([i]).decode('cp1252') for i in range(32, 256) if i not in (0x7f, 0x81, 0x8d, 0x8f, 0x90, 0x9d)}
    win[0xa0], win[0xad] = ' ', '-'
    mac = {i: bytes([i]).decode('mac_roman') for i in range(32, 256)
           if i not in (0x7f, 0xad, 0xb0, 0xb2, 0xb3, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xbd, 0xc3, 0xc5, 0xc6, 0xd7, 0xf0)}
    mac[0xca], mac[0xdb] = ' ', '\xa4'
    std = {i: chr(i) for i in range(32, 127)}
    std[0x27], std[0x60] = '\u2019', '\u2018'
    hi = ('\xa1\xa2\xa3\u2044\xa5\u0192\xa7\xa4\'\u201c\xab\u2039\u203a\ufb01\ufb02 \u2013\u2020\u2021\xb7 \xb6\u2022\u201a\u201e\u201d\xbb\u2026\u2030 \xbf'
          ' `\xb4\u02c6\u02dc\xaf\u02d8\u02d9\xa8 \u02da\xb8 \u02dd\u02db\u02c7\u2014' + ' ' * 16 + '\xc6 \xaa    \u0141\xd8\u0152\xba     \xe6   \u0131  \u0142\xf8\u0153\xdf')
    for i, c in enumerate(hi):
        if c != ' ':
            std[0xa1 + i] = c
    pdf = {i: chr(i) for i in list(range(32, 127)) + list(range(0xa1, 256)) if i != 0xad}
    for i, c in enumerate('\u02d8\u02c7\u02c6\u02d9\u02dd\u02db\u02da\u02dc'):
        pdf[0x18 + i] = c
    for i, c in enumerate('\u2022\u2020\u2021\u2026\u2014\u2013\u0192\u2044\u2039\u203a\u2212\u2030\u201e\u201c\u201d\u2018\u2019\u201a\u2122\ufb01\ufb02\u0141\u0152\u0160\u0178\u017d\u0131\u0142\u0153\u0161\u017e'):
        pdf[0x80 + i] = c
    pdf[0xa0] = '\u20ac'
    return {'StandardEncoding': std, 'MacRomanEncoding': mac, 'WinAnsiEncoding': win, 'PDFDocEncoding': pdf}


TABLES = tables()
NAMES = (('A', 'A'), ('eacute', '\xe9'), ('Euro', '\u20ac'), ('fi', '\ufb01'), ('alpha', '\u03b1'), ('afii10017', '\u0410'), ('uni0416', '\u0416'),
         ('u1F600', '\U0001f600'), ('uni00410042', 'AB'), ('.notdef', None), ('nosuchname', None), (b'\xff\xfe', None), ('g9999999999', None))


def lookup(h, font, code, want):
    try:
        got = font.to_unichr(code)
    except UnicodeNotDefined as e:
        h.check(want is None, 'a code of the encoding is undefined')
        h.check(e.args == (None, code), 'the undefined code is reported')
        h.reach('undefined')
        return
    h.check(want is not None, 'a code outside the encoding has a character')
    h.equal(got, want, 'character')
    h.reach('defined')


def font(h, kind, encoding, tounicode=None):
    spec = {'Type': LIT('Font'), 'Subtype': LIT(kind), 'BaseFont': LIT('Foo'), 'FontDescriptor': {}, 'Widths': [500], 'FirstChar': 0}
    if kind == 'Type3':
        spec['FontMatrix'] = [.001, 0, 0, .001, 0, 0]
        spec['FontBBox'] = [0, 0, 1, 1]
        del spec['FontDescriptor']
    if encoding is not None:
        spec['Encoding'] = encoding
    if tounicode is not None:
        spec['ToUnicode'] = PDFStream({}, tounicode)
    return get_font(None, spec, {})


def base(h, enc):
    """no differences"""
    code = h.int('code', 0, 255)
    how, kind = h.choice('form', (('name', 'Type1'), ('dict', 'TrueType'), ('emptydiff', 'Type3')))
    if enc is None:
        e = {'name': None, 'dict': {}, 'emptydiff': {'Differences': []}}[how]
    else:
        e = {'name': LIT(enc), 'dict': {'BaseEncoding': LIT(enc)}, 'emptydiff': {'BaseEncoding': LIT(enc), 'Differences': []}}[how]
    f = font(h, kind, e)
    t = TABLES.get(enc, TABLES['StandardEncoding'])
    code = h.realize(code)
    lookup(h, f, code, t.get(code))


def diffs(h, enc, shape, names, umap=False, second=False, lo=0, hi=255):
    """differences (shape: c a start code, n a name), a map, and a second font"""
    diff = []
    over = []
    cur = 0
    k = 0
    for x in shape:
        if x == 'c':
            cur = h.int('start%d' % len(diff), lo, hi)
            diff.append(cur)
        else:
            name, ch = NAMES[names[k]]
            k += 1
            diff.append(LIT(name))
            if ch is not None:
                over.append((cur, ch))
            cur = cur + 1
    e = {'Differences': diff}
    if enc:
        e['BaseEncoding'] = LIT(enc)
    tu = None
    if umap:
        m = h.int('mapped', lo, hi)
        tu = b'1 beginbfchar <' + bytes([h.ite(d < 10, d + 0x30, d + 0x57) for d in (m >> 4, m & 15)]) + b'> <263A> endbfchar'
        over.append((m, '\u263a'))
    # codes around the differences, and others
    at = h.choice('at', tuple(range(len(over))) + ('last', 0x41, 0x27, 0xa4, 0x90))
    if at == 'last':
        code = cur
    elif at in range(len(over)):
        code = over[at][0] + h.choice('near', (-1, 0, 1))
        h.assume(code >= 0)
    else:
        code = at
    f = font(h, 'Type1', e, tu)
    t = TABLES.get(enc, TABLES['StandardEncoding'])
    if second:
        # another font of the same base encoding is not affected
        f = font(h, 'TrueType', LIT(enc) if enc in TABLES else h.choice('other', (None, LIT('StandardEncoding'), LIT('BarEncoding'))))
        over = []
    for c, ch in reversed(over):
        if h.branch(code == c):
            lookup(h, f, code, ch)
            h.reach('difference')
            return
    code = h.realize(code)
    lookup(h, f, code, t.get(code))


def hexname(h, prefix, n, groups=1):
    """names made of hexadecimal digits"""
    name = prefix
    codes = []
    for g in range(groups):
        c = 0
        for i in range(n):
            d = h.int('d%d_%d' % (g, i), 0, 15)
            name = name + chr(h.ite(d < 10, d + 0x30, d + 0x37))
            c = c * 16 + d
        codes.append(c)
    good = h.and_(*[h.and_(h.or_(c < 0xd800, c > 0xdfff), c <= 0x10ffff) for c in codes])
    try:
        got = name2unicode(name)
    except KeyError:
        h.check(h.not_(good), 'a glyph name is not resolved')
        h.reach('none')
        return
    h.check(good, 'not a character')
    want = ''
    for c in codes:
        want = want + chr(c)
    h.equal(got, want, 'character of a glyph name')
    h.reach('some')


def glyphs(h):
    """the glyph list"""
    name, want = h.choice('name', (('A', 'A'), ('zero', '0'), ('one', '1'), ('space', ' '), ('quotesingle', "'"), ('hyphen', '-'), ('Aacute', '\xc1'), ('ccedilla', '\xe7'),
                                   ('germandbls', '\xdf'), ('OE', '\u0152'), ('Lslash', '\u0141'), ('ff', '\ufb00'), ('ffi', '\ufb03'), ('fl', '\ufb02'), ('Omega', '\u2126'),
                                   ('pi', '\u03c0'), ('mu', '\xb5'), ('summation', '\u2211'), ('infinity', '\u221e'), ('bullet', '\u2022'), ('endash', '\u2013'),
                                   ('quotedblleft', '\u201c'), ('trademark', '\u2122'), ('afii10071', '\u0451'), ('alef', '\u05d0'), ('beta', '\u03b2'), ('rupiah', '\uf6dd'),
                                   ('one.x', None), ('', None), ('\u20ac', None), (b'\xff', None), (b'\xff12', None), ('g1114112', None), ('g' + '9' * 5000, None)))
    try:
        got = name2unicode(name)
    except KeyError:
        h.check(want is None, 'known name')
        h.reach('none')
        return
    h.check(got == want, 'character of the glyph list')
    h.reach('some')


def cases(tier):
    q = tier == 'quick'
    out = [Case('glyphs', glyphs, {}, 'names', ['some', 'none'])]
    for p, n, g in (('uni', 4, 1), ('u', 4, 1), ('u', 5, 1), ('u', 6, 1), ('uni', 4, 2)):
        out.append(Case('hex-%s-%d-%d' % (p, n, g), hexname, {'prefix': p, 'n': n, 'groups': g}, 'every name', ['some', 'none'] if (p, n) != ('u', 5) else ['some']))
    for e in (None, 'StandardEncoding', 'MacRomanEncoding', 'WinAnsiEncoding', 'PDFDocEncoding'):
        out.append(Case('base-%s' % e, base, {'enc': e}, 'every code', ['defined', 'undefined']))
    combos = [('cn', (0,)), ('cnn', (1, 9)), ('cncn', (2, 3)), ('ncn', (4, 7)), ('cnn', (10, 6))] if q else \
        [('cn', (i,)) for i in range(len(NAMES))] + [('cnn', (1, 9)), ('cncn', (2, 3)), ('ncn', (4, 7)), ('cnn', (10, 6)), ('ccn', (0,)), ('nnn', (0, 1, 2)), ('cnncnn', (0, 1, 2, 3)), ('cncncn', (5, 9, 8)), ('cnnnn', (11, 12, 0, 8))]
    for j, (s, ns) in enumerate(combos):
        for e in ((None, 'WinAnsiEncoding', 'MacRomanEncoding', 'StandardEncoding')[j % 4],) if q else (None, 'WinAnsiEncoding', 'MacRomanEncoding', 'StandardEncoding'):
            many = s.count('c') > 1 or q and j
            for extra in ('diff', 'map', 'second') if j == 0 or not q else ('diff',):
                lo, hi = (30, 36) if q and s.count('c') > 1 else (30, 42) if many or extra != 'diff' else (0, 255)
                out.append(Case('%s-%s-%s-%s' % (extra, e, s, '.'.join(map(str, ns))), diffs,
                                {'enc': e, 'shape': s, 'names': list(ns), 'umap': extra == 'map', 'second': extra == 'second', 'lo': lo, 'hi': hi},
                                'start codes %d to %d' % (lo, hi), ['defined', 'undefined']))
    for extra in ('diff', 'second'):
        out.append(Case('%s-unknown' % extra, diffs, {'enc': 'FooEncoding', 'shape': 'cn', 'names': [0], 'umap': False, 'second': extra == 'second', 'lo': 30, 'hi': 42},
                        'a base encoding of an unknown name', ['defined', 'undefined']))
    return out
