"""Embedded font data: Type 1 built-in encodings and TrueType character maps."""
from io import BytesIO
from struct import pack
from symex.hapi import Case
from pdfmajor.execptions import CMapNotFound, UnicodeNotDefined
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont.fonts import PDFType1Font, PDFTrueTypeFont, PDFCIDFont
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont.TrueTypeFont import TrueTypeFont

ASSUMPTIONS = ['Type 1 headers with up to three assignments of decimal codes; glyph names are single letters, uniXXXX or unknown ones',
               'TrueType tables with up to three sorted, disjoint segments (the last one at 0xFFFF) of up to three characters each, glyph arrays of up to four entries; format 0 tables with up to four non-zero symbolic glyphs',
               'damage: data cut anywhere, or one byte of the fixed-size headers (not of segment bounds) replaced', 'several characters of one glyph: any of them is accepted']

STD = {}    # a few characters of the standard encoding
for _c in range(65, 91):
    STD[_c] = STD[_c + 32] = None
STD = {c: chr(c) for c in STD}
STD.update({32: ' ', 39: '\u2019', 96: '\u2018', 0xa1: '\xa1', 0xe1: '\xc6', 0xfb: '\xdf'})


# -- Type 1 --------------------------------------------------------------------
def glyph(h, i, kind):
    """(name, character or None)"""
    if kind == 'letter':
        b = h.bytes('letter%d' % i, 1, bytes(range(65, 91)) + bytes(range(97, 123)))
        return b, b.decode('ascii')
    if kind == 'uni':
        b = h.bytes('hex%d' % i, 4, b'0123456789ABCDEF')
        v = 0
        for c in b:
            v = v * 16 + h.ite(c < 58, c - 48, c - 55)
        return b'uni' + b, h.ite(h.and_(v >= 0xd800, v <= 0xdfff), -1, v)
    return {'unknown': b'foobar', 'notdef': b'.notdef', 'quote': b'quoteright', 'ring': b'Aring'}[kind], {'unknown': None, 'notdef': None, 'quote': '\u2019', 'ring': '\xc5'}[kind]


def number(h, i, digits):
    d = h.bytes('code%d' % i, digits, b'0123456789')
    v = 0
    for c in d:
        v = v * 10 + (c - 48)
    return d, v


PRE = {'array': b'%!PS-AdobeFont-1.0: A\n/FontName /A def\n/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} for\n',
       'bare': b'/Encoding 256 array ', 'std': b'%!FontType1-1.0: A\n/Encoding StandardEncoding def\n'}


def type1(h, pre, kinds, digits, cls, cut):
    gl = [glyph(h, i, k) for i, k in enumerate(kinds)]
    codes = [number(h, i, d) for i, d in enumerate(digits)]
    head = PRE[pre]
    sp = h.choice('space', (b' ', b'\n', b'  '))
    for (d, _), (n, _) in zip(codes, gl):
        head += b'dup' + sp + d + sp + b'/' + n + sp + b'put' + sp
    head += b'readonly def\ncurrentfile eexec\n'
    data = head + b'dup 66 /Q put '
    attrs = {'Length1': len(head)} if cut else {'Length1': len(data)}
    spec = {'BaseFont': LIT('ABCDEF+A'), 'FontDescriptor': {'FontFile': PDFStream(attrs, data)}}
    font = cls(spec)
    ask = h.int('ask', 0, 255)
    want = None
    if not cut:
        codes = codes + [(None, 66)]
        gl = gl + [(None, 'Q')]
    found = False
    for (_, c), (_, u) in zip(codes, gl):
        if u is not None and c == ask:
            if isinstance(u, str):
                want, found = ord(u), True
            elif u >= 0:
                want, found = u, True
    encoded = any(u is not None and (isinstance(u, str) or u >= 0) for _, u in gl)
    try:
        got = font.to_unichr(ask)
    except UnicodeNotDefined:
        h.check(not found, 'an_assigned_code_has_no_character')
        if not encoded:
            for c in STD:
                h.check(ask != c, 'a_code_of_the_standard_encoding_has_no_character')
        h.reach('none')
        return
    if found:
        h.check(h.eq(ord(got), want), 'a_code_has_another_character')
        h.reach('some')
    elif encoded:
        h.fail('a_code_without_a_character_has_one')
    else:
        for c, u in STD.items():
            h.check(h.or_(ask != c, h.eq(ord(got), ord(u))), 'a_code_of_the_standard_encoding_has_another_character')
        h.reach('standard')


def nolength(h):
    """no Length1"""
    b = h.bytes('letter', 1, bytes(range(65, 91)))
    font = PDFType1Font({'BaseFont': LIT('A'), 'FontDescriptor': {'FontFile': PDFStream({}, b'/Encoding 256 array dup 65 /' + b + b' put def ')}})
    h.check(font.to_unichr(65) == b.decode('ascii'), 'a_code_has_another_character')
    h.reach('some')


def encoded(h):
    """an Encoding in the font dictionary is not replaced"""
    b = h.bytes('letter', 1, bytes(range(65, 91)))
    a = h.bytes('diff', 1, bytes(range(97, 123)))
    font = PDFType1Font({'BaseFont': LIT('A'), 'Encoding': {'Differences': [65, LIT(a.decode('ascii'))]}, 'FontDescriptor': {'FontFile': PDFStream({'Length1': 999}, b'/Encoding 256 array dup 65 /' + b + b' put def ')}})
    h.check(font.to_unichr(65) == a.decode('ascii'), 'the_encoding_of_the_dictionary_is_replaced')
    h.reach('some')


# -- TrueType -------------------------------------------------------------------
def u16(v):
    return bytes([v // 256, v % 256])


def fontfile(cmap, where='last'):
    tabs = [(b'glyf', b'\1\2\3\4'), (b'head', b'\0' * 8)]
    tabs = {'first': [(b'cmap', cmap)] + tabs, 'middle': tabs[:1] + [(b'cmap', cmap)] + tabs[1:], 'last': tabs + [(b'cmap', cmap)], 'none': tabs}[where]
    data = b'\0\1\0\0' + pack('>HHHH', len(tabs), 0, 0, 0)
    pos = len(data) + 16 * len(tabs)
    body = b''
    for name, d in tabs:
        data += name + pack('>LLL', 0, pos + len(body), len(d))
        body += d
    return data + body


def cmaptable(subs):
    """subs: (platform, encoding, data)"""
    head = pack('>HH', 0, len(subs))
    pos = 4 + 8 * len(subs)
    body = b''
    for p, e, d in subs:
        head += pack('>HHL', p, e, pos + len(body))
        body += d
    return head + body


def fmt0(gids):
    return pack('>HHH', 0, 262, 0) + bytes(gids)


def fmt4(segs, array):
    """segs: (start, end, delta, index into the array or None)"""
    n = len(segs)
    out = pack('>HHH', 4, 16 + 8 * n + 2 * len(array), 0) + pack('>HHHH', 2 * n, 0, 0, 0)
    out += b''.join(u16(e) for _, e, _, _ in segs) + b'\0\0' + b''.join(u16(s) for s, _, _, _ in segs) + b''.join(u16(d) for _, _, d, _ in segs)
    for i, (_, _, _, k) in enumerate(segs):
        out += u16(0 if k is None else 2 * (n - i) + 2 * k)
    return out + b''.join(u16(g) for g in array)


def umap(h, data, via):
    """the characters of glyphs, read by the table reader or through a composite font"""
    if via == 'reader':
        m = TrueTypeFont('A', BytesIO(data)).create_unicode_map()
        return lambda g: m.cid2unichr.get(g)
    font = PDFCIDFont({'BaseFont': LIT('A'), 'Encoding': LIT('Identity-H'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity'},
                       'FontDescriptor': {'FontFile2': PDFStream({}, data)}})

    def get(g):
        try:
            return font.to_unichr(g)
        except UnicodeNotDefined:
            return None
    return get


def compare(h, get, pairs):
    """pairs: (character, glyph) of the table; glyph 0 is no glyph"""
    for c, g in pairs:
        if g != 0 and not 0xd800 <= c < 0xe000:
            got = get(g)
            h.check(got is not None, 'a_glyph_of_the_table_has_no_character')
            h.check(h.or_(*[h.and_(h.eq(d, g2), h.eq(ord(got), c2)) for (c2, g2), d in zip(pairs, [g] * len(pairs))]), 'a_glyph_has_another_character')
            h.reach('some')
    ask = h.int('ask', 0, 0xffff)
    if get(ask) is not None:
        h.check(h.and_(ask != 0, h.or_(*[h.eq(ask, g) for _, g in pairs])), 'a_glyph_that_is_not_in_the_table_has_a_character')


def format0(h, at, where, via):
    gids = [0] * 256
    pairs = []
    for i, c in enumerate(at):
        gids[c] = h.int('gid%d' % i, 0, 255)
        pairs.append((c, gids[c]))
    compare(h, umap(h, fontfile(cmaptable([(1, 0, fmt0(gids))]), where), via), pairs)


def format4(h, shape, via, second):
    """shape: per segment (characters, uses the glyph array)"""
    segs = []
    pairs = []
    narr = sum(n for n, a in shape if a)
    array = [h.int('glyph%d' % i, 0, 0xffff) for i in range(narr)]
    k = 0
    low = 0
    for i, (n, a) in enumerate(shape):
        s = h.int('start%d' % i, 0, 0xfff0)
        h.assume(s >= low)
        e = s + n - 1
        low = e + 1
        d = h.int('delta%d' % i, 0, 0xffff)
        segs.append((s, e, d, k if a else None))
        for j in range(n):
            if a:
                g = array[k]
                k += 1
                pairs.append((s + j, h.ite(h.eq(g, 0), 0, (g + d) % 65536)))
            else:
                pairs.append((s + j, (s + j + d) % 65536))
    segs.append((0xffff, 0xffff, 1, None))
    subs = [(3, 1, fmt4(segs, array))]
    if second == 'unsupported':
        subs.insert(0, (0, 4, pack('>HHHHLL', 12, 0, 0, 28, 0, 0)))
    elif second == 'trimmed':
        subs.append((1, 0, pack('>HHHHHH', 6, 12, 0, 65, 1, 9)))
    elif second == 'outside':
        subs.insert(0, (0, 3, b''))
        return compare(h, umap(h, fontfile(outside(subs)), via), pairs)
    compare(h, umap(h, fontfile(cmaptable(subs)), via), pairs)


def outside(subs):
    """the first subtable lies beyond the end of the data"""
    t = cmaptable(subs)
    return t[:8] + pack('>L', 100000) + t[12:]


def both(h, via):
    """a format 0 and a format 4 table: characters of either one"""
    g0 = [0] * 256
    g0[65] = h.int('gid0', 1, 255)
    s = h.int('start', 0x100, 0xfff0)
    d = h.int('delta', 0, 0xffff)
    pairs = [(65, g0[65]), (s, (s + d) % 65536)]
    subs = [(1, 0, fmt0(g0)), (3, 1, fmt4([(s, s, d, None), (0xffff, 0xffff, 1, None)], []))]
    if h.choice('swapped', (False, True)):
        subs.reverse()
    compare(h, umap(h, fontfile(cmaptable(subs)), via), pairs)


def attempt(h, data, via):
    try:
        get = umap(h, data, via)
    except CMapNotFound:
        h.check(via == 'reader', 'a_damaged_table_makes_the_font_unusable')
        h.reach('read')
        return
    for g in (0, 1, 3, 40):
        u = get(g)
        h.check(u is None or isinstance(u, str), 'a_glyph_has_something_else')
    h.reach('read')


FULL = fontfile(cmaptable([(0, 3, fmt4([(65, 66, 0xffc0, None), (70, 71, 0, 0), (0xffff, 0xffff, 1, None)], [3, 4]))]), 'middle')
FMT0 = fontfile(cmaptable([(1, 0, fmt0([0] * 65 + [1, 2] + [0] * 189))]), 'first')
FMT2 = fontfile(cmaptable([(1, 1, pack('>HHH', 2, 540, 0) + pack('>H', 0) * 129 + pack('>H', 8) + pack('>H', 0) * 126 + pack('>HHhH', 65, 2, 0, 10) + pack('>HHhH', 64, 1, 5, 6) + pack('>HHH', 3, 0, 9))]), 'last')
FILES = {'format4': FULL, 'format0': FMT0, 'format2': FMT2}


def cut(h, which, part, parts, via):
    data = FILES[which]
    n = len(data)
    attempt(h, data[:h.choice('length', tuple(range(n * part // parts, n * (part + 1) // parts)))], via)


def damage(h, which, pos, via):
    """two neighbouring bytes are anything"""
    data = FILES[which]
    attempt(h, data[:pos] + h.bytes('b', 1) + data[pos + 1:], via)


def nocmap(h, via):
    attempt(h, fontfile(h.bytes('x', 4), 'none'), via)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for pre in ('array', 'bare'):
        for kinds, digits in ((('letter',), (1,)), (('letter',), (3,)), (('uni',), (2,)), (('letter', 'letter'), (2, 2)), (('letter', 'unknown'), (2, 2)),
                              (('notdef', 'quote'), (1, 2)), (('ring', 'letter'), (3, 3))) + (((('letter',) * 3, (2, 2, 2)), (('uni', 'letter'), (3, 3)), (('uni', 'uni'), (2, 2)), (('unknown', 'letter', 'uni'), (1, 2, 3))) if deep else ()):
            for c in (PDFType1Font, PDFTrueTypeFont)[:2 if len(kinds) == 1 and pre == 'bare' else 1]:
                for ct in (True, False):
                    if not ct and (len(kinds) > 1 or pre == 'array'):
                        continue
                    out.append(Case('type1-%s-%s-%s-%s%s' % (pre, '_'.join(kinds), ''.join(map(str, digits)), c.__name__[3:8], '' if ct else '-whole'), type1, dict(pre=pre, kinds=kinds, digits=digits, cls=c, cut=ct),
                                    bounds={'assignments': len(kinds), 'code digits': list(digits)}, reach=['some', 'none']))
    for kinds in ((), ('unknown',), ('letter',)):
        out.append(Case('type1-std-%s' % '_'.join(kinds), type1, dict(pre='std', kinds=kinds, digits=(2,) * len(kinds), cls=PDFType1Font, cut=True), bounds={'assignments': len(kinds)},
                        reach=['some'] if 'letter' in kinds else ['standard']))
    out.append(Case('nolength', nolength, {}, bounds={}, reach=['some']))
    out.append(Case('encoded', encoded, {}, bounds={}, reach=['some']))
    for at in ((65,), (0, 255), (65, 66, 67)) + (((1, 2, 3, 4), (32, 65, 128, 200, 255)) if deep else ()):
        for via in ('reader', 'font'):
            out.append(Case('format0-%s-%s' % ('_'.join(map(str, at)), via), format0, dict(at=at, where={1: 'first', 2: 'middle', 3: 'last'}.get(len(at), 'last'), via=via), bounds={'glyphs': len(at)}, reach=['some']))
    shapes = [((1, False),), ((2, False),), ((1, True),), ((2, True),), ((1, False), (1, True)), ((1, True), (1, True)), ((1, True), (1, False))]
    if deep:
        shapes += [((3, False),), ((3, True),), ((2, True), (2, True)), ((1, False), (2, True)), ((1, True), (1, False), (1, True)), ((2, False), (1, False))]
    for sh in shapes:
        for via in ('reader', 'font')[:2 if sum(n for n, _ in sh) == 1 or deep else 1]:
            out.append(Case('format4-%s-%s' % ('_'.join('%d%s' % (n, 'a' if a else '') for n, a in sh), via), format4, dict(shape=sh, via=via, second=None), bounds={'segments': len(sh), 'characters': sum(n for n, _ in sh)}, reach=['some']))
    for s in ('unsupported', 'trimmed', 'outside'):
        out.append(Case('beside-%s' % s, format4, dict(shape=((1, True),), via='font', second=s), bounds={'segments': 1}, reach=['some']))
    for via in ('reader', 'font'):
        out.append(Case('both-%s' % via, both, dict(via=via), bounds={}, reach=['some']))
        out.append(Case('nocmap-%s' % via, nocmap, dict(via=via), bounds={}, reach=['read']))
        for w in FILES:
            for p in range(3):
                out.append(Case('cut-%s-%d-%s' % (w, p, via), cut, dict(which=w, part=p, parts=3, via=via), bounds={'length': 'every one'}, reach=['read']))
    for w in FILES:
        base = {'first': 12 + 48, 'middle': 12 + 48 + 4, 'last': 12 + 48 + 12}[{'format4': 'middle', 'format0': 'first', 'format2': 'last'}[w]]
        for pos in [4, 5] + list(range(12, 60)) + [base + k for k in (2, 3, 8, 9, 10, 11, 12, 13)]:
            if not deep and 12 <= pos < 60 and (pos % 16 in (0, 1, 2, 3) or w != 'format4'):
                continue
            out.append(Case('damage-%s-%d' % (w, pos), damage, dict(which=w, pos=pos, via='font' if pos % 2 else 'reader'), bounds={'byte': pos}, reach=['read']))
    return out
