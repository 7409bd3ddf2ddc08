from symex.hapi import Case
from harness.content import *
from pdfmajor.execptions import PDFMajorException, UnicodeNotDefined
from pdfmajor.interpreter import LTTextBlock, LTCharBlock, LTChar

ASSUMPTIONS = ['widths, sizes, spaces and adjustments are real numbers with arbitrary values (arithmetic is exact; rounding of floats is outside)',
               'strings of up to three symbolic codes per element',
               'in vertical writing a glyph box has the width of the font box and reaches from 1 em above the horizontal origin (at the displacement vector) down by the vertical width', 'symmetric transformations: the box of a glyph is checked on the page for a given upright, turned and slanted matrix']
CTM = {'id': (1, 0, 0, 1, 0, 0), 'turn': (0, 1, -1, 0, 100, 7), 'skew': (2, 1, 1, 3, -5, 4), 'flip': (-1, 0, 0, -1, 5, 5)}
# text of the codes of the test fonts; other codes have none
TEXT = {97: 'a', 98: 'ffi', 32: ' ', 99: '\u20ac'}
TOUNI = b'1 begincodespacerange <00><ff> endcodespacerange 4 beginbfchar <61> <0061> <62> <006600660069> <20> <0020> <63> <20ac> endbfchar'
TOUNI2 = b'1 begincodespacerange <0000><ffff> endcodespacerange 4 beginbfchar <0061> <0061> <0062> <006600660069> <0020> <0020> <0063> <20ac> endbfchar'


def makefont(h, kind, vals):
    """font resource; width of a code"""
    w = {c: h.real('w%d' % c, -1000, 2000) for c in (97, 98, 32)}
    dw = h.real('dw', 0, 2000)
    asc, desc = h.real('asc', 1, 1000), h.real('desc', -500, 0)
    if kind == 'simple':
        fd = {'FontName': LIT('Foo'), 'Ascent': asc, 'Descent': desc, 'MissingWidth': dw}
        spec = {'Subtype': LIT('TrueType'), 'BaseFont': LIT('Foo'), 'FirstChar': 97, 'Widths': [w[97], w[98]], 'FontDescriptor': fd, 'ToUnicode': stream(TOUNI)}
        table = {97: w[97], 98: w[98]}
        height = asc - desc
    elif kind == 'bbox':
        top = h.real('top', 1, 1000)
        fd = {'FontName': LIT('Foo'), 'Descent': desc, 'MissingWidth': dw, 'FontBBox': [0, desc, 500, top]}
        spec = {'Subtype': LIT('Type1'), 'BaseFont': LIT('Foo'), 'FirstChar': 32, 'Widths': [w[32]], 'FontDescriptor': fd, 'ToUnicode': stream(TOUNI)}
        table = {32: w[32]}
        height = top - desc
    elif kind == 'vert':
        left, right = h.real('left', -500, 0), h.real('right', 1, 1000)
        dy = h.real('dy', 0, 1000)
        disp = {c: (h.real('vx%d' % c, -1000, 1000), h.real('vy%d' % c, -1000, 1000)) for c in (97, 32)}
        fd = {'FontName': LIT('Foo'), 'Ascent': asc, 'Descent': desc, 'FontBBox': [left, desc, right, asc]}
        sub = {'Subtype': LIT('CIDFontType0'), 'BaseFont': LIT('Foo'), 'FontDescriptor': fd, 'W2': [97, [w[97], *disp[97]], 32, 32, w[32], *disp[32]], 'DW2': [dy, dw]}
        spec = {'Subtype': LIT('Type0'), 'Encoding': LIT('Identity-V'), 'DescendantFonts': [sub], 'ToUnicode': stream(TOUNI2)}
        table = {97: w[97], 32: w[32]}
        wide = (right - left) * .001

        def place(c):
            x, y = disp.get(c, (None, dy))
            return wide * .5 if x is None else x * .001, y * .001, wide
        return spec, (lambda c: table.get(c, dw) * .001), place, None
    else:
        fd = {'FontName': LIT('Foo'), 'Ascent': asc, 'Descent': desc}
        sub = {'Subtype': LIT('CIDFontType0'), 'BaseFont': LIT('Foo'), 'FontDescriptor': fd, 'W': [97, [w[97], w[98]], 32, 32, w[32]], 'DW': dw}
        spec = {'Subtype': LIT('Type0'), 'Encoding': LIT('Identity-H'), 'DescendantFonts': [sub], 'ToUnicode': stream(TOUNI2)}
        table = dict(w)
        height = asc - desc
    return spec, (lambda c: table.get(c, dw) * .001), height * .001, desc * .001


def codes(h, name, n, alphabet):
    return [h.choice('%s%d' % (name, i), alphabet) for i in range(n)]


def show(h, kind, shape, ctm, ignore, fixed=False):
    """the glyphs of arrays and strings; shape: lengths of strings, n for a number, / for a new operator"""
    vals = {}
    spec, width, height, descent = makefont(h, kind, vals)
    multi = kind in ('cid', 'vert')
    sim = TextSim(CTM[ctm])
    sim.multibyte = multi
    sim.width, sim.height, sim.descent = width, height, descent
    sim.vertical, sim.disp = kind == 'vert', height
    fs = 10 if fixed else h.real('fs', 1, 100)
    for n, v in (('fs', fs), ('tc', h.real('tc', -50, 50)), ('tw', h.real('tw', -50, 50)), ('ts', h.real('ts', -50, 50)), ('tz', 50 if fixed else h.real('tz', 1, 300))):
        vals[n] = v
    sim.fs, sim.tc, sim.tw, sim.rise, sim.tz = fs, vals['tc'], vals['tw'], vals['ts'], vals['tz']
    sim.td(3, 4)
    alphabet = (97, 98, 32, 1)
    src = b'BT /F1 Vfs Tf Vtc Tc Vtw Tw Vts Ts Vtz Tz 3 4 Td ['
    want = []
    blocks = [0]
    bad = False
    for i, s in enumerate(shape):
        if s == 'n':
            vals['n%d' % i] = h.real('n%d' % i, -1000, 1000)
            src += b'Vn%d ' % i
            sim.adjust(vals['n%d' % i])
        elif s == '/':
            src += b'] TJ ['
            blocks.append(0)
        else:
            cs = codes(h, 's%d_' % i, int(s), alphabet)
            bad = bad or 1 in cs
            src += b'<' + b''.join((b'%04x' if multi else b'%02x') % c for c in cs) + b'> '
            want += sim.show([cs])
            blocks[-1] += len(cs)
    src += b'] TJ ET '
    st = new_state({'Font': {'F1': spec}}, CTM[ctm], ignore)
    try:
        items = run(st, src, vals)
    except UnicodeNotDefined:
        h.check(bad and not ignore, 'a code with a text')
        h.reach('bad')
        return
    h.check(ignore or not bad, 'a code without a text')
    h.check(len(items) == 1 and isinstance(items[0], LTTextBlock), 'one text block')
    block = list(items[0])
    h.check(all(isinstance(b, LTCharBlock) for b in block), 'character blocks')
    h.check([len(b) for b in block] == [b for b in blocks if b], 'one glyph for each code')
    got = [c for b in block for c in b]
    for b in block:
        h.check(b.get_text() == ''.join(c.get_text() for c in b), 'text of a block')
    for g, (code, corners) in zip(got, want):
        h.check(isinstance(g, LTChar), 'glyphs')
        h.check(g.get_text() == TEXT.get(code, ''), 'text of a glyph')
        samebox(h, g, corners, 'box of a glyph')
    # both kinds of blocks enclose what they contain
    for outer, inner in [(b, list(b)) for b in block] + ([(items[0], block)] if block else []):
        for c in inner:
            h.check(h.and_(outer.x0 <= c.x0, c.x1 <= outer.x1, outer.y0 <= c.y0, c.y1 <= outer.y1), 'blocks enclose their glyphs')
        h.check(h.and_(h.or_(*[outer.x0 == c.x0 for c in inner]), h.or_(*[outer.x1 == c.x1 for c in inner]),
                       h.or_(*[outer.y0 == c.y0 for c in inner]), h.or_(*[outer.y1 == c.y1 for c in inner])), 'blocks are no larger than their glyphs')
    h.reach('shown')


def bytewise(h, multi, n):
    """every string, symbolically: number, texts and advance of its glyphs"""
    s = h.bytes('s', n)
    if multi:
        sub = {'Subtype': LIT('CIDFontType0'), 'BaseFont': LIT('Foo'), 'FontDescriptor': {'Ascent': 700}, 'W': [0, 65535, 300]}
        spec = {'Subtype': LIT('Type0'), 'Encoding': LIT('Identity-H'), 'DescendantFonts': [sub], 'ToUnicode': stream(TOUNI2)}
        cs = [s[2 * i] * 256 + s[2 * i + 1] for i in range(n // 2)]
    else:
        fd = {'FontName': LIT('Foo'), 'Ascent': 700, 'MissingWidth': 300}
        spec = {'Subtype': LIT('TrueType'), 'BaseFont': LIT('Foo'), 'FirstChar': 0, 'Widths': [300] * 256, 'FontDescriptor': fd, 'ToUnicode': stream(TOUNI)}
        cs = [s[i] for i in range(n)]
    st = new_state({'Font': {'F1': spec}}, ignore=True)
    items = run(st, b'BT /F1 10 Tf 5 Tw 2 Tc Vs Tj ET ', {'s': s})
    got = [c for b in items[0] for c in b]
    h.check(len(got) == len(cs), 'one glyph for each code')
    x = 0
    for g, c in zip(got, cs):
        t = ''
        for k in TEXT:
            if h.branch(c == k):
                t = TEXT[k]
                break
        if t == 'ffi' or t == 'a' or t == ' ' or t == '\u20ac' or g.get_text() == '':
            h.equal(g.get_text(), t, 'text of a glyph')
        else:
            # no entry in the character map: the font's own encoding
            h.check(not multi, 'text of a glyph')
        h.close(g.x0, x, 'place of a glyph')
        h.close(g.x1, x + 3, 'place of a glyph')
        x = x + 5
        if not multi and h.branch(c == 32):
            x = x + 5
    h.reach('shown')


def nothing(h):
    """empty strings and arrays show nothing and do not fail"""
    vals = {'n': h.real('n', -1000, 1000)}
    st = new_state({'Font': {'F1': font()}})
    a = h.choice('a', (b'() Tj ', b'[] TJ ', b'[Vn] TJ ', b'[() Vn ()] TJ ', b"() ' ", b'1 2 () " ', b''))
    b = h.choice('b', (b'', b'(x) Tj ', b'(x) Tj (y) Tj '))
    after = h.choice('after', (False, True))
    items = run(st, b'BT /F1 10 Tf ' + (b + a if after else a + b) + b'ET ', vals)
    h.check(len(items) == 1, 'one text block')
    h.check(''.join(c.get_text() for x in items[0] for c in x) == {0: '', 1: 'x', 2: 'xy'}[b.count(b'Tj')], 'shown text')
    h.check(len(list(items[0])) == b.count(b'Tj'), 'blocks')
    h.reach('done')


def style(h):
    """glyphs carry the font, size and colour they were shown with"""
    vals = {x: h.real(x, 0, 100) for x in 'abcd'}
    st = new_state({'Font': {'F1': font('Foo'), 'F2': font('Bar')}})
    items = run(st, b'BT /F1 Va Tf Vb g (ab) Tj /F2 Vc Tf Vd g (c) Tj /F1 1 Tf 0 g ET ', vals)
    x, y = list(items[0])
    for it, name, size, col in ((x, 'Foo', 'a', 'b'), (y, 'Bar', 'c', 'd')):
        for c in [it] + list(it):
            h.check(c.fontname == name, 'font of a glyph')
            h.equal(c.textstate.fontsize, vals[size], 'size of a glyph')
            h.equal(color(c.color), ('DeviceGray', [vals[col]]), 'colour of a glyph')
    h.reach('done')


def cases(tier):
    q = tier == 'quick'
    out = []
    shapes = ['2', '1n1', 'n1/1', '1/0/1'] + ([] if q else ['3', '2n1', '1n1/n1', '1n0n1', '2/2'])
    for k in ('simple', 'bbox', 'cid'):
        for s in shapes:
            for c in ('id', 'turn') if q else ('id', 'turn', 'skew', 'flip'):
                out.append(Case('show-%s-%s-%s' % (k, s.replace('/', 'x'), c), show, {'kind': k, 'shape': s, 'ctm': c, 'ignore': s != '2', 'fixed': len(s) > 1 or c != 'id'},
                                'every width, size, space and adjustment', ['shown'] + (['bad'] if s == '2' else [])))
        out.append(Case('bad-%s' % k, show, {'kind': k, 'shape': '1/1', 'ctm': 'skew', 'ignore': False, 'fixed': True}, 'codes without a text', ['shown', 'bad']))
        out.append(Case('ignored-%s' % k, show, {'kind': k, 'shape': '2', 'ctm': 'skew', 'ignore': True, 'fixed': True}, 'codes without a text', ['shown']))
    for s, c in (('1', 'id'), ('1n1', 'id'), ('1/1', 'turn')) + (() if q else (('2n1', 'skew'), ('1n1', 'flip'), ('2', 'id'))):
        out.append(Case('vert-%s-%s' % (s.replace('/', 'x'), c), show, {'kind': 'vert', 'shape': s, 'ctm': c, 'ignore': True, 'fixed': len(s) > 1 or c != 'id'},
                        'vertical writing: every width, displacement, size, space and adjustment', ['shown']))
    for m in (False, True):
        for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            if m or n < 4:
                out.append(Case('bytes-%s-%d' % ('cid' if m else 'simple', n), bytewise, {'multi': m, 'n': n}, 'every string of %d bytes' % n, ['shown']))
    out.append(Case('nothing', nothing, {}, 'empty strings', ['done']))
    out.append(Case('style', style, {}, 'every size and colour', ['done']))
    return out
