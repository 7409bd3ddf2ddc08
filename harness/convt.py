"""Scenarios shared by the checks of the output formats"""
from symex.hapi import Case
from harness.conv import *

TEXTS = ['texts of up to three characters, each any Unicode scalar value',
         'the text of a glyph is arbitrary; the text of a descriptor entry, font name or colour name is arbitrary (literals print as they do)',
         'coordinates and sizes are given numbers, page numbers and sizes given', 'pages of up to three items of twelve kinds, forms nested up to four deep']


def attempt(h, kind, pages, codec=None):
    try:
        return read(h, kind, convert(h, kind, pages, codec=codec), codec or 'utf-8')
    except Invalid:
        h.fail('every field is present')


def verify(h, kind, build, *vals, codec=None):
    """the pages built from the values are written faithfully; in HTML they have the shape of the pages built from a plain value"""
    pages = build(*vals)
    doc = attempt(h, kind, pages, codec)
    try:
        if kind == 'xml':
            xmlpages(h, doc, pages)
        elif kind == 'html':
            htmlpages(h, doc, pages)
            plain = attempt(h, kind, build(*('x' * len(v) if isinstance(v, str) else v for v in vals)), codec)
            h.check(doc.shape() == plain.shape(), 'no text opens or closes a tag or attribute')
        else:
            treepages(h, doc, pages, kind)
    except Invalid:
        h.fail('every field is present')


# ---------------------------------------------------------------- XML
def legal(h, cs):
    """the characters XML can carry"""
    return [c for c in cs if not h.branch(h.or_(c < 9, h.and_(c > 10, c < 13), h.and_(c > 13, c < 32), h.and_(c >= 0xfffe, c <= 0xffff)))]


NAMES = {'Ascent': 'ascent', 'Descent': 'descent', 'FontName': 'font-name', 'FontBBox': 'font-b-box', 'Flags': 'flags', 'StemV': 'stem-v', 'V': 'v', 'ItalicAngle': 'italic-angle'}


def xmlnumber(h, e, k, v, label):
    try:
        h.check(h.number(''.join(chr(c) for c in e.attr(k))) == v, label)
    except (Invalid, ValueError):
        h.fail(label)


def xmlcolour(h, e, prefix, c, more=False):
    names = [n for n, _ in e.attrs]
    if c.color_space is None:
        h.check(more or prefix + '-type' not in names, 'colour that is not set')
        return
    h.check(e.attr(prefix + '-type') == cps(c.color_space.name), 'colour space')
    want = []
    for i, v in enumerate(c.values):
        want += [44] * (i > 0) + colourtext(v)
    samecps(h, e.attr(prefix + '-values'), legal(h, want), 'colour values')


def blank(h, cs, label):
    for c in cs:
        h.check(h.or_(c == 32, c == 10), label)


def xmlitem(h, e, item):
    blank(h, e.text, 'text between elements')
    for k in ('x0', 'x1', 'y0', 'y1'):
        v = getattr(item, k)
        if v is None:
            h.check(k not in [n for n, _ in e.attrs], 'box of an item')
        else:
            xmlnumber(h, e, k, v, 'box of an item')
    if isinstance(item, LTCurve):
        h.check(e.name == ('rect' if isinstance(item, LTRect) else 'line' if isinstance(item, LTLine) else 'curve'), 'type of an item')
        xmlcolour(h, e, 'stroke', item.stroke)
        xmlcolour(h, e, 'fill', item.fill)
        if e.name == 'curve':
            h.check(len(e.kids) == len(item.paths), 'paths of a curve')
            for p, q in zip(e.kids, item.paths):
                h.check(p.name == 'path' and p.attr('type') == cps(q.method.name), 'paths of a curve')
                h.check(len(p.kids) == len(q.points), 'points of a curve')
                for a, b in zip(p.kids, q.points):
                    h.check(a.name == 'point', 'points of a curve')
                    xmlnumber(h, a, 'x', b.x, 'points of a curve')
                    xmlnumber(h, a, 'y', b.y, 'points of a curve')
        else:
            h.check(not e.kids, 'type of an item')
    elif isinstance(item, LTXObject):
        h.check(e.name == 'xobject', 'type of an item')
        xmlitems(h, e, item)
    elif isinstance(item, LTImage):
        h.check(e.name == 'img' and not e.kids, 'type of an item')
        samecps(h, e.attr('src'), cps(item.name), 'name of an image')
    else:
        h.check(e.name == 'text-block' and len(e.kids) == len(item), 'blocks of a text')
        for b, c in zip(e.kids, item):
            h.check(b.name == 'char-block' and len(b.kids) == len(list(c)), 'characters of a block')
            blank(h, b.text, 'text between elements')
            for k in ('x0', 'x1', 'y0', 'y1', 'size'):
                xmlnumber(h, b, k, getattr(c, k), 'box of a block')
            xmlcolour(h, b, 'color', c.color, True)
            for g, ch in zip(b.kids, c):
                h.check(g.name == 'char' and not g.kids, 'characters of a block')
                for k in ('x0', 'x1', 'y0', 'y1'):
                    xmlnumber(h, g, k, getattr(ch, k), 'box of a character')
                samecps(h, g.text, legal(h, cps(ch.get_text())), 'text of a character')
            for k, v in c.font.descriptor.items():
                if type(k) is str and k in NAMES and v is not None:
                    samecps(h, b.attr(NAMES[k]), legal(h, cps(str(v))), 'font attribute')


def xmlitems(h, e, items):
    items = list(items)
    h.check(len(e.kids) == len(items), 'every item in order')
    for k, i in zip(e.kids, items):
        xmlitem(h, k, i)


def xmlpages(h, doc, pages):
    h.check(doc.name == 'pages' and len(doc.kids) == len(pages), 'every page in order')
    blank(h, doc.text, 'text between elements')
    for e, p in zip(doc.kids, pages):
        h.check(e.name == 'page', 'every page in order')
        blank(h, e.text, 'text between elements')
        xmlnumber(h, e, 'id', p.page_num, 'number of a page')
        xmlnumber(h, e, 'width', p.width, 'size of a page')
        xmlnumber(h, e, 'height', p.height, 'size of a page')
        xmlitems(h, e, p.items)


# ---------------------------------------------------------------- HTML
def cls(e):
    return ''.join(chr(c) for c in e.attr('class'))


def htmlitem(h, e, item):
    if isinstance(item, LTCurve):
        h.check(e.name == 'svg' and [k.name for k in e.kids] == ['path'], 'element of a curve')
    elif isinstance(item, LTXObject):
        h.check(e.name == 'div' and cls(e) == 'xobject', 'element of a form')
        htmlitems(h, e, item)
    elif isinstance(item, LTImage):
        h.check(e.name == 'img' and not e.kids, 'element of an image')
        samecps(h, e.attr('src'), cps(item.name), 'name of an image')
    else:
        h.check(e.name == 'span' and cls(e) == 'text-block' and len(e.kids) == len(item), 'blocks of a text')
        for b, c in zip(e.kids, item):
            h.check(b.name == 'span' and cls(b) == 'char-block' and len(b.kids) == len(list(c)), 'characters of a block')
            blank(h, b.text, 'text between elements')
            for g, ch in zip(b.kids, c):
                h.check(g.name == 'span' and cls(g) == 'char' and not g.kids, 'characters of a block')
                # the null character is the one HTML cannot carry
                samecps(h, g.text, [0xfffd if h.branch(c == 0) else c for c in cps(ch.get_text())], 'text of a character')


def htmlitems(h, e, items):
    items = list(items)
    blank(h, e.text, 'text between elements')
    h.check(len(e.kids) == len(items), 'every item in order')
    for k, i in zip(e.kids, items):
        htmlitem(h, k, i)


def htmlpages(h, doc, pages):
    h.check(doc.name == 'html' and [k.name for k in doc.kids] == ['head', 'body'], 'the document')
    h.check([k.name for k in doc.kids[0].kids] == ['meta', 'style'], 'the document')
    body = doc.kids[1]
    blank(h, body.text, 'text between elements')
    h.check(len(body.kids) == len(pages), 'one element for each page')
    for e, p in zip(body.kids, pages):
        h.check(e.name == 'div' and cls(e) == 'page' and e.attr('id') == cps('page-%d' % p.page_num), 'one element for each page')
        htmlitems(h, e, p.items)


# ---------------------------------------------------------------- scenarios
def text(h, kind, lens):
    """the texts of glyphs"""
    def build(*ts):
        texts = {97 + i: t for i, t in enumerate(ts)}
        codes = bytes(sorted(texts))
        return [Page(1, 100, 200.5, paint(b'BT /F1 10 Tf .2 g (' + codes + b') Tj ET 1 2 m 3 4 l S', texts))]
    verify(h, kind, build, *[h.text('t%d' % i, n) for i, n in enumerate(lens)])
    h.reach('text')


def inform(h, kind):
    """texts inside forms, after other blocks"""
    def build(t):
        items = parts(['text', 'nested', 'rect'], {97: t})
        return [Page(1, 100, 200.5, items), Page(2, 1, 1, items[:1])]
    verify(h, kind, build, h.text('t', 1))
    h.reach('text')


def indeep(h, kind):
    """texts in nested forms"""
    verify(h, kind, lambda t: [Page(1, 100, 200.5, parts(['deep'], {97: t}))], h.text('t', 1, ((32, 127), (160, 0x2ff))))
    h.reach('text')


def value(h, kind, n):
    """font attributes"""
    def build(v):
        return [Page(1, 100, 200.5, paint(b'BT /F1 10 Tf (a) Tj ET', {97: 'x'}, {
            'FontName': LIT('Foo'), 'Ascent': 700, 'Descent': -200.5, 'Type': LIT('FontDescriptor'), 'FontFile2': 'f', 'V': v, 'Flags': 4}))]
    verify(h, kind, build, h.text('v', n))
    h.reach('value')


def fontname(h, kind, n):
    """names of fonts"""
    def build(v):
        return [Page(1, 100, 200.5, paint(b'BT /F1 10 Tf (a) Tj ET', {97: 'x'}, {'FontName': PSLiteral(v), 'Ascent': 700, 'Descent': -200.5}))]
    # letters of other scripts have rules of their own for capitals
    verify(h, kind, build, h.text('v', n, ((0, 127), (0x3040, 0x30ff))))
    h.reach('value')


def key(h, kind, n, ranges=None):
    """names of font attributes"""
    def build(k):
        return [Page(1, 100, 200.5, paint(b'BT /F1 10 Tf (a) Tj ET', {97: 'x'}, {'Ascent': 700, k: 'v', 'Descent': -200.5}))]
    verify(h, kind, build, h.text('k', n, ranges or ((0, 127), (0x3040, 0x30ff))) if kind == 'xml' else h.text('k', n))
    h.reach('key')


def clash(h, kind):
    """font attributes named like a field"""
    k = h.choice('k', ('size', 'x0', 'text', 'color', 'y1', 'Type', 'FontFile3', 'xFontFile', b'\xff', b'FontFile\xff', '', 'null', 'y', '1', 'a b', '-', '- a', '\x85', '#', 'a: b', '"', "'", '{', '<<', 'colorType', 'x1="'))
    v = h.choice('v', ('w', b'\xff', 5, LIT('x'), [1, LIT('y')], None, {'a': 1}, True, 1e-7))
    verify(h, kind, lambda: [Page(1, 100, 200.5, paint(b'BT /F1 10 Tf .5 g (a) Tj ET', {97: 'x'}, {'Ascent': 700, k: v, 'Descent': -200.5}))])
    h.reach('clash')


def colour(h, kind, n, where):
    """names of colour values"""
    src = {'text': b'/P cs Vcolour scn BT /F1 10 Tf (a) Tj ET', 'fill': b'/P cs Vcolour scn 1 2 3 4 re f', 'stroke': b'/P CS Vcolour SCN 1 2 m 3 4 l 5 5 l S'}[where]
    verify(h, kind, lambda c: [Page(1, 100, 200.5, paint(src, {97: 'x'}, colour=PSLiteral(c)))], h.text('c', n))
    h.reach('colour')


def structure(h, kind, n, npages):
    """every kind of item, in order; empty pages and documents"""
    num, w, ht = h.choice('num', ((1, 612, 792), (17, 0, 0.5), (0, 1e-7, 1e20)))
    pages = []
    for p in range(npages):
        names = [h.choice('p%d_%d' % (p, i), list(PARTS)) for i in range(n)]
        pages.append(Page(num if p == 0 else p, w, ht, parts(names)))
    verify(h, kind, lambda: pages)
    h.reach('structure')


def numbers(h, kind):
    """coordinates of many magnitudes"""
    big = float(h.choice('big', ('0', '-0.5', '1e-7', '12345678.25', '1e16', '1e22', '-1e300', 'inf')))
    pages = [Page(1, 100, 200.5, paint(b'1 Vb m 3 4 l 7 7 l S ', vals={'b': big}))]
    if big == float('inf'):
        attempt(h, kind, pages)
    else:
        verify(h, kind, lambda: pages)
    h.reach('numbers')


OBJECTS = {'text': b'BT Vfs Tf2 Va Vb Td Vr Ts (ab) Tj ET ', 'curve': b'Va Vb m Vc Vd 1 2 5 8 c 3 Ve 7 9 v 4 4 Vf Vg y 0 1 l h S ', 'line': b'Va Vb m Vc Vd l S ',
           'rect': b'Va Vb Vc Vd re f ', 'form': b'q 2 0 0 3 Va Vb cm /X Do Q 1 1 m 2 2 l S ', 'image': b'q Vp 0 0 Vc Va Vb cm /I Do Q '}


def objects(h, name):
    """items of one kind with arbitrary numbers, on a page of any size"""
    h.numerals()
    vals = {k: h.real(k, -1000, 1000) for k in 'abcdefgr'}
    vals['fs'] = h.real('fs', 1, 100)
    vals['p'] = h.real('p', 1, 100)
    src = OBJECTS[name].replace(b'Vfs Tf2', b'/F1 Vfs Tf')
    extra = {'XObject': {'X': form(b'1 2 m 5 2 l S BT /F1 10 Tf (c) Tj ET', Resources={'Font': {'F1': font()}}),
                         'I': stream(b'zz', {'Subtype': LIT('Image'), 'Width': 1, 'Height': 1})}}
    return Page(1, h.real('width', 1, 5000), h.real('height', 1, 5000), paint(src, {97: 'x', 98: 'y'}, None, None, vals, extra))


def anywhere(h, kind, name):
    page = objects(h, name)
    verify(h, kind, lambda: [page])
    h.reach('anywhere')


def standard(kind, tier, whole2=False):
    q = tier == 'quick'
    k = {'kind': kind}
    out = [Case('text-1', text, dict(k, lens=(1,)), 'every text of one character', ['text']),
           Case('text-2', text, dict(k, lens=(2,)), 'every text of two characters', ['text']),
           Case('text-1-1', text, dict(k, lens=(1, 1)), 'every two glyphs of one character', ['text']),
           Case('inform', inform, k, 'every text of one character in forms', ['text']),
           Case('indeep', indeep, k, 'every text of one character in forms four deep', ['text']),
           Case('value-1', value, dict(k, n=1), 'every value of one character', ['value']),
           Case('value-2', value, dict(k, n=2), 'every value of two characters', ['value']),
           Case('fontname-1', fontname, dict(k, n=1), 'every name of one character', ['value']),
           Case('key-1', key, dict(k, n=1), 'every name of one character', ['key']),
           Case('key-2', key, dict(k, n=2, ranges=((0, 64),)), 'every name of two characters (in XML up to code 64)', ['key']),
           Case('clash', clash, k, 'names of fields and hostile names', ['clash']),
           Case('colour-1', colour, dict(k, n=1, where='text'), 'every name of one character', ['colour']),
           Case('colour-fill', colour, dict(k, n=1, where='fill'), 'every name of one character', ['colour']),
           Case('colour-stroke', colour, dict(k, n=1, where='stroke'), 'every name of one character', ['colour']),
           Case('numbers', numbers, k, 'given magnitudes', ['numbers']),
           Case('structure-0', structure, dict(k, n=0, npages=0), 'no pages', ['structure']),
           Case('structure-2', structure, dict(k, n=2, npages=1), 'any two items', ['structure']),
           Case('structure-1-2', structure, dict(k, n=1, npages=2), 'two pages', ['structure']),
           Case('whole', whole, dict(k, n=1, via='file'), 'a document with every printable text of one character in two places', ['whole'])]
    if kind != 'html':
        out += [Case('anywhere-' + n, anywhere, dict(k, name=n), 'all numbers', ['anywhere']) for n in OBJECTS]
    if kind == 'html':
        out = [c for c in out if not c.name.startswith(('value', 'key'))]
    if not q:
        out += [Case('text-3', text, dict(k, lens=(3,)), 'every text of three characters', ['text']),
                Case('text-2-1', text, dict(k, lens=(2, 1)), 'every two glyphs', ['text']),
                Case('value-3', value, dict(k, n=3), 'every value of three characters', ['value']),
                Case('fontname-2', fontname, dict(k, n=2), 'every name of two characters', ['value']),
                Case('colour-2', colour, dict(k, n=2, where='text'), 'every name of two characters', ['colour']),
                Case('structure-3', structure, dict(k, n=3, npages=1), 'any three items', ['structure']),
                Case('key-2x', key, dict(k, n=2), 'every name of two characters (in XML ASCII and kana)', ['key']),
                Case('whole-2', whole, dict(k, n=2, via='direct'), 'a document with every printable text of two characters in two places', ['whole'])]
    return out
