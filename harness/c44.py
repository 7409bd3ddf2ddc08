from harness.convt import *
from pdfmajor.interpreter import LTChar

ASSUMPTIONS = ['numbers of the page are real numbers with arbitrary values (arithmetic is exact; the digits in which a number is printed are outside)',
               'shapes of width and height zero or above 0.01 (nothing is asked of the points along a direction in which the shape has no extent); paths of up to five segments', 'forms of the HTML output: absolute positions in CSS pixels, path data of M, L, C and Z commands']


def word(cs):
    return ''.join(chr(c) for c in cs)


def style(h, e):
    out = {}
    for d in word(e.attr('style')).split(';'):
        k, _, v = d.partition(':')
        out[k.strip()] = v.strip()
    return out


def px(h, css, k, label):
    v = css.get(k)
    h.check(v is not None, label)
    return h.number(v[:-2] if v.endswith('px') else v)


def svgpath(h, d):
    """segments of path data (absolute commands)"""
    out = []
    i = 0
    args = {'M': 1, 'L': 1, 'C': 3, 'Z': 0}
    toks = []
    w = ''
    for c in d + ' ':
        if c in ' ,\n' or c in 'MLCZz':
            if w:
                toks.append(w)
            w = ''
            if c in 'MLCZz':
                toks.append(c.upper())
        else:
            w += c
    op = None
    while i < len(toks):
        if toks[i] in args:
            op = toks[i]
            i += 1
        h.check(op is not None, 'path data')
        n = args[op]
        h.check(i + 2 * n <= len(toks) and all(t not in args for t in toks[i:i + 2 * n]), 'path data')
        out.append((op, [(h.number(toks[i + 2 * j]), h.number(toks[i + 2 * j + 1])) for j in range(n)]))
        i += 2 * n
        op = {'M': 'L', 'Z': None}.get(op, op)
    return out


def curves(paths):
    """the painted path with cubic curves of two control points"""
    out = []
    cur = start = None
    for s, pts in paths:
        if s == 'm':
            start = pts[0]
            out.append(('M', pts))
        elif s == 'l':
            out.append(('L', pts))
        elif s == 'h':
            out.append(('Z', []))
            cur = start
            continue
        elif s == 'v':
            out.append(('C', [cur] + pts))
        elif s == 'y':
            out.append(('C', pts + pts[-1:]))
        else:
            out.append(('C', pts))
        cur = pts[-1]
    return out


def drawn(h, page, items, path=None, m=None):
    """elements of the body for the page"""
    doc = attempt(h, 'html', [page])
    e = doc.kids[1].kids[0]
    css = style(h, e)
    h.close(px(h, css, 'width', 'page size'), page.width, 'page width')
    h.close(px(h, css, 'height', 'page size'), page.height, 'page height')
    h.check(len(e.kids) == len(items), 'every item')
    return e.kids


def place(h, css, x, y, w, t, label):
    h.close(px(h, css, 'left', label), x, label)
    h.close(px(h, css, 'top', label), y, label)
    h.close(px(h, css, 'width', label), w, label)
    h.close(px(h, css, 'height', label), t, label)


def svg(h, e, page, it, want):
    """the element draws the segments where the page has them"""
    h.check(e.name == 'svg' and len(e.kids) == 1 and e.kids[0].name == 'path', 'element of a shape')
    place(h, style(h, e), it.x0, page.height - it.y1, it.width, it.height, 'place of a shape')
    vb = [h.number(x) for x in word(e.attr('viewBox')).split()]
    h.check(len(vb) == 4, 'view box')
    got = svgpath(h, word(e.kids[0].attr('d')))
    h.check([a for a, _ in got] == [a for a, _ in want], 'segments of a shape')
    w, t = it.width, it.height
    # the scale of the drawing is the same in both directions
    wide, tall = h.branch(w > 0), h.branch(t > 0)
    if wide and tall:
        h.close(vb[2] * t, vb[3] * w, 'view box')
    for (_, a), (_, b) in zip(got, want):
        h.check(len(a) == len(b), 'points of a shape')
        for p, q in zip(a, b):
            if wide:
                h.close((p[0] - vb[0]) * w, (q[0] - it.x0) * vb[2], 'points of a shape')
            if tall:
                h.close((p[1] - vb[1]) * t, (it.y1 - q[1]) * vb[3], 'points of a shape')


MATRICES = {'id': (1, 0, 0, 1, 0, 0), 'scale': (2, 0, 0, -.5, 30, 40), 'turn': (0, 1, -1, 0, 10, 20), 'skew': (1, 0, 2, 1, 3, -4)}
POINTS = {'m': 1, 'l': 1, 'c': 3, 'v': 2, 'y': 2, 'h': 0}


def shape(h, segments, ctm, free):
    """a path whose box is given and whose other points are arbitrary"""
    h.numerals()
    m = MATRICES[ctm]
    n = 0
    src = b''
    vals = {}
    want = []
    fixed = [(2, 3), (10, 7), (2, 9), (6, 1), (10, 4), (5, 5)]
    for i, s in enumerate(segments):
        if s == '*':
            s = h.choice('s%d' % i, list('mlcvyh'))
        pts = []
        for j in range(POINTS[s]):
            if free or j < POINTS[s] - 1:
                p = (h.real('p%d' % n, -1000, 1000), h.real('p%d' % (n + 1), -1000, 1000))
                vals['p%d' % n], vals['p%d' % (n + 1)] = p
                src += b'Vp%d Vp%d ' % (n, n + 1)
            else:
                p = fixed[i]
                src += b'%d %d ' % p
            n += 2
            pts.append(p)
        want.append((s, [apply(m, p) for p in pts]))
        src += s.encode() + b' '
    items = paint(src + b'S', None, None, None, vals, None, m)
    h.check(len(items) == 1, 'one item')
    it = items[0]
    for a in (it.width, it.height):
        h.assume(h.or_(a == 0, a >= .01))
    page = Page(1, h.real('width', 1, 5000), h.real('height', 1, 5000), items)
    e, = drawn(h, page, items)
    svg(h, e, page, it, curves(want))
    h.reach('drawn')


def char(h, e, g):
    css = style(h, e)
    h.close(px(h, css, 'width', 'size of a character'), g.width, 'size of a character')
    h.close(px(h, css, 'height', 'size of a character'), g.height, 'size of a character')


def block(h, e, b):
    css = style(h, e)
    label = 'place of a text'
    h.close(px(h, css, 'left', label), b.x0, label)
    h.close(px(h, css, 'bottom', label), b.y0, label)
    h.close(px(h, css, 'width', label), b.width, label)
    h.close(px(h, css, 'height', label), b.height, label)
    h.close(px(h, css, 'font-size', label), b.size, label)
    for k, g in zip(e.kids, b):
        char(h, k, g)


def everything(h, page, kids, items):
    for e, it in zip(kids, items):
        if isinstance(it, LTCurve):
            svg(h, e, page, it, curves([(p.method.value, [(q.x, q.y) for q in p.points]) for p in it.paths]))
        elif isinstance(it, LTXObject):
            h.check(len(e.kids) == len(list(it)), 'every item')
            everything(h, page, e.kids, it)
        elif isinstance(it, LTImage):
            h.close(h.number(word(e.attr('width'))[:-2]), it.width, 'size of an image')
            h.close(h.number(word(e.attr('height'))[:-2]), it.height, 'size of an image')
        else:
            h.check(len(e.kids) == len(it), 'every block')
            for k, b in zip(e.kids, it):
                block(h, k, b)


def kinds(h, name):
    """items of every kind lie where the page has them"""
    page = objects(h, name)
    for it in page.items:
        if isinstance(it, LTCurve):
            for a in (it.width, it.height):
                h.assume(h.or_(a == 0, a >= .01))
    everything(h, page, drawn(h, page, page.items), page.items)
    h.reach('placed')


def cases(tier):
    q = tier == 'quick'
    out = [Case('kind-' + n, kinds, {'name': n}, 'all numbers', ['placed']) for n in OBJECTS if n != 'curve']
    for s in ('ml', 'mc', 'mv', 'my', 'mlh', 'mlv', 'mly'):
        for c in ('id', 'turn', 'scale'):
            out.append(Case('free-%s-%s' % (s, c), shape, {'segments': s, 'ctm': c, 'free': True}, 'all points', ['drawn']))
    for s in ('ml*', 'ml**', 'mc**') + (() if q else ('ml***', 'mcl***')):
        for c in ('id', 'scale', 'skew') if len(s) < 5 else ('skew',):
            out.append(Case('any-%s-%s' % (s, c), shape, {'segments': s, 'ctm': c, 'free': False}, 'every segment, all control points', ['drawn']))
    return out
