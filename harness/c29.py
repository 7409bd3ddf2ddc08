from symex.hapi import Case
from harness.content import *
from pdfmajor.utils import mult_matrix, translate_matrix, apply_matrix_pt, apply_matrix_norm, MATRIX_IDENTITY, Bbox
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.interpreter.PageInterpreter import PageInterpreter

ASSUMPTIONS = ['coordinates are real numbers with arbitrary values (arithmetic is exact; rounding of floats is outside)', 'media boxes of positive size']
BIG = 10 ** 12


def mat(h, name, lim=BIG):
    return tuple(h.real('%s%d' % (name, i), -lim, lim) for i in range(6))


def pt(h, name, lim=BIG):
    return (h.real(name + 'x', -lim, lim), h.real(name + 'y', -lim, lim))


def algebra(h):
    """the matrix helpers"""
    m, n, k = mat(h, 'm', 1000), mat(h, 'n', 1000), mat(h, 'k', 1000)
    p, v = pt(h, 'p', 1000), pt(h, 'v', 1000)
    # a product applies its factors in order
    h.closeseq(apply_matrix_pt(mult_matrix(m, n), p), apply_matrix_pt(n, apply_matrix_pt(m, p)), 'product')
    h.closeseq(apply_matrix_pt(m, p), apply(m, p), 'point')
    h.closeseq(mult_matrix(m, n), mult(m, n), 'product')
    h.closeseq(mult_matrix(mult_matrix(m, n), k), mult_matrix(m, mult_matrix(n, k)), 'associativity', 1)
    h.closeseq(mult_matrix(m, MATRIX_IDENTITY), m, 'identity')
    h.closeseq(mult_matrix(MATRIX_IDENTITY, m), m, 'identity')
    h.closeseq(apply_matrix_pt(MATRIX_IDENTITY, p), p, 'identity')
    h.closeseq(translate_matrix(m, v), mult_matrix((1, 0, 0, 1, v[0], v[1]), m), 'translation')
    h.closeseq(apply_matrix_pt(translate_matrix(m, v), p), apply_matrix_pt(m, (p[0] + v[0], p[1] + v[1])), 'translation')
    d = apply_matrix_norm(m, v)
    a, b = apply_matrix_pt(m, (p[0] + v[0], p[1] + v[1])), apply_matrix_pt(m, p)
    h.closeseq(d, (a[0] - b[0], a[1] - b[1]), 'displacement')
    h.reach('done')


def bbox(h, n):
    """a box contains its points and touches them"""
    ps = [pt(h, 'p%d' % i) for i in range(n)]
    b = Bbox.from_points(ps)
    box(h, b, ps)


def box(h, b, ps):
    for x, y in ps:
        h.check(h.and_(b.x0 <= x, x <= b.x1, b.y0 <= y, y <= b.y1), 'box contains its points')
    h.check(h.and_(h.or_(*[b.x0 == x for x, _ in ps]), h.or_(*[b.x1 == x for x, _ in ps]), h.or_(*[b.y0 == y for _, y in ps]), h.or_(*[b.y1 == y for _, y in ps])), 'box touches its extremes')
    h.check(h.and_(b.width == b.x1 - b.x0, b.height == b.y1 - b.y0, b.width >= 0, b.height >= 0), 'size of a box')
    h.reach('done')


def corners(h):
    """a box from two opposite corners"""
    (a, b), (c, d) = pt(h, 'p'), pt(h, 'q')
    box(h, Bbox(a, b, c, d), [(a, b), (c, d)])


def page(h, rotate):
    """the media box of a rotated page and its points"""
    x0, y0 = pt(h, 'o', 10000)
    w, t = h.real('w', 1, 10000), h.real('t', 1, 10000)
    x1, y1 = x0 + w, y0 + t
    order = h.choice('corners', (0, 1, 2, 3))
    media = [[x0, y0, x1, y1], [x1, y1, x0, y0], [x0, y1, x1, y0], [x1, y0, x0, y1]][order]
    attrs = {'MediaBox': media, 'Resources': {}}
    if rotate is not None:
        attrs['Rotate'] = rotate
    px, py = pt(h, 'p', 10000)
    qx, qy = pt(h, 'q', 10000)
    a, b, c, d = x0, y0, w, t
    attrs['Contents'] = stream(b'q Va Vb Vc Vd re f Q Vpx Vpy m Vqx Vqy l S')
    p = PageInterpreter(PDFPage(None, 1, attrs), 0)
    VALS.clear()
    for k, v in (('a', a), ('b', b), ('c', c), ('d', d), ('px', px), ('py', py), ('qx', qx), ('qy', qy)):
        VALS[b'V' + k.encode()] = v
    try:
        items = []
        for i in p:
            items.append(i)
    finally:
        VALS.clear()
    h.check(len(items) == 2, 'items')
    r = (rotate or 0) % 360
    h.closeseq((p.width, p.height), (t, w) if r in (90, 270) else (w, t), 'size of the page')
    m = items[0]
    h.closeseq((m.x0, m.y0, m.x1, m.y1), (0, 0, p.width, p.height), 'media box on the page')

    def on(x, y):
        # clockwise
        x, y = x - x0, y - y0
        return {0: (x, y), 90: (y, w - x), 180: (w - x, t - y), 270: (t - y, x)}[r]
    e, f = on(px, py)
    g, i = on(qx, qy)
    lo, hi = h.ite(e <= g, e, g), h.ite(e <= g, g, e)
    bo, to = h.ite(f <= i, f, i), h.ite(f <= i, i, f)
    l = items[1]
    h.closeseq((l.x0, l.y0, l.x1, l.y1), (lo, bo, hi, to), 'points on the page')
    h.reach('done')


def concat(h, n):
    """cm applies before the current transformation"""
    ctm = mat(h, 'ctm', 100)
    st = new_state(ctm=ctm)
    want = ctm
    vals = {}
    src = b''
    for i in range(n):
        # general for the first ones, then special forms
        kind = h.choice('kind%d' % i, ('general', 'translate', 'scale', 'turn'))
        m = {'general': mat(h, 'm%d' % i, 100), 'translate': (1, 0, 0, 1, h.real('e%d' % i, -100, 100), h.real('f%d' % i, -100, 100)),
             'scale': (h.real('e%d' % i, -100, 100), 0, 0, h.real('f%d' % i, -100, 100), 0, 0), 'turn': (0, 1, -1, 0, 0, 0)}[kind]
        for j, x in enumerate(m):
            vals['%c%d' % (97 + i, j)] = x
            src += b'V%c%d ' % (97 + i, j)
        src += b'cm '
        want = mult(m, want)
    run(st, src, vals)
    h.closeseq(st.t_matrix, want, 'concatenation')
    h.reach('done')


def cases(tier):
    q = tier == 'quick'
    out = [Case('algebra', algebra, {}, 'every matrix and point', ['done']), Case('corners', corners, {}, 'every pair of corners', ['done'])]
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
        out.append(Case('bbox-%d' % n, bbox, {'n': n}, 'every %d points' % n, ['done']))
    for r in (None, 0, 90, 180, 270, 360, 450, 540, -90, -180, -270, -360):
        out.append(Case('page-%s' % r, page, {'rotate': r}, 'every media box, its corners in any order', ['done']))
    for n in (1, 2) if q else (1, 2, 3):
        out.append(Case('concat-%d' % n, concat, {'n': n}, '%d matrices' % n, ['done']))
    return out
