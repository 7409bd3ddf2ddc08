from symex.hapi import Case
from harness.content import *
from pdfmajor.interpreter import LTCurve, LTLine, LTHorizontalLine, LTVerticalLine, LTRect
from pdfmajor.interpreter.commands import LTComponent

ASSUMPTIONS = ['coordinates are real numbers with arbitrary values (arithmetic is exact; rounding of floats is outside); general transformations with given integer entries and integer points, the axis-aligned ones with arbitrary entries',
               'paths of up to eight segments that start with a move or a rectangle']

PAINT = ('S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*')
FIXED = {'id': (1, 0, 0, 1, 0, 0), 'turn': (0, 1, -1, 0, 10, 20), 'skew': (1, 0, 2, 1, 3, -4), 'rot': (3, 4, -4, 3, 7, 0), 'mirror': (-1, 0, 0, 2, 5, 5), 'flat': (1, 1, 1, 1, 0, 0)}
POINTS = {'m': 1, 'l': 1, 'c': 3, 'v': 2, 'y': 2, 'h': 0}


def matrix(h, kind):
    if kind in FIXED:
        return FIXED[kind]
    a, b, e, f = [h.real('t%d' % i, -100, 100) for i in range(4)]
    h.assume(a != 0)
    h.assume(b != 0)
    if kind == 'scale':
        return (2, 0, 0, -.5, e, f)
    if kind == 'cross':
        return (0, -2, .5, 0, e, f)
    return {'axis': (a, 0, 0, b, e, f), 'swap': (0, a, b, 0, e, f)}[kind]


def shape(h, segments, ctm, paints, split):
    isint = ctm in FIXED and ctm != 'id'
    m = matrix(h, ctm)
    paint = h.choice('paint', paints)
    vals = {'lw': h.real('lw', 0, 100), 'g': h.real('g', 0, 1), 'k': h.real('k', 0, 1)}
    src = b'Vlw w Vg G Vk g '
    want = []
    on = []
    n = 0
    for s in segments:
        if s == 'r':
            x, y, w, t = [h.real('p%d' % (n + i), -1000, 1000, isint) for i in range(4)]
            vals.update({'p%d' % (n + i): v for i, v in enumerate((x, y, w, t))})
            src += b' '.join(b'Vp%d' % (n + i) for i in range(4)) + b' re '
            n += 4
            want += [('m', [(x, y)]), ('l', [(x + w, y)]), ('l', [(x + w, y + t)]), ('l', [(x, y + t)]), ('h', [])]
            on += [(x, y), (x + w, y), (x + w, y + t), (x, y + t)]
            continue
        pts = []
        for i in range(POINTS[s]):
            p = (h.real('p%d' % n, -1000, 1000, isint), h.real('p%d' % (n + 1), -1000, 1000, isint))
            vals['p%d' % n], vals['p%d' % (n + 1)] = p
            src += b'Vp%d Vp%d ' % (n, n + 1)
            n += 2
            pts.append(p)
        src += s.encode() + b' '
        want.append((s, pts))
        on += pts[-1:]
    st = new_state(ctm=m)
    if split:
        # the path goes on over parts of the content
        run(st, src, vals)
        src = b''
    if paint in ('s', 'b', 'b*'):
        want.append(('h', []))
    items = run(st, src + paint.encode() + b' 9 w 9 G 9 g ', vals)
    h.check(len(items) == 1, 'one item')
    it = items[0]
    h.check(isinstance(it, LTCurve), 'kind of item')
    h.check(st.curvestacks == [], 'the path is empty afterwards')
    h.equal([(p.method.value, [[q.x, q.y] for q in p.points]) for p in it.paths], [(a, [apply(m, x) for x in b]) for a, b in want], 'path of the item, on the page')
    h.check(it.evenodd == (paint in ('f*', 'B*', 'b*')), 'even-odd flag')
    h.equal(it.linewidth, vals['lw'], 'line width')
    h.equal(color(it.stroke), ('DeviceGray', [vals['g']]), 'stroking colour')
    h.equal(color(it.fill), ('DeviceGray', [vals['k']]), 'non-stroking colour')
    ps = [apply(m, p) for p in on]
    for x, y in ps:
        h.check(h.and_(it.x0 <= x, x <= it.x1, it.y0 <= y, y <= it.y1), 'box contains the path')
    h.check(h.and_(h.or_(*[it.x0 == x for x, _ in ps]), h.or_(*[it.x1 == x for x, _ in ps]), h.or_(*[it.y0 == y for _, y in ps]), h.or_(*[it.y1 == y for _, y in ps])),
            'box is no larger than the path')
    ops = ''.join(a for a, _ in want)
    if ops == 'ml':
        (a, b), (c, d) = ps
        if h.branch(a == c):
            if h.branch(b == d):
                h.check(type(it) in (LTHorizontalLine, LTVerticalLine), 'kind of line')
            else:
                h.check(type(it) is LTVerticalLine, 'kind of line')
        elif h.branch(b == d):
            h.check(type(it) is LTHorizontalLine, 'kind of line')
        else:
            h.check(type(it) is LTLine, 'kind of line')
    elif ops == 'mlllh':
        (a, b), (c, d), (e, f), (g, i) = ps
        if h.branch(h.or_(h.and_(a == c, d == f, e == g, i == b), h.and_(b == d, c == e, f == i, g == a))):
            h.check(type(it) is LTRect, 'kind of rectangle')
            h.reach('rectangle')
        else:
            h.check(type(it) is LTCurve, 'kind of curve')
    else:
        h.check(type(it) is LTCurve, 'kind of curve')
    h.reach('painted')


def discard(h, segments):
    """n drops the path; what follows starts anew"""
    vals = {x: h.real(x, -1000, 1000) for x in 'abcd'}
    st = new_state()
    src = {'m': b'5 6 m ', 'l': b'7 8 l ', 'c': b'1 2 3 4 5 6 c ', 'r': b'1 1 9 9 re ', 'h': b'h '}
    how = h.choice('how', (b'n ', b'W n ', b'W* n ', b'S ', b'f* ', b'b '))
    first = run(st, b''.join(src[s] for s in segments) + how, vals)
    h.check(len(first) == (0 if b'n' in how else 1), 'discarding paints nothing')
    items = run(st, b'Va Vb m Vc Vd l S ', vals)
    h.check(len(items) == 1 and isinstance(items[0], LTLine), 'the next path starts anew')
    it = items[0]
    h.check(h.and_(it.x0 <= vals['a'], it.x1 >= vals['a'], h.or_(it.x0 == vals['a'], it.x1 == vals['a']), h.or_(it.x0 == vals['c'], it.x1 == vals['c'])), 'the next path starts anew')
    h.reach('done')


def several(h):
    """one item for each painted path, in order"""
    vals = {'w%d' % i: h.real('w%d' % i, 0, 9) for i in range(3)}
    paints = [h.choice('p%d' % i, PAINT + ('n',)) for i in range(3)]
    src = b''
    for i, p in enumerate(paints):
        src += b'Vw%d w 0 0 m %d 5 l 3 8 l %s ' % (i, i + 1, p.encode())
    items = run(new_state(), src, vals)
    want = [i for i, p in enumerate(paints) if p != 'n']
    h.check(len(items) == len(want), 'one item for each painted path')
    for it, i in zip(items, want):
        h.equal(it.linewidth, vals['w%d' % i], 'items in order')
        h.check(it.evenodd == ('*' in paints[i]), 'even-odd flag')
        h.check(it.paths[1].points[0].x == i + 1, 'items in order')
    h.reach('done')


def cases(tier):
    q = tier == 'quick'
    out = []
    short = ['ml', 'm', 'mh', 'r', 'mlllh', 'mlll', 'mllh', 'mlh', 'mll', 'mc', 'mv', 'my', 'mcvyh']
    for s in short:
        for c in ('id', 'axis', 'swap', 'scale', 'cross', 'turn', 'skew', 'rot', 'mirror', 'flat'):
            if len(s) > 3 and c in ('mirror', 'flat', 'cross') and q:
                continue
            if c in ('axis', 'swap') and s not in ('ml', 'm', 'r', 'mh', 'mc'):
                continue
            paints = PAINT if c == 'id' else ('S', 'b*') if len(s) <= 3 else ('f', 's')
            rect = s == 'r' and c != 'skew' and c != 'rot' or s in ('mlllh', 'mlll')
            out.append(Case('shape-%s-%s' % (s, c), shape, {'segments': s, 'ctm': c, 'paints': paints, 'split': False}, 'every point', ['painted']
                            + (['rectangle'] if s == 'r' and c in ('id', 'axis', 'swap', 'scale', 'cross', 'turn', 'mirror') or s == 'mlllh' and c in ('id', 'scale', 'cross', 'turn') else [])))
    for s in ('ml', 'mlll', 'r'):
        out.append(Case('split-%s' % s, shape, {'segments': s, 'ctm': 'id', 'paints': PAINT, 'split': True}, 'every point', ['painted']))
    longer = ['rr', 'mlml', 'rml', 'mlllhml', 'mlr'] + ([] if q else ['rrr', 'mlllhmlllh', 'mllllh', 'mlclvlyh'])
    for s in longer:
        for c in ('id', 'rot') if q else ('id', 'scale', 'cross', 'rot'):
            out.append(Case('shape-%s-%s' % (s, c), shape, {'segments': s, 'ctm': c, 'paints': ('S', 'f*'), 'split': False}, 'every point', ['painted']))
    for s in ('m', 'ml', 'mch', 'r', 'mlr'):
        out.append(Case('discard-%s' % s, discard, {'segments': s}, 'every next path', ['done']))
    out.append(Case('several', several, {}, 'three paths with every painting operator', ['done']))
    return out
