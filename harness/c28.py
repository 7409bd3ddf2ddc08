from symex.hapi import Case
from harness.content import *
from harness.lib import nbytes
from pdfmajor.execptions import PDFMajorException

ASSUMPTIONS = ['operands are real numbers with arbitrary values (arithmetic is exact; rounding of floats is outside)',
               'operands have the types PDF defines for the operator']

RES = {'Font': {'F1': font('Foo'), 'F2': font('Bar')},
       'ColorSpace': {'Sep': [LIT('Separation'), LIT('x'), LIT('DeviceGray'), {}], 'Cmyk': LIT('DeviceCMYK'), 'Dev': [LIT('DeviceN'), [LIT('a'), LIT('b')], LIT('DeviceRGB'), {}],
                      'Icc': [LIT('ICCBased'), stream(b'', {'N': 3})], 'Pat': LIT('Pattern'), 'Gray': [LIT('CalGray'), {}], 'Rgb': [LIT('CalRGB'), {}], 'Lab': [LIT('Lab'), {}],
                      'Idx': [LIT('Indexed'), LIT('DeviceRGB'), 1, b'']}}
SPACES = {'Sep': ('Separation', [1]), 'Cmyk': ('DeviceCMYK', [0, 0, 0, 1]), 'Dev': ('DeviceN', [1, 1]), 'Icc': ('ICCBased', [0, 0, 0]), 'Pat': ('Pattern', []), 'Gray': ('CalGray', [0]),
          'Rgb': ('CalRGB', [0, 0, 0]), 'Lab': ('Lab', [0, 0, 0]), 'Idx': ('Indexed', [0]), 'DeviceGray': ('DeviceGray', [0]), 'DeviceRGB': ('DeviceRGB', [0, 0, 0]),
          'DeviceCMYK': ('DeviceCMYK', [0, 0, 0, 1])}
COMPONENTS = {'Sep': 1, 'Cmyk': 4, 'Dev': 2, 'Icc': 3, 'Gray': 1, 'Rgb': 3, 'Lab': 3, 'Idx': 1, 'DeviceGray': 1, 'DeviceRGB': 3, 'DeviceCMYK': 4}
# operator: (number of operands, number of them that are numbers)
PLAIN = {'w': 1, 'J': 1, 'j': 1, 'M': 1, 'i': 1, 'd': 2, 'ri': 1, 'cm': 6, 'Tc': 1, 'Tw': 1, 'Tz': 1, 'TL': 1, 'Tr': 1, 'Ts': 1, 'Tf': 2, 'G': 1, 'g': 1, 'RG': 3, 'rg': 3, 'K': 4, 'k': 4,
         'Td': 2, 'TD': 2, 'Tm': 6, 'T*': 0, 'n': 0, 'm': 2, 'l': 2, 'c': 6, 'v': 4, 'y': 4, 'h': 0, 're': 4}
FIELDS = {'w': 'linewidth', 'J': 'linecap', 'j': 'linejoin', 'M': 'miterlimit', 'i': 'flatness'}
TFIELDS = {'Tc': 'charspace', 'Tw': 'wordspace', 'Tz': 'scaling', 'Tr': 'render', 'Ts': 'rise'}
SETUP = (b'Va w Vb J Vc j Vd M Ve i [Vf] Vg d /Saturation ri Va Vb Vc Vd Ve Vf cm Va Tc Vb Tw Vc Tz Vd TL Ve Tr Vf Ts /F1 Vg Tf /Dev CS Va Vb SC /Icc cs Vc Vd Ve sc Va Vb Vc Vd Ve Vf Tm ')


def points(p):
    return [[q.x, q.y] for q in p.points]


def snap(st):
    # the path under construction
    return {'ctm': list(st.t_matrix), 'text': textstate(st), 'tm': list(st.text.matrix), 'pos': list(st.text.linematrix), 'graphics': graphics(st),
            'path': [(p.method.value, points(p)) for p in st.curvestacks], 'block': st.current_textblock is None}


def same(h, got, want, label):
    for k in want:
        if k == 'text':
            h.check(got[k]['font'] is want[k]['font'], label)
            h.equal({a: b for a, b in got[k].items() if a != 'font'}, {a: b for a, b in want[k].items() if a != 'font'}, label)
        else:
            h.equal(got[k], want[k], label)


def setup(h):
    vals = {x: h.real(x, -1000, 1000) for x in 'abcdefg'}
    st = new_state(RES)
    items = run(st, SETUP + b'1 2 m 3 4 l ', vals)
    h.check(items == [], 'no items')
    return st


def operands(h, op, n):
    vals = {}
    names = []
    for i in range(n):
        x = 'x%d' % i
        vals[x] = h.real(x, -1000, 1000) if op not in ('RG', 'rg') else h.real(x, 0, 1)
        names.append(b'V' + x.encode())
    if op == 'd':
        names[0] = b'[' + names[0] + b' 3]'
    if op == 'ri':
        names = [b'/Perceptual'][:n]
    if op == 'Tf' and n:
        names[-2 if n == 2 else 0] = b'/F2'
    return vals, names


def setcolor(g, side, name, values):
    g[side + 'color'] = (name, values)
    g[side + 'colspace'] = name


def byte(h, x, got):
    """got is x in 255ths, to the nearest"""
    h.check(h.and_(got * 2 <= 510 * x + 1, got * 2 >= 510 * x - 1), 'RGB components in 255ths')


def effect(h, op, x, w, got):
    """the state the operator leaves; w is changed in place"""
    g, t = w['graphics'], w['text']
    if op in FIELDS:
        g[FIELDS[op]] = x[0]
    elif op in TFIELDS:
        t[TFIELDS[op]] = x[0]
    elif op == 'TL':
        t['leading'] = -x[0]
    elif op == 'd':
        g['dash'] = [[x[0], 3], x[1]]
    elif op == 'ri':
        g['intent'] = got['graphics']['intent']
        h.check(nbytes(got['graphics']['intent'].name) == b'Perceptual', 'intent')
    elif op == 'cm':
        w['ctm'] = mult(x, w['ctm'])
    elif op == 'Tf':
        t['fontsize'] = x[1]
        t['font'] = got['text']['font']
        h.check(got['text']['font'].fontname == 'Bar', 'font')
    elif op in ('G', 'K'):
        setcolor(g, 's', {'G': 'DeviceGray', 'K': 'DeviceCMYK'}[op], x)
    elif op in ('g', 'k'):
        setcolor(g, 'n', {'g': 'DeviceGray', 'k': 'DeviceCMYK'}[op], x)
    elif op in ('RG', 'rg'):
        side = 's' if op == 'RG' else 'n'
        now = got['graphics'][side + 'color'][1]
        h.check(len(now) == 3, 'RGB components')
        for v, b in zip(x, now):
            byte(h, v, b)
        setcolor(g, side, 'DeviceRGB', now)
    elif op in ('Td', 'TD', 'T*'):
        if op == 'TD':
            t['leading'] = x[1]
        v = x if op != 'T*' else [0, t['leading']]
        w['tm'] = mult([1, 0, 0, 1, v[0], v[1]], w['tm'])
        w['pos'] = [0, 0]
    elif op == 'Tm':
        w['tm'] = x
        w['pos'] = [0, 0]
    elif op == 'n':
        w['path'] = []
    elif op == 're':
        a, b, c, d = x
        w['path'] += [('m', [[a, b]]), ('l', [[a + c, b]]), ('l', [[a + c, b + d]]), ('l', [[a, b + d]]), ('h', [])]
    else:
        w['path'].append((op, [[x[i], x[i + 1]] for i in range(0, len(x), 2)]))


def one(h, ops, extra):
    st = setup(h)
    op = h.choice('op', ops)
    want = snap(st)
    vals, names = operands(h, op, PLAIN[op])
    vals['z'] = h.real('z', -1000, 1000)
    src = b' '.join([b'Vz', b'[Vz]', b'/F1'][:extra] + names) + b' ' + op.encode() + b' '
    items = run(st, src, vals)
    h.check(items == [], 'no items')
    got = snap(st)
    effect(h, op, [vals['x%d' % i] for i in range(PLAIN[op])] if op != 'Tf' else [None, vals['x1']], want, got)
    same(h, got, want, 'effect of an operator')
    # nothing is left for a later operator
    try:
        run(st, b'w ')
        h.fail('left operands')
    except PDFMajorException:
        pass
    same(h, snap(st), want, 'effect of an operator')
    h.reach('done')


def two(h, ops):
    st = setup(h)
    want = snap(st)
    src = b''
    steps = []
    allvals = {}
    for i in range(2):
        op = h.choice('op%d' % i, ops)
        vals, names = operands(h, op, PLAIN[op])
        ren = {}
        for k in vals:
            n = k.replace('x', 'p' if i else 'q')
            ren[b'V' + k.encode()] = b'V' + n.encode()
            allvals[n] = vals[k] if i == 0 else h.real('second' + k, *((0, 1) if op in ('RG', 'rg') else (-1000, 1000)))
        for k, v in ren.items():
            names = [x.replace(k, v) for x in names]
        run(st, b' '.join(names) + b' ' + op.encode() + b' ', allvals)
        got = snap(st)
        pre = 'p' if i else 'q'
        effect(h, op, [allvals.get(pre + '%d' % j) for j in range(PLAIN[op])], want, got)
    same(h, got, want, 'effect of two operators')
    h.reach('done')


def select(h, op, name):
    """CS and cs, then a colour of the space"""
    st = setup(h)
    want = snap(st)
    s = op == 'CS'
    run(st, b'Vz /' + name.encode() + b' ' + op.encode() + b' ', {'z': 1})
    space, init = SPACES[name]
    setcolor(want['graphics'], 's' if s else 'n', space, init)
    same(h, snap(st), want, 'selecting a colour space')
    n = 1 if name == 'Pat' else COMPONENTS[name]
    setop = h.choice('set', ('SC', 'SCN') if s else ('sc', 'scn'))
    vals, names = operands(h, setop, n)
    given = h.choice('given', tuple(range(n + 1))) if n else 0
    pad = b'Vz ' if given == n else b''
    vals['z'] = 1
    if name == 'Pat':
        names = [b'/P1']
    src = pad + b' '.join(names[n - given:]) + b' ' + setop.encode() + b' '
    try:
        run(st, src, vals)
        h.check(given == n, 'too few components')
    except PDFMajorException:
        h.check(given < n, 'enough components')
        same(h, snap(st), want, 'too few components')
        h.reach('few')
        return
    got = snap(st)
    values = [vals['x%d' % i] for i in range(n)]
    if name == 'Pat':
        values = got['graphics'][('s' if s else 'n') + 'color'][1]
        h.check(len(values) == 1 and nbytes(values[0].name) == b'P1', 'pattern')
    setcolor(want['graphics'], 's' if s else 'n', space, values)
    same(h, got, want, 'setting a colour')
    h.reach('set')


def device(h):
    """the device operators select the space a following sc uses"""
    st = setup(h)
    op = h.choice('op', ('G', 'g', 'RG', 'rg', 'K', 'k'))
    n = PLAIN[op]
    vals, names = operands(h, op, n)
    run(st, b' '.join(names) + b' ' + op.encode() + b' ', vals)
    want = snap(st)
    nums = {'y%d' % i: h.real('y%d' % i, -1000, 1000) for i in range(n)}
    s = op.isupper()
    run(st, b' '.join(b'V' + k.encode() for k in nums) + (b' SC ' if s else b' sc '), nums)
    setcolor(want['graphics'], 's' if s else 'n', {1: 'DeviceGray', 3: 'DeviceRGB', 4: 'DeviceCMYK'}[n], list(nums.values()))
    same(h, snap(st), want, 'setting a colour')
    h.reach('done')


def few(h, ops, unknown):
    """too few operands, also when operands of another operator precede"""
    st = setup(h)
    op = h.choice('op', ops)
    n = PLAIN[op]
    vals, names = operands(h, op, n)
    given = h.choice('given', tuple(range(n)))
    pre = {'none': b'', 'unknown': b'/Tag Va Vb Vc Vd Ve Vf XX ', 'known': b'Va Vb Vc Vd Ve Vf n ', 'marked': b'/Tag <</MCID 1>> BDC EMC ', 'compat': b'Va Vb Vc Vd Ve Vf BX '}[unknown]
    vals.update({x: 1 for x in 'abcdef'})
    want = snap(st)
    if unknown == 'known':
        want['path'] = []
    try:
        run(st, pre + b' '.join(names[n - given:]) + b' ' + op.encode() + b' ', vals)
        h.fail('too few operands')
    except PDFMajorException:
        pass
    same(h, snap(st), want, 'too few operands')
    h.reach('done')


UNKNOWN = [b'XX', b'BX', b'EX', b'W', b'W*', b'gs', b'sh', b'BMC', b'EMC', b'MP', b'DP', b'BDC', b'd0', b'd1', b'QQ', b'w*', b'wJ', b'Tcc', b'TJx', b'foo']


def unknown(h):
    """operators that are not known or have no effect here"""
    st = setup(h)
    want = snap(st)
    vals = {'z': h.real('z', -1000, 1000)}
    op = h.choice('op', UNKNOWN)
    pre = h.choice('pre', (b'', b'Vz ', b'Vz Vz Vz Vz Vz Vz ', b'/F1 Vz ', b'[Vz] ', b'(x) ', b'<</A Vz>> '))
    items = run(st, pre + op + b' ', vals)
    h.check(items == [], 'no items')
    same(h, snap(st), want, 'unknown operator')
    try:
        run(st, b'w ')
        h.fail('left operands')
    except PDFMajorException:
        pass
    same(h, snap(st), want, 'unknown operator')
    h.reach('done')


def show(h):
    """showing operators with too few operands, and outside of a text object"""
    st = setup(h)
    op = h.choice('op', (b'Tj', b'TJ', b"'", b'"', b'ET', b'BT'))
    inside = h.choice('inside', (False, True))
    if inside:
        run(st, b'BT ')
    need = {b'Tj': 1, b'TJ': 1, b"'": 1, b'"': 3, b'ET': 0, b'BT': 0}[op]
    given = h.choice('given', tuple(range(need + 1)))
    want = snap(st)
    bad = given < need or (op == b'BT') == inside
    try:
        out = run(st, b' '.join([b'1', b'2', b'[(ab)]' if op == b'TJ' else b'(ab)'][3 - given:]) + b' ' + op + b' ')
        h.check(not bad, 'error')
        if op == b'ET':
            h.check(len(out) == 1, 'text block')
    except PDFMajorException:
        h.check(bad, 'no error')
        if given < need:
            same(h, snap(st), want, 'too few operands')
        h.reach('bad')
        return
    g = snap(st)
    h.equal(g['graphics'], want['graphics'], 'showing text')
    h.equal(g['ctm'], want['ctm'], 'showing text')
    h.equal(g['path'], want['path'], 'showing text')
    if op == b'"':
        want['text']['wordspace'] = 1
        want['text']['charspace'] = 2
    h.equal({a: b for a, b in g['text'].items() if a != 'font'}, {a: b for a, b in want['text'].items() if a != 'font'}, 'showing text')
    h.reach('good')


def names(h):
    """undefined names and extra restores are errors of the library"""
    st = setup(h)
    want = snap(st)
    src = h.choice('src', (b'/Nope 1 Tf ', b'/Nope CS ', b'/Nope cs ', b'/Nope Do '))
    try:
        run(st, src)
        h.fail('undefined name')
    except PDFMajorException:
        pass
    got = snap(st)
    if src == b'/Nope 1 Tf ':
        want['text']['fontsize'] = got['text']['fontsize']
    same(h, got, want, 'undefined name')
    h.reach('done')


def cases(tier):
    q = tier == 'quick'
    out = []
    ops = list(PLAIN)
    for e in (0, 1, 3):
        out.append(Case('one-%d' % e, one, {'ops': ops, 'extra': e}, 'every operator, %d surplus operands' % e, ['done']))
    out.append(Case('two', two, {'ops': ops}, 'every sequence of two operators', ['done']))
    for name in SPACES:
        for op in ('CS', 'cs'):
            out.append(Case('select-%s-%s' % (op, name), select, {'op': op, 'name': name}, 'every number of components', ['set', 'few']))
    out.append(Case('device', device, {}, 'every device colour operator', ['done']))
    some = [o for o in ops if PLAIN[o]]
    for u in ('none', 'unknown', 'known', 'marked', 'compat'):
        out.append(Case('few-%s' % u, few, {'ops': some, 'unknown': u}, 'every operator with every number of missing operands', ['done']))
    out.append(Case('unknown', unknown, {}, 'operators without an effect', ['done']))
    out.append(Case('show', show, {}, 'operators of text objects', ['good', 'bad']))
    out.append(Case('names', names, {}, 'undefined names', ['done']))
    return out
