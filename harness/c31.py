from symex.hapi import Case
from harness.content import *

ASSUMPTIONS = ['operands are real numbers with arbitrary values (arithmetic is exact; rounding of floats is outside)', 'text matrices with given linear part and arbitrary translation in sequences; arbitrary ones alone',
               'sequences of up to four operators in one text object']

RES = {'Font': {'F1': font('Foo', 500), 'F2': font('Bar', 250)}}
CTM = {'id': (1, 0, 0, 1, 0, 0), 'turn': (0, 1, -1, 0, 100, 7), 'skew': (2, 0, 1, 3, -5, 4)}
OPS = {'Td': 2, 'TD': 2, 'T*': 0, 'TL': 1, "'": 0, '"': 2, 'Tj': 0, 'TJ': 1, 'Tc': 1, 'Tw': 1, 'Tz': 0, 'Ts': 1, 'Tf': 0, 'TmI': 2, 'TmR': 2, 'TmS': 2, 'BT': 0, 'cm': 2, 'q': 0, 'empty': 0}
LINEAR = {'TmI': (1, 0, 0, 1), 'TmR': (0, 2, -1, 0), 'TmS': (1, .5, -.25, 2)}


def glyphs(block):
    return [c for b in block for c in b]


def step(h, op, i, sim, vals):
    """source of an operator; shown glyphs go to sim"""
    x = []
    for j in range(OPS[op]):
        n = 'x%d%d' % (i, j)
        vals[n] = h.real(n, -1000, 1000)
        x.append(vals[n])
    names = b' '.join(b'Vx%d%d' % (i, j) for j in range(OPS[op])) + b' '
    shown = []
    if op == 'Td':
        sim.td(*x)
    elif op == 'TD':
        sim.tl = -x[1]
        sim.td(*x)
    elif op == 'T*':
        sim.nextline()
    elif op == 'TL':
        sim.tl = x[0]
    elif op in LINEAR:
        sim.tm(LINEAR[op] + tuple(x))
        return b' '.join(b'%g' % v for v in LINEAR[op]) + b' ' + names + b'Tm ', shown
    elif op == "'":
        sim.nextline()
        shown = sim.show([b'a b'])
        return b"(a b) ' ", shown
    elif op == '"':
        sim.tw, sim.tc = x
        sim.nextline()
        shown = sim.show([b'a b'])
        return names + b'(a b) " ', shown
    elif op == 'Tj':
        shown = sim.show([b'a c'])
        return b'(a c) Tj ', shown
    elif op == 'TJ':
        shown = sim.show([x[0], b'a', x[0], b' ', 2 * x[0]])
        vals['y%d' % i] = 2 * x[0]
        return b'[' + names + b'(a) ' + names + b' ( ) Vy%d ] TJ ' % i, shown
    elif op == 'Tc':
        sim.tc = x[0]
    elif op == 'Tw':
        sim.tw = x[0]
    elif op == 'Tz':
        sim.tz = 50
        return b'50 Tz ', shown
    elif op == 'Ts':
        sim.rise = x[0]
    elif op == 'Tf':
        sim.fs = 7
        sim.width = lambda c: .25
        return b'/F2 7 Tf ', shown
    elif op == 'BT':
        # another text object
        sim.begin()
        return b'ET BT ', shown
    elif op == 'cm':
        sim.ctm = mult((1, 0, 0, 1) + tuple(x), sim.ctm)
        return b'1 0 0 1 ' + names + b'cm ', shown
    elif op == 'q':
        return b'q 3 w Q ', shown
    elif op == 'empty':
        return b'() Tj [] TJ ', shown
    return names + op.encode() + b' ', shown


def sequence(h, ops, n, ctm, first):
    sim = TextSim(CTM[ctm])
    vals = {}
    want = []
    src = b'/F1 10 Tf BT '
    sim.fs = 10
    if first:
        vals['fa'], vals['fb'], vals['fl'] = h.real('fa', -1000, 1000), h.real('fb', -1000, 1000), h.real('fl', -1000, 1000)
        src += b'Vfl TL Vfa Vfb Td '
        sim.tl = vals['fl']
        sim.td(vals['fa'], vals['fb'])
    for i in range(n):
        op = h.choice('op%d' % i, ops)
        s, shown = step(h, op, i, sim, vals)
        src += s
        want += shown
    want += sim.show([b'z'])
    items = run(new_state(RES, CTM[ctm]), src + b'(z) Tj ET ', vals)
    got = [c for t in items for c in glyphs(t)]
    h.check(len(got) == len(want), 'number of glyphs')
    for g, (code, corners) in zip(got, want):
        h.check(g.get_text() == chr(code), 'glyph')
        samebox(h, g, corners, 'place of a glyph')
    h.reach('done')


def general(h, how):
    """an arbitrary text matrix and current transformation"""
    vals = {}
    m = [h.real('m%d' % i, -100, 100) for i in range(6)]
    ctm = (2, 1, -1, 3, 5, 7)
    vals.update({'m%d' % i: v for i, v in enumerate(m)})
    tx, ty, tl = h.real('tx', -100, 100), h.real('ty', -100, 100), h.real('tl', -100, 100)
    vals.update(tx=tx, ty=ty, tl=tl)
    st = new_state(RES, ctm)
    src = {'Tm': b'', 'Td': b'Vtx Vty Td ', 'TD': b'Vtx Vty TD T* ', 'T*': b'Vtl TL T* ', 'show': b'Vtl TL (abc) Tj (d) Tj T* ', 'again': b'5 6 Td (x) Tj Vm0 Vm1 Vm2 Vm3 Vm4 Vm5 Tm '}[how]
    run(st, b'BT /F1 10 Tf Vm0 Vm1 Vm2 Vm3 Vm4 Vm5 Tm ' + src, vals)
    lm = {'Tm': m, 'again': m, 'Td': mult([1, 0, 0, 1, tx, ty], m), 'TD': mult([1, 0, 0, 1, tx, 2 * ty], m), 'T*': mult([1, 0, 0, 1, 0, -tl], m), 'show': mult([1, 0, 0, 1, 0, -tl], m)}[how]
    items = run(st, b'(a) Tj ET ', vals)
    g = glyphs(items[0])[-1]
    w = mult(lm, ctm)
    samebox(h, g, [apply(w, p) for p in ((0, -2), (5, -2), (0, 8), (5, 8))], 'place of a glyph')
    h.reach('done')


def vertical(h):
    """vertical writing moves down the line"""
    sub = {'Subtype': LIT('CIDFontType0'), 'BaseFont': LIT('Foo'), 'FontDescriptor': {'FontBBox': [0, -200, 1000, 800]}, 'W2': [97, [-500, 400, 700]]}
    spec = {'Subtype': LIT('Type0'), 'Encoding': LIT('Identity-V'), 'DescendantFonts': [sub], 'ToUnicode': stream(b'1 begincodespacerange <0000><ffff> endcodespacerange 1 beginbfrange <0000> <00ff> <0000> endbfrange')}
    vals = {x: h.real(x, -100, 100) for x in ('fs', 'tc', 'tw', 'n', 'tl', 'ts')}
    tz = h.choice('tz', (100, 50))
    sim = TextSim()
    sim.vertical = sim.multibyte = True
    sim.width = lambda c: -.5 if c == 97 else -1
    # the position vector relative to the glyph, the width of the font
    sim.disp = lambda c: (.4, .7, 1) if c == 97 else (.5, .88, 1)
    sim.fs, sim.tc, sim.tw, sim.tl, sim.rise, sim.tz = vals['fs'], vals['tc'], vals['tw'], vals['tl'], vals['ts'], tz
    want = []
    sim.td(3, 4)
    want += sim.show([[97, 98, 32], vals['n'], [97]])
    want += sim.show([[98]])
    sim.nextline()
    want += sim.show([[97]])
    st = new_state({'Font': {'F1': spec}})
    items = run(st, b'BT /F1 Vfs Tf Vtc Tc Vtw Tw Vtl TL Vts Ts %d Tz 3 4 Td [<006100620020> Vn <0061>] TJ <0062> Tj T* <0061> Tj ET ' % tz, vals)
    got = glyphs(items[0])
    h.check(len(got) == len(want), 'number of glyphs')
    for g, (code, corners) in zip(got, want):
        h.check(g.get_text() == chr(code), 'glyph')
        samebox(h, g, corners, 'place of a vertical glyph')
    h.reach('done')


def cases(tier):
    q = tier == 'quick'
    out = []
    every = list(OPS)
    out.append(Case('two', sequence, {'ops': every, 'n': 2, 'ctm': 'id', 'first': True}, 'every two operators', ['done']))
    out.append(Case('one-turn', sequence, {'ops': every, 'n': 1, 'ctm': 'turn', 'first': True}, 'every operator', ['done']))
    out.append(Case('one-skew', sequence, {'ops': every, 'n': 1, 'ctm': 'skew', 'first': False}, 'every operator', ['done']))
    moves = ['Td', 'TD', 'T*', 'TL', "'", 'Tj', 'TmS', 'BT']
    out.append(Case('moves-3', sequence, {'ops': moves, 'n': 3, 'ctm': 'id', 'first': False}, 'every three moving and showing operators', ['done']))
    for how in ('Tm', 'Td', 'TD', 'T*', 'show', 'again'):
        out.append(Case('general-%s' % how, general, {'how': how}, 'every text matrix', ['done']))
    out.append(Case('vertical', vertical, {}, 'every value of the text parameters', ['done']))
    if not q:
        out += [Case('three', sequence, {'ops': every, 'n': 3, 'ctm': 'id', 'first': True}, 'every three operators', ['done']),
                Case('two-skew', sequence, {'ops': every, 'n': 2, 'ctm': 'skew', 'first': True}, 'every two operators', ['done']),
                Case('two-turn', sequence, {'ops': every, 'n': 2, 'ctm': 'turn', 'first': True}, 'every two operators', ['done']),
                Case('moves-4', sequence, {'ops': moves, 'n': 4, 'ctm': 'turn', 'first': False}, 'every four moving and showing operators', ['done'])]
    return out
