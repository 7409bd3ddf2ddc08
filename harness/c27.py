from symex.hapi import Case
from harness.content import *

ASSUMPTIONS = ['operands are real numbers with arbitrary values (arithmetic is exact; rounding of floats is outside)',
               'brackets of up to two operators between save and restore, nesting up to three deep with arbitrary operators, and 70 deep with one fixed sequence']

RES = {'Font': {'F1': font('Foo'), 'F2': font('Bar')}, 'ColorSpace': {'CS0': [LIT('Separation'), LIT('x'), LIT('DeviceGray'), {}], 'CS1': LIT('DeviceCMYK')}}
TEXT = {'Tc': 1, 'Tw': 1, 'Tz': 1, 'TL': 1, 'Tr': 1, 'Ts': 1, 'F1': 1, 'F2': 1}
MATRIX = {'cm': 6}
GRAPHICS = {'w': 1, 'J': 1, 'j': 1, 'M': 1, 'i': 1, 'd': 2, 'ri': 0, 'G': 1, 'g': 1, 'RG': 3, 'rg': 3, 'K': 4, 'k': 4, 'CS': 0, 'cs': 0, 'SC1': 1, 'sc1': 1, 'SCN4': 4, 'scn4': 4}
OBJECTS = {'text': 0, 'object': 0, 'path': 0}
SRC = {'F1': b'/F1 %s Tf ', 'F2': b'/F2 %s Tf ', 'd': b'[%s] %s d ', 'ri': b'/Perceptual ri ', 'CS': b'/CS1 CS ', 'cs': b'/CS0 cs ',
       'SC1': b'/CS0 CS %s SC ', 'sc1': b'/CS0 cs %s sc ', 'SCN4': b'/CS1 CS %s %s %s %s SCN ', 'scn4': b'/CS1 cs %s %s %s %s scn ',
       'text': b'BT /F2 3 Tf 7 TL 5 6 Td 1 2 TD T* 1 2 3 (x) " ET ', 'object': b'1 2 3 rg BT 1 0 0 1 2 3 Tm ET ', 'path': b'1 2 m 3 4 l 5 6 7 8 re S 1 2 m n '}
INITIAL = ['cm', 'F1', 'Tc', 'Tw', 'Tz', 'TL', 'Tr', 'Ts', 'w', 'J', 'j', 'M', 'i', 'd', 'ri', 'RG', 'k']
ARITY = {}
for d in (TEXT, MATRIX, GRAPHICS, OBJECTS):
    ARITY.update(d)
COLOR = ('RG', 'rg')


def op(h, vals, name, tag):
    """source of an operator with fresh operands"""
    names = []
    for i in range(ARITY[name]):
        n = 'x%s%d' % (tag, i)
        vals[n] = h.choice(n, (0, 1)) if name in COLOR else h.real(n, -1000, 1000)
        names.append(b'V' + n.encode())
    if name in SRC:
        s = SRC[name]
        for n in names:
            s = s.replace(b'%s', n, 1)
        return s
    return b' '.join(names) + b' ' + name.encode() + b' '


def start(h, vals, initial=None):
    st = new_state(RES)
    src = b''
    for i, name in enumerate(INITIAL if initial is None else initial):
        # fixed colours here, arbitrary numbers for everything else
        src += b'.2 .4 .6 RG ' if name == 'RG' else op(h, vals, name, 'i%d' % i)
    run(st, src, vals)
    return st


def snap(state):
    return list(state.t_matrix), textstate(state), graphics(state)


def compare(h, got, want, inner, leak=False):
    m, t, g = got
    h.equal(m, want[0], 'transformation')
    for k in t:
        if k == 'font':
            h.check(t[k] is want[1][k], 'text parameter')
        else:
            h.equal(t[k], want[1][k], 'text parameter')
    for k in g:
        same = h.eq(g[k], want[2][k])
        if not leak:
            h.check(h.or_(same, h.eq(g[k], inner[2][k])), 'graphics parameter')
        else:
            h.check(same, 'graphics parameters leak out of the bracket')


def bracket(h, ops, n, nest, leak):
    vals = {}
    st = start(h, vals)
    before = snap(st)
    names = [h.choice('op%d' % i, ops) for i in range(n)]
    src = [op(h, vals, name, 'o%d' % i) for i, name in enumerate(names)]
    if nest == 0:
        body = b''.join(src)
    elif nest == 1:
        # a complete bracket inside
        body = b'q ' + src[0] + b'Q ' + b''.join(src[1:])
    else:
        body = src[0] + b'q ' + b''.join(src[1:]) + b'q ' + src[0] + b'Q Q '
    run(st, b'q ' + body, vals)
    inner = snap(st)
    if not leak and all(x not in GRAPHICS and x not in OBJECTS for x in names):
        # nothing inside changed these
        for k in inner[2]:
            h.equal(inner[2][k], before[2][k], 'graphics parameter')
    run(st, b'Q ', vals)
    compare(h, snap(st), before, inner, leak)
    h.reach('restored')


def partial(h, ops, n):
    """only one parameter was set before"""
    vals = {}
    st = start(h, vals, h.choice('initial', [()] + [(x,) for x in INITIAL]))
    before = snap(st)
    src = b''.join(op(h, vals, h.choice('op%d' % i, ops), 'o%d' % i) for i in range(n))
    run(st, b'q ' + src, vals)
    inner = snap(st)
    run(st, b'Q ', vals)
    compare(h, snap(st), before, inner)
    h.reach('restored')


def tower(h, depth):
    """many levels"""
    vals = {'f': h.real('f', 1, 100)}
    st = new_state(RES)
    run(st, b'/F1 Vf Tf ', vals)
    seen = []
    for i in range(depth):
        x = 'x%d' % i
        vals[x] = h.real(x, -1000, 1000)
        seen.append(snap(st))
        run(st, b'q Vx%d %s Vf Vx%d Td ' % (i, (b'Tc', b'Tw', b'Ts', b'TL', b'Tz', b'0 0 1 0 0 cm')[i % 6], i), vals)
    for want in reversed(seen):
        inner = snap(st)
        run(st, b'Q ', vals)
        compare(h, snap(st), want, inner)
    h.reach('restored')


def unmatched(h, ops):
    """a restore without a save changes nothing"""
    vals = {}
    st = start(h, vals)
    name = h.choice('op', ops)
    if h.choice('balanced', (False, True)):
        # what precedes is a complete bracket
        run(st, b'q ' + op(h, vals, name, 'o') + b'Q ', vals)
    else:
        run(st, op(h, vals, name, 'o'), vals)
    before = snap(st)
    run(st, b'Q ' * h.choice('n', (1, 3)), vals)
    after = snap(st)
    compare(h, after, before, before, True)
    h.reach('ignored')


def painted(h):
    """what was painted inside keeps its parameters"""
    vals = {'a': h.real('a', -1000, 1000), 'b': h.real('b', -1000, 1000), 'c': h.real('c', -1000, 1000), 's': h.real('s', -1000, 1000)}
    st = new_state(RES)
    items = run(st, b'q Va w Va G Vb g Vc J 1 2 m 3 9 l S BT /F1 Va Tf Vb Tc Vc Tw Vs Ts 90 Tz (xy) Tj ET '
                    b'5 w .5 G .25 g 6 Tc 7 Tw 8 Ts 50 Tz /F2 9 Tf 3 4 m 5 6 l S Q 11 w 12 G 13 g 14 Tc 15 Tw 16 Ts 40 Tz /F2 17 Tf BT (z) Tj ET Q 3 w 4 G 5 g', vals)
    h.check(len(items) == 4, 'number of items')
    line, text, line2, text2 = items
    h.equal(line.linewidth, vals['a'], 'line width of a painted item')
    h.equal(color(line.stroke), ('DeviceGray', [vals['a']]), 'colour of a painted item')
    h.equal(color(line.fill), ('DeviceGray', [vals['b']]), 'colour of a painted item')
    h.equal(line2.linewidth, 5, 'line width of a painted item')
    h.equal(color(line2.stroke), ('DeviceGray', [.5]), 'colour of a painted item')
    h.equal(color(line2.fill), ('DeviceGray', [.25]), 'colour of a painted item')
    block = list(text)[0]
    for x in [block] + list(block):
        h.equal(color(x.color), ('DeviceGray', [vals['b']]), 'colour of a painted item')
        t = x.textstate
        h.check(t.font.fontname == 'Foo', 'text parameters of a painted item')
        h.equal(t.fontsize, vals['a'], 'text parameters of a painted item')
        h.equal(t.rise, vals['s'], 'text parameters of a painted item')
    for x in list(text2):
        h.equal(color(x.color), ('DeviceGray', [13]), 'colour of a painted item')
        h.check(x.textstate.font.fontname == 'Bar', 'text parameters of a painted item')
        h.equal(x.textstate.fontsize, 17, 'text parameters of a painted item')
        h.equal(x.textstate.rise, 16, 'text parameters of a painted item')
    h.reach('painted')


def cases(tier):
    q = tier == 'quick'
    every = list(ARITY)
    plain = list(TEXT) + list(MATRIX)
    out = [Case('leak', bracket, {'ops': list(GRAPHICS), 'n': 1, 'nest': 0, 'leak': True}, 'every graphics operator', ['restored']),
           Case('unmatched', unmatched, {'ops': every}, 'every operator before a restore without a save', ['ignored']),
           Case('painted', painted, {}, 'every value', ['painted']),
           Case('partial-1', partial, {'ops': plain + ['w', 'RG', 'cs', 'text'], 'n': 1}, 'one parameter or none set before', ['restored']),
           Case('tower-70', tower, {'depth': 70}, '70 levels', ['restored']),
           Case('plain-2', bracket, {'ops': plain, 'n': 2, 'nest': 0, 'leak': False}, 'two text-state or matrix operators inside', ['restored']),
           Case('any-1', bracket, {'ops': every, 'n': 1, 'nest': 0, 'leak': False}, 'any operator inside', ['restored']),
           Case('any-2', bracket, {'ops': every, 'n': 2, 'nest': 0, 'leak': False}, 'any two operators inside', ['restored']),
           Case('nested-2', bracket, {'ops': every, 'n': 2, 'nest': 1, 'leak': False}, 'a bracket within a bracket', ['restored']),
           Case('deep-2', bracket, {'ops': every, 'n': 2, 'nest': 2, 'leak': False}, 'three levels', ['restored'])]
    if not q:
        out += [Case('plain-3', bracket, {'ops': plain, 'n': 3, 'nest': 1, 'leak': False}, 'three text-state or matrix operators inside', ['restored']),
                Case('any-3', bracket, {'ops': every, 'n': 3, 'nest': 0, 'leak': False}, 'any three operators inside', ['restored'])]
    return out
