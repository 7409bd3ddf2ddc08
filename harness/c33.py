from symex.hapi import Case
from harness.content import *
from harness.lib import PDFObjRef
from pdfmajor.execptions import PDFMajorException, UnicodeNotDefined
from pdfmajor.interpreter import LTXObject, LTCurve, LTTextBlock
from harness import c27

ASSUMPTIONS = ['operands and matrices are real numbers with arbitrary values (arithmetic is exact; rounding of floats is outside)',
               'of form matrix, box and current transformation one is arbitrary and the others are given at a time',
               'graphs of up to three forms, up to two invocations each']

LINEAR = {'id': (1, 0, 0, 1), 'turn': (0, 1, -1, 0), 'skew': (2, 1, 1, 3), 'flip': (-1, 0, 0, 2)}


class Ref:
    """an indirect object"""

    def __init__(self, obj):
        self.obj = obj

    def getobj(self, objid):
        return self.obj


def ref(x):
    return PDFObjRef(Ref(x), 7, 0)


def form(src, bbox=(0, 0, 10, 10), **kw):
    attrs = {'Type': LIT('XObject'), 'Subtype': LIT('Form'), 'BBox': list(bbox)}
    attrs.update(kw)
    return stream(src, attrs)


def seg(h, item, m, a, b, label):
    """item is the straight line from a to b under m"""
    h.check(isinstance(item, LTCurve), label)
    samebox(h, item, [apply(m, a), apply(m, b)], label)


def place(h, what, lin, how):
    """the form's matrix is applied before the current transformation"""
    vals = {}
    base = list(LINEAR[lin]) + [h.real('e', -1000, 1000), h.real('f', -1000, 1000)]
    cm = [2, 0, 1, -1, 5, 6]
    matrix = [0, 2, -3, 1, 7, 8]
    bbox = [1, 2, 30, 40]
    inner = [1, 2, 3, 4, 5, 6]
    if what == 'matrix':
        matrix = [h.real('m%d' % i, -1000, 1000) for i in range(6)]
    elif what == 'bbox':
        bbox = [h.real('b%d' % i, -1000, 1000) for i in range(4)]
    elif what == 'cm':
        cm = [h.real('c%d' % i, -1000, 1000) for i in range(6)]
    elif what == 'inner':
        inner = [h.real('i%d' % i, -1000, 1000) for i in range(6)]
    kw = {'Matrix': matrix} if what != 'none' else {}
    if how == 'ref':
        kw = {k: ref(v) for k, v in kw.items()}
    f = form(b'1 2 m 3 5 l S q Vi0 Vi1 Vi2 Vi3 Vi4 Vi5 cm 1 2 m 3 5 l S Q 0 0 m 4 4 l S', [1, 2, 30, 40], **kw)
    f.attrs['BBox'] = ref([ref(x) for x in bbox]) if how == 'ref' else bbox
    if how == 'ref':
        f.attrs['Subtype'] = ref(f.attrs['Subtype'])
    vals.update({'i%d' % i: inner[i] for i in range(6)})
    vals.update({'c%d' % i: cm[i] for i in range(6)})
    xs = {'X': ref(f) if how == 'ref' else f}
    st = new_state({'XObject': ref(xs) if how == 'ref' else xs}, tuple(base))
    items = run(st, b'q Vc0 Vc1 Vc2 Vc3 Vc4 Vc5 cm /X Do Q 1 1 m 2 3 l S', vals)
    h.check(len(items) == 2 and isinstance(items[0], LTXObject), 'one container for the invocation')
    outer = mult(cm, base)
    full = outer if what == 'none' else mult(matrix, outer)
    x = items[0]
    samebox(h, x, [apply(full, (bbox[i], bbox[j])) for i in (0, 2) for j in (1, 3)], 'box of the container')
    kids = list(x)
    h.check(len(kids) == 3, 'items of the form')
    seg(h, kids[0], full, (1, 2), (3, 5), 'matrix of the form')
    seg(h, kids[1], mult(inner, full), (1, 2), (3, 5), 'matrix inside the form')
    seg(h, kids[2], full, (0, 0), (4, 4), 'matrix of the form')
    seg(h, items[1], base, (1, 1), (2, 3), 'transformation of the invoker')
    h.reach('placed')


def resources(h):
    """own resources, or the invoker's when it has none"""
    own = h.choice('own', ('none', 'direct', 'ref', 'partial'))
    names = {'F1': 'Foo', 'F2': 'Bar'}
    res = {'Font': {'F1': font('Foo'), 'F2': font('Bar')}, 'ColorSpace': {'C1': LIT('DeviceCMYK')},
           'XObject': {'Y': form(b'1 1 m 2 2 l S'), 'Z': form(b'3 3 m 4 4 l S 1 1 m 2 2 l S')}}
    mine = {'Font': {'F1': font('Own')}, 'ColorSpace': {'C1': LIT('DeviceRGB')}, 'XObject': {'Y': form(b'5 5 m 6 6 l S 7 7 m 8 8 l S 1 2 m 3 4 l S')}}
    use = h.choice("use", ("F1", "F2", "C1", "Y", "Z"))
    f = form({"F1": b"BT /F1 5 Tf (x) Tj ET", "F2": b"BT /F2 5 Tf (x) Tj ET", "C1": b"/C1 cs 1 1 m 2 2 l f", "Y": b"/Y Do", "Z": b"/Z Do"}[use])
    gone = False
    if own == 'partial':
        # without the category, or with a part of it
        kind = {'F': 'Font', 'C': 'ColorSpace'}.get(use[0], 'XObject')
        del mine[kind]
        gone = True
        mine['ProcSet'] = [LIT('PDF')]
        if h.choice('empty', (True, False)):
            mine[kind] = {}
    if own != 'none':
        f.attrs['Resources'] = mine if own != 'ref' else ref(mine)
    res['XObject']['X'] = f
    st = new_state(res)
    try:
        items = run(st, b'/X Do BT /F1 5 Tf (x) Tj ET /C1 cs 1 1 m 2 2 l f /Y Do')
    except PDFMajorException:
        h.check(gone or own != 'none' and use in ('F2', 'Z'), 'a name the resources define')
        h.reach('undefined')
        return
    h.check(not gone and (own == 'none' or use not in ('F2', 'Z')), 'a name the resources do not define')
    x, text, curve, y = items
    kids = list(x)
    h.check(len(kids) == 1, 'items of the form')
    if use in ('F1', 'F2'):
        h.check(list(kids[0])[0].fontname == (names[use] if own == 'none' else 'Own'), 'font of the form')
    elif use == 'C1':
        h.check(color(kids[0].fill)[0] == ('DeviceCMYK' if own == 'none' else 'DeviceRGB'), 'colour space of the form')
    else:
        h.check(isinstance(kids[0], LTXObject), 'nested form')
        h.check(len(list(kids[0])) == ({'Y': 1, 'Z': 2}[use] if own == 'none' else 3), 'nested form')
    h.check(list(text)[0].fontname == 'Foo', 'font of the invoker')
    h.check(color(curve.fill)[0] == 'DeviceCMYK', 'colour space of the invoker')
    h.check(len(list(y)) == 1, 'form of the invoker')
    h.reach('resolved')


def inherit(h, depth):
    """painted inside with the parameters of the invoker"""
    vals = {}
    res = dict(c27.RES)
    inner = form(b'1 2 m 3 4 l S BT (x) Tj ET')
    for i in range(depth):
        name = 'X%d' % i
        if i:
            inner = form(b'/X%d Do' % (i - 1))
        res['XObject'] = dict(res.get('XObject', {}))
        res['XObject'][name] = inner
    st = new_state(res)
    src = b''
    for i, name in enumerate(c27.INITIAL):
        if name != 'cm':
            src += b'.2 .4 .6 RG ' if name == 'RG' else c27.op(h, vals, name, 'i%d' % i)
    extra = h.choice('extra', list(c27.GRAPHICS) + ['Tr', 'F2'])
    src += c27.op(h, vals, extra, 'o')
    run(st, src, vals)
    want = c27.snap(st)
    items = run(st, b'1 2 m 3 4 l S BT (x) Tj ET /X%d Do' % (depth - 1), vals)
    h.check(len(items) == 3, 'one container for the invocation')
    # painted by the invoker itself
    line0, text0 = items[:2]
    items = items[2:]
    for _ in range(depth):
        h.check(len(items) == 1 and isinstance(items[0], LTXObject), 'one container for the invocation')
        items = list(items[0])
    line, text = items
    h.equal(line.linewidth, want[2]['linewidth'], 'line width inside the form')
    h.equal(color(line.stroke), want[2]['scolor'], 'stroking colour inside the form')
    h.equal(color(line.fill), want[2]['ncolor'], 'filling colour inside the form')
    b, b0 = list(text)[0], list(text0)[0]
    h.equal(color(b.color), want[2]['ncolor'], 'filling colour inside the form')
    h.check(b.textstate.font is want[1]['font'], 'font inside the form')
    for k in ('fontsize', 'charspace', 'wordspace', 'scaling', 'leading', 'render', 'rise'):
        h.equal(getattr(b.textstate, k), getattr(b0.textstate, k), 'text parameter inside the form')
    for k in ('x0', 'x1', 'y0', 'y1'):
        h.close(getattr(b, k), getattr(b0, k), 'text parameter inside the form')
    h.reach('painted')


def isolated(h, n, wrap):
    """whatever a form does, the invoker's state is as before"""
    vals = {}
    names = [h.choice('op%d' % i, list(c27.ARITY)) for i in range(n)]
    body = b''.join(c27.op(h, vals, name, 'o%d' % i) for i, name in enumerate(names))
    body = {'plain': body, 'open': b'q ' + body, 'close': b'Q Q ' + body + b'Q ', 'operands': body + b'7 8 9', 'path': body + b'1 2 m 3 4 l', 'text': b'BT 5 6 Td ' + body.replace(b'BT', b'').replace(b'ET', b'')}[wrap]
    res = dict(c27.RES)
    res['XObject'] = {'X': form(body)}
    st = new_state(res)
    src = b''
    for i, name in enumerate(c27.INITIAL):
        src += b'.2 .4 .6 RG ' if name == 'RG' else c27.op(h, vals, name, 'i%d' % i)
    run(st, b'q 3 w ' + src, vals)
    before = c27.snap(st)
    run(st, b'/X Do ', vals)
    after = c27.snap(st)
    c27.compare(h, after, before, before, True)
    h.check(not st.argstack, 'operands of the form')
    # the saved state too
    items = run(st, b'1 2 m 3 4 l S', vals)
    h.check(len(items) == 1, 'path of the invoker')
    seg(h, items[0], before[0], (1, 2), (3, 4), 'path of the invoker')
    run(st, b'Q ', vals)
    h.equal(list(st.t_matrix), [1, 0, 0, 1, 0, 0], 'saved transformation')
    h.reach('unchanged')


def graph(h, n, width, own):
    """containers nest as the forms invoke each other; cycles are an error"""
    calls = []
    for i in range(n):
        calls.append([h.choice('c%d_%d' % (i, j), (None,) + tuple(range(n))) for j in range(width)])
    forms = {}
    for i in range(n):
        src = b'%d 0 m 9 9 l S ' % i
        for c in calls[i]:
            if c is not None:
                src += b'/X%d Do ' % c
        forms['X%d' % i] = form(src + b'0 %d m 9 9 l S' % i)
    res = {'XObject': forms}
    if own:
        for f in forms.values():
            f.attrs['Resources'] = res

    def expand(i, seen):
        if i in seen:
            return None
        out = [('a', i)]
        for c in calls[i]:
            if c is not None:
                sub = expand(c, seen + (i,))
                if sub is None:
                    return None
                out.append(sub)
        return out + [('b', i)]

    want = expand(0, ())
    st = new_state(res)
    try:
        items = run(st, b'/X0 Do')
    except PDFMajorException:
        h.check(want is None, 'forms that do not invoke themselves')
        h.reach('cycle')
        return
    h.check(want is not None, 'a form that invokes itself')

    def same(item, w):
        h.check(isinstance(item, LTXObject), 'nested container')
        kids = list(item)
        h.check(len(kids) == len(w), 'items of a form')
        for k, x in zip(kids, w):
            if isinstance(x, tuple):
                h.check(isinstance(k, LTCurve), 'items of a form')
                p = k.paths[0].points[0]
                h.check((p.x, p.y) == ((x[1], 0) if x[0] == 'a' else (0, x[1])), 'order of items')
            else:
                same(k, x)
    h.check(len(items) == 1, 'one container for the invocation')
    same(items[0], want)
    h.reach('expanded')


def twice(h):
    """the same form twice, in different places"""
    vals = {k: h.real(k, -1000, 1000) for k in ('e', 'f', 'g', 'w', 'v')}
    st = new_state({'XObject': {'X': form(b'1 2 m 3 5 l S', Matrix=[1, 0, 0, 1, 2, 2])}})
    items = run(st, b'Vw w /X Do q 1 0 0 1 Ve Vf cm Vv w /X Do Q q 1 0 0 1 Vg 0 cm /X Do Q', vals)
    h.check(len(items) == 3, 'one container for each invocation')
    for it, x, y, w in zip(items, (0, vals['e'], vals['g']), (0, vals['f'], 0), (vals['w'], vals['v'], None)):
        kids = list(it)
        h.check(len(kids) == 1, 'items of the form')
        seg(h, kids[0], [1, 0, 0, 1, 2 + x, 2 + y], (1, 2), (3, 5), 'matrix of the form')
        if w is not None:
            h.equal(kids[0].linewidth, w, 'line width inside the form')
    h.reach('twice')


def undefined(h):
    """names that are no form, image or known"""
    name = h.text('n', 2, ((33, 36), (65, 67), (88, 90)))
    known = ('AX', 'BZ')
    st = new_state({'XObject': {'AX': form(b'1 2 m 3 5 l S'), 'BZ': form(b'')}})
    hit = None
    for k in known:
        if h.branch(name == k):
            hit = k
            break
    try:
        items = run(st, b'Vn Do 1 1 m 2 2 l S', {'n': LIT(h.realize(name))})
    except PDFMajorException:
        h.check(hit is None, 'a known name')
        h.reach('undefined')
        return
    h.check(hit is not None, 'an unknown name')
    h.check(len(items) == 2 and len(list(items[0])) == (1 if hit == 'AX' else 0), 'the form of that name')
    h.reach('known')


def badchars(h):
    """codes without text inside forms follow the invoker's policy"""
    ignore = h.bool('ignore')
    ignore = h.branch(ignore)
    depth = h.choice('depth', (0, 1, 2))
    own = h.choice('own', (False, True))
    fonts = {'F1': font('Foo', Subtype=LIT('Type0'), Encoding=LIT('Identity-H'), DescendantFonts=[{'Subtype': LIT('CIDFontType0'), 'BaseFont': LIT('Foo'), 'FontDescriptor': {'Ascent': 700}}],
                        ToUnicode=stream(b'1 begincodespacerange <0000><ffff> endcodespacerange 1 beginbfchar <0061> <0061> endbfchar'))}
    code = h.choice('code', (0x61, 0x62))
    src = b'BT /F1 5 Tf <%04x> Tj ET' % code
    res = {'Font': fonts, 'XObject': {}}
    for i in range(depth):
        f = form(src)
        if own:
            f.attrs['Resources'] = {'Font': fonts, 'XObject': dict(res['XObject'])}
        res['XObject']['X%d' % i] = f
        src = b'/X%d Do' % i
    st = new_state(res, ignore=ignore)
    try:
        items = run(st, src)
    except UnicodeNotDefined:
        h.check(not ignore and code == 0x62, 'a code to be ignored')
        h.reach('error')
        return
    h.check(ignore or code == 0x61, 'a code without text')
    for i in range(depth):
        items = list(items[0])
    h.check(''.join(c.get_text() for b in items[0] for c in b) == ('a' if code == 0x61 else ''), 'text')
    h.reach('text')


def cases(tier):
    q = tier == 'quick'
    out = []
    for what in ('none', 'matrix', 'bbox', 'cm', 'inner'):
        for lin in LINEAR if not q else (('id', 'skew') if what in ('bbox', 'matrix') else ('turn',)):
            for how in ('direct', 'ref'):
                out.append(Case('place-%s-%s-%s' % (what, lin, how), place, {'what': what, 'lin': lin, 'how': how}, 'every %s and translation' % what, ['placed']))
    out += [Case('resources', resources, {}, 'every kind of resource, own and inherited', ['resolved', 'undefined']),
            Case('inherit-1', inherit, {'depth': 1}, 'every parameter', ['painted']),
            Case('inherit-2', inherit, {'depth': 2}, 'every parameter, nested', ['painted']),
            Case('twice', twice, {}, 'every place', ['twice']),
            Case('undefined', undefined, {}, 'names of two characters', ['undefined', 'known']),
            Case('badchars', badchars, {}, 'both policies', ['error', 'text']),
            Case('graph-2', graph, {'n': 2, 'width': 2, 'own': False}, 'two forms, two invocations each', ['cycle', 'expanded']),
            Case('graph-3', graph, {'n': 3, 'width': 1, 'own': True}, 'three forms, one invocation each', ['cycle', 'expanded'])]
    for wrap in ('plain', 'open', 'close', 'operands', 'path', 'text'):
        out.append(Case('isolated-1-' + wrap, isolated, {'n': 1, 'wrap': wrap}, 'any operator inside', ['unchanged']))
    if not q:
        out += [Case('isolated-2-plain', isolated, {'n': 2, 'wrap': 'plain'}, 'any two operators inside', ['unchanged']),
                Case('isolated-2-open', isolated, {'n': 2, 'wrap': 'open'}, 'any two operators inside', ['unchanged']),
                Case('graph-3-2', graph, {'n': 3, 'width': 2, 'own': False}, 'three forms, two invocations each', ['cycle', 'expanded'])]
    return out
