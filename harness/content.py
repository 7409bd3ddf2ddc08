"""Running content streams whose operands may be symbolic: a keyword V<name> of
the stream stands for the operand the caller supplies under that name."""
from pdfmajor.parser.PDFContentParser import PDFContentParser
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.parser.PSStackParser.types import PSKeyword
from pdfmajor.interpreter.commands import process_command_stream, prep_state
from pdfmajor.interpreter.commands.state import PDFStateStack

VALS = {}
_next = PDFContentParser.nextobject


def subst(x):
    if isinstance(x, PSKeyword) and x.name in VALS:
        return VALS[x.name]
    if type(x) is list:
        return [subst(y) for y in x]
    if type(x) is PDFStream:
        # inline image
        for k in x.attrs:
            x.attrs[k] = subst(x.attrs[k])
    return x


def nextobject(self):
    pos, obj = _next(self)
    return (pos, subst(obj) if VALS else obj)


PDFContentParser.nextobject = nextobject


def stream(src, attrs=None):
    return PDFStream(attrs or {}, src)


def new_state(resources=None, ctm=(1, 0, 0, 1, 0, 0), ignore=False, cache=None):
    return prep_state(PDFStateStack(), ctm, resources if resources is not None else {}, {} if cache is None else cache, ignore)


def run(state, src, vals=None, cache=None):
    """the items painted by a stream; vals {name: operand}"""
    VALS.clear()
    for k, v in (vals or {}).items():
        VALS[b'V' + k.encode()] = v
    try:
        out = []
        for item in process_command_stream([stream(src)], {} if cache is None else cache, state):
            out.append(item)
        return out
    finally:
        VALS.clear()


def color(c):
    return (None if c.color_space is None else c.color_space.name, list(c.values))


def space(s):
    return None if s is None else s.name


def graphics(state):
    g = state.graphics
    return {'linewidth': g.linewidth, 'linecap': g.linecap, 'linejoin': g.linejoin, 'miterlimit': g.miterlimit, 'dash': None if g.dash is None else [g.dash[0], g.dash[1]],
            'intent': g.intent, 'flatness': g.flatness, 'scolor': color(g.scolor), 'ncolor': color(g.ncolor),
            'scolspace': space(g.scolspace), 'ncolspace': space(g.ncolspace)}


def textstate(state):
    t = state.text
    return {'font': t.font, 'fontsize': t.fontsize, 'charspace': t.charspace, 'wordspace': t.wordspace, 'scaling': t.scaling, 'leading': t.leading,
            'render': t.render, 'rise': t.rise, 'ignore': t.ignore_bad_chars}


def font(name='Foo', w=500, **kw):
    """a simple font whose codes all have the same width"""
    spec = {'Type': LIT('Font'), 'Subtype': LIT('Type1'), 'BaseFont': LIT(name), 'FirstChar': 0, 'Widths': [w] * 256, 'Encoding': LIT('WinAnsiEncoding'),
            'FontDescriptor': {'FontName': LIT(name), 'Flags': 4, 'Ascent': 700, 'Descent': -200, 'FontBBox': [0, -200, 1000, 800]}}
    spec.update(kw)
    return spec


def mult(m, n):
    """the matrix that applies m and then n"""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return [a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D, e * A + f * C + E, e * B + f * D + F]


def apply(m, p):
    a, b, c, d, e, f = m
    x, y = p
    return [a * x + c * y + e, b * x + d * y + f]


class TextSim:
    """the text matrices and parameters as the PDF reference defines them"""

    def __init__(self, ctm=(1, 0, 0, 1, 0, 0)):
        self.ctm = ctm
        self.fs = self.tc = self.tw = self.tl = self.rise = 0
        self.tz = 100
        self.width = lambda c: .5
        self.height, self.descent = 1, -.2
        self.vertical = self.multibyte = False
        self.begin()

    def begin(self):
        self.lm = [1, 0, 0, 1, 0, 0]
        self.pos = 0

    def td(self, x, y):
        self.lm = mult([1, 0, 0, 1, x, y], self.lm)
        self.pos = 0

    def tm(self, m):
        self.lm = list(m)
        self.pos = 0

    def nextline(self):
        self.td(0, -self.tl)

    def glyph(self, code):
        """corners on the page; advances"""
        th = self.tz * .01
        w = self.width(code) * self.fs
        space = self.tc + (self.tw if code == 32 and not self.multibyte else 0)
        m = mult(self.lm, self.ctm)
        if self.vertical:
            vx, vy, width = self.disp(code)
            lo = [-vx * self.fs * th, (1 - vy) * self.fs + self.rise]
            hi = [lo[0] + width * self.fs * th, lo[1] + w]
            at = [0, self.pos]
            self.pos = self.pos + w + space
        else:
            lo = [0, self.descent * self.fs + self.rise]
            hi = [w * th, lo[1] + self.height * self.fs]
            at = [self.pos, 0]
            self.pos = self.pos + (w + space) * th
        return [apply(m, (x + at[0], y + at[1])) for x in (lo[0], hi[0]) for y in (lo[1], hi[1])]

    def adjust(self, n):
        self.pos = self.pos - n * .001 * self.fs * (1 if self.vertical else self.tz * .01)

    def show(self, seq):
        """[(code, corners)] of a string or array of codes and numbers"""
        out = []
        for x in seq:
            if isinstance(x, (bytes, list, tuple)):
                for c in x:
                    out.append((c, self.glyph(c)))
            else:
                self.adjust(x)
        return out


def samebox(h, item, corners, label):
    """item's box is that of the corners (of which two opposite ones are the first and the last)"""
    for k, lo, hi in ((0, item.x0, item.x1), (1, item.y0, item.y1)):
        vs = [c[k] for c in corners]
        a = b = vs[0]
        for v in vs[1:]:
            a = h.ite(v < a, v, a)
            b = h.ite(v > b, v, b)
        h.close(lo, a, label)
        h.close(hi, b, label)
