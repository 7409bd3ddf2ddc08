"""Driving the converters with given page items, and reading back what they wrote
(JSON, XML, HTML and YAML are read by the rules of their own specifications)."""
import pdfmajor.converters.json as cjson
import pdfmajor.converters.xml as cxml
import pdfmajor.converters.html as chtml
import pdfmajor.converters.yaml as cyaml
import pdfmajor.converters.text as ctext
from harness.content import *
from pdfmajor.parser.PSStackParser import PSLiteral
from pdfmajor.interpreter import LTXObject, LTCurve, LTTextBlock, LTImage
from pdfmajor.interpreter.commands import LTRect, LTLine

CONVERTERS = {'json': (cjson, cjson.convert_to_json), 'xml': (cxml, cxml.convert_to_xml), 'html': (chtml, chtml.convert_to_html),
              'yaml': (cyaml, cyaml.convert_to_yaml), 'text': (ctext, ctext.convert_to_text)}


class Page:
    def __init__(self, num, width, height, items):
        self.page_num, self.width, self.height, self.items = num, width, height, items

    def __iter__(self):
        return iter(self.items)


class Invalid(Exception):
    """not a document of the format"""


def convert(h, kind, pages, name='out', codec=None):
    """what the converter writes for the pages"""
    mod, fn = CONVERTERS[kind]
    old = mod.PDFInterpreter
    mod.PDFInterpreter = lambda *a, **k: pages
    try:
        path = h.outpath(name + '.' + kind)
        h.exactrepr(True)
        fn('in.pdf', path, **({} if codec is None else {'codec': codec}))
    finally:
        mod.PDFInterpreter = old
    return h.readfile(path)


def cps(s):
    """code points of a text"""
    return [ord(c) for c in s]


def paint(src, texts=None, descriptor=None, colour=None, vals=None, extra=None, ctm=(1, 0, 0, 1, 0, 0)):
    """items of a content stream whose font's codes have the given texts"""
    spec = font()
    if descriptor is not None:
        spec['FontDescriptor'] = descriptor
    res = {'Font': {'F1': spec}, 'ColorSpace': {'P': LIT('Pattern'), 'C': [LIT('Separation'), LIT('x'), LIT('DeviceGray'), {}]}}
    res.update(extra or {})
    cache = {}
    st = new_state(res, ctm, cache=cache)
    f = st.fontmap['F1']
    if texts is not None:
        f.to_unichr = lambda cid: texts.get(cid, 'z')
    vals = dict(vals or {})
    if colour is not None:
        vals['colour'] = colour
    return run(st, src, vals, cache)


def decode(h, data, codec='utf-8'):
    try:
        return cps(data.decode(codec))
    except UnicodeDecodeError:
        raise Invalid('encoding')


# ---------------------------------------------------------------- JSON
class Obj:
    """object as (key code points, value) in order"""

    def __init__(self, pairs):
        self.pairs = pairs

    def get(self, key):
        for k, v in self.pairs:
            if k == [ord(c) for c in key]:
                return v
        raise Invalid('no ' + key)

    def keys(self):
        return [k for k, v in self.pairs]


class Str:
    def __init__(self, cs):
        self.cs = cs


class Num:
    def __init__(self, text):
        self.text = text


def hexdigit(c):
    if not HH.branch(HH.or_(HH.and_(48 <= c, c <= 57), HH.and_(97 <= c, c <= 102), HH.and_(65 <= c, c <= 70))):
        raise Invalid('hexadecimal digit')
    return HH.ite(c <= 57, c - 48, (c | 32) - 87)


class JSON:
    """RFC 8259"""
    SIMPLE = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}

    def __init__(self, cs):
        self.cs, self.i = cs, 0

    def peek(self):
        if self.i >= len(self.cs):
            raise Invalid('end of the document')
        return self.cs[self.i]

    def take(self):
        c = self.peek()
        self.i += 1
        return c

    def ws(self):
        while self.i < len(self.cs) and self.cs[self.i] in (32, 9, 10, 13):
            self.i += 1

    def document(self):
        v = self.value()
        self.ws()
        if self.i != len(self.cs):
            raise Invalid('text after the document')
        return v

    def value(self):
        self.ws()
        c = self.peek()
        if c == 123:
            self.i += 1
            pairs = []
            self.ws()
            if self.peek() == 125:
                self.i += 1
                return Obj(pairs)
            while True:
                self.ws()
                if self.peek() != 34:
                    raise Invalid('key')
                k = self.string()
                self.ws()
                if self.take() != 58:
                    raise Invalid('colon')
                pairs.append((k.cs, self.value()))
                self.ws()
                c = self.take()
                if c == 125:
                    return Obj(pairs)
                if c != 44:
                    raise Invalid('comma')
        if c == 91:
            self.i += 1
            out = []
            self.ws()
            if self.peek() == 93:
                self.i += 1
                return out
            while True:
                out.append(self.value())
                self.ws()
                c = self.take()
                if c == 93:
                    return out
                if c != 44:
                    raise Invalid('comma')
        if c == 34:
            return self.string()
        return self.word()

    def word(self):
        w = ''
        while self.i < len(self.cs) and chr(self.cs[self.i]) in '+-.0123456789abcdefghijklmnopqrstuvwxyzE':
            w += chr(self.cs[self.i])
            self.i += 1
        if w in ('null', 'true', 'false'):
            return {'null': None, 'true': True, 'false': False}[w]
        t = w[1:] if w[:1] == '-' else w
        ip = t
        for sep in '.eE':
            ip = ip.split(sep)[0]
        if not ip.isdigit() or len(ip) > 1 and ip[0] == '0':
            raise Invalid('number')
        rest = t[len(ip):]
        if rest[:1] == '.':
            fr = ''
            rest = rest[1:]
            while rest[:1].isdigit():
                fr, rest = fr + rest[0], rest[1:]
            if not fr:
                raise Invalid('number')
        if rest[:1] in ('e', 'E'):
            rest = rest[1:]
            if rest[:1] in ('+', '-'):
                rest = rest[1:]
            if not rest.isdigit():
                raise Invalid('number')
            rest = ''
        if rest:
            raise Invalid('number')
        return Num(w)

    def string(self):
        self.i += 1
        out = []
        while True:
            c = self.take()
            if c == 34:
                return Str(out)
            if c < 32:
                raise Invalid('control character')
            if c != 92:
                out.append(c)
                continue
            e = self.take()
            if e in self.SIMPLE:
                out.append(self.SIMPLE[e])
            elif e == 117:
                v = self.unit()
                if v >= 0xd800 and v <= 0xdbff:
                    if self.take() != 92 or self.take() != 117:
                        raise Invalid('surrogate')
                    lo = self.unit()
                    if lo < 0xdc00 or lo > 0xdfff:
                        raise Invalid('surrogate')
                    v = 0x10000 + (v - 0xd800) * 1024 + (lo - 0xdc00)
                out.append(v)
            else:
                raise Invalid('escape')

    def unit(self):
        v = 0
        for _ in range(4):
            v = v * 16 + hexdigit(self.take())
        return v


# ---------------------------------------------------------------- markup
def lit(cs, i, s):
    """the characters at i are those of s"""
    return len(cs) - i >= len(s) and all(cs[i + k] == ord(s[k]) for k in range(len(s)))


ENTITIES = {'amp': 38, 'lt': 60, 'gt': 62, 'quot': 34, 'apos': 39}


class Elem:
    def __init__(self, name, attrs):
        self.name, self.attrs, self.kids, self.text = name, attrs, [], []

    def attr(self, name):
        for n, v in self.attrs:
            if n == name:
                return v
        raise Invalid('no ' + name)

    def elems(self, *names):
        return [k for k in self.kids if k.name in names]

    def shape(self):
        """tags and attribute names"""
        return (self.name, [n for n, v in self.attrs], [k.shape() for k in self.kids])


class Markup:
    """well-formed XML, or the HTML subset made of tags with quoted attributes"""

    def __init__(self, cs, html, codec='utf-8'):
        self.cs, self.i, self.html, self.codec = cs, 0, html, codec

    def space(self, c):
        return c in (32, 9, 10, 13)

    def ws(self):
        n = self.i
        while self.i < len(self.cs) and self.space(self.cs[self.i]):
            self.i += 1
        return self.i > n

    def name(self):
        n = ''
        while self.i < len(self.cs):
            c = self.cs[self.i]
            if chr(c) in '-._:' or 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c > 127 and self.namechar(c):
                n += chr(c)
            else:
                break
            self.i += 1
        if not n or n[0] in '-.0123456789':
            raise Invalid('name')
        return n

    def namechar(self, c):
        return any(a <= c <= b for a, b in ((0xb7, 0xb7), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d), (0x203f, 0x2040), (0x2070, 0x218f), (0x2c00, 0x2fef),
                                            (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd), (0x10000, 0xeffff)))

    def reference(self):
        """after an ampersand"""
        w = []
        while self.i < len(self.cs):
            c = self.cs[self.i]
            if not (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c == 35):
                break
            w.append(c)
            self.i += 1
        if self.i >= len(self.cs) or type(self.cs[self.i]) is not int or self.cs[self.i] != 59:
            raise Invalid('reference')
        self.i += 1
        if w[:1] == [35]:
            hexa = w[1:2] in ([120], [88])
            v = 0
            w = w[2:] if hexa else w[1:]
            if not w:
                raise Invalid('reference')
            for c in w:
                if hexa:
                    v = v * 16 + hexdigit(c)
                elif 48 <= c <= 57:
                    v = v * 10 + (c - 48)
                else:
                    raise Invalid('reference')
            return self.char(v)
        w = ''.join(chr(c) for c in w)
        if w in ENTITIES:
            return ENTITIES[w]
        raise Invalid('reference')

    def char(self, c):
        """a character of the document"""
        if not self.html:
            if c < 32 and c != 9 and c != 10 and c != 13 or c >= 0xd800 and c <= 0xdfff or c >= 0xfffe and c <= 0xffff:
                raise Invalid('character')
        return c

    def document(self, h):
        self.h = h
        if not self.html:
            if not lit(self.cs, 0, '<?xml version="1.'):
                raise Invalid('declaration')
            self.i = 17
            if self.cs[17] not in (48, 49):
                raise Invalid('version')
            while not lit(self.cs, self.i, '?>'):
                self.i += 1
            if bytes(self.cs[18:self.i]).strip() not in (b'" encoding="' + self.codec.encode() + b'"', b'"' if self.codec.startswith('utf') else None):
                raise Invalid('declaration')
            self.i += 2
        self.ws()
        e = self.element()
        self.ws()
        if self.i != len(self.cs):
            raise Invalid('text after the document')
        return e

    def element(self):
        if not lit(self.cs, self.i, '<'):
            raise Invalid('element')
        self.i += 1
        name = self.name()
        attrs = []
        while True:
            sp = self.ws()
            if lit(self.cs, self.i, '/>'):
                self.i += 2
                return Elem(name, attrs)
            if lit(self.cs, self.i, '>'):
                self.i += 1
                break
            if not sp:
                raise Invalid('attribute')
            n = self.name()
            if not lit(self.cs, self.i, '="'):
                raise Invalid('attribute')
            self.i += 2
            if n in [k for k, v in attrs]:
                raise Invalid('attribute twice')
            attrs.append((n, self.chars(34)))
            self.i += 1
        e = Elem(name, attrs)
        if self.html and name == 'style':
            while not lit(self.cs, self.i, '</'):
                self.i += 1
        while True:
            e.text += self.chars(60)
            if lit(self.cs, self.i, '</'):
                self.i += 2
                if self.name() != name:
                    raise Invalid('end tag')
                self.ws()
                if not lit(self.cs, self.i, '>'):
                    raise Invalid('end tag')
                self.i += 1
                return e
            e.kids.append(self.element())

    def chars(self, end):
        """characters up to an end, references replaced"""
        out = []
        while True:
            if self.i >= len(self.cs):
                raise Invalid('end of the document')
            c = self.cs[self.i]
            if c == end:
                return out
            self.i += 1
            if c == 38:
                out.append(self.reference())
                continue
            if c == 60 and not self.html:
                raise Invalid('<')
            self.char(c)
            if c == 13:
                # line ends are normalised
                if self.i < len(self.cs) and self.cs[self.i] == 10:
                    self.i += 1
                c = 10
            if end == 34 and not self.html and (c == 9 or c == 10):
                c = 32
            if self.html and c == 0:
                c = 0xfffd
            out.append(c)


# ---------------------------------------------------------------- YAML
class YAML:
    """block collections of the documents written, with scalars by the rules of YAML 1.2"""
    ESC = {48: 0, 97: 7, 98: 8, 116: 9, 9: 9, 110: 10, 118: 11, 102: 12, 114: 13, 101: 27, 32: 32, 34: 34, 47: 47, 92: 92, 78: 0x85, 95: 0xa0, 76: 0x2028, 80: 0x2029}

    def __init__(self, cs):
        self.lines = []
        cur = []
        for c in cs:
            if c == 10:
                self.lines.append(cur)
                cur = []
            elif c < 32 and c != 9 or c >= 0x7f and c < 0xa0 or c == 0x2028 or c == 0x2029 or c >= 0xd800 and c <= 0xdfff or c == 0xfeff or c >= 0xfffe and c <= 0xffff:
                raise Invalid('character')
            else:
                cur.append(c)
        self.lines.append(cur)
        self.lines = [(self.indent(ln), ln) for ln in self.lines]
        self.lines = [(n, ln[n:]) for n, ln in self.lines if n < len(ln)]
        self.k = 0

    def indent(self, ln):
        n = 0
        while n < len(ln) and ln[n] == 32:
            n += 1
        return n

    def document(self):
        v = self.block(-1)
        if self.k != len(self.lines):
            raise Invalid('indentation')
        return v

    def isitem(self, ln):
        return ln[0] == 45 and (len(ln) == 1 or ln[1] == 32)

    def block(self, parent):
        """the collection of the lines indented more than parent, or None"""
        if self.k >= len(self.lines) or self.lines[self.k][0] <= parent:
            return None
        n = self.lines[self.k][0]
        if self.isitem(self.lines[self.k][1]):
            out = []
            while self.k < len(self.lines) and self.lines[self.k][0] == n and self.isitem(self.lines[self.k][1]):
                ln = self.lines[self.k][1]
                m = 1
                while m < len(ln) and ln[m] == 32:
                    m += 1
                rest = ln[m:]
                if not rest:
                    self.k += 1
                    out.append(self.block(n))
                elif self.colon(rest) is not None or self.isitem(rest):
                    self.lines[self.k] = (n + m, rest)
                    out.append(self.block(n))
                else:
                    self.k += 1
                    out.append(self.scalar(rest))
            if self.k < len(self.lines) and self.lines[self.k][0] > parent:
                raise Invalid('indentation')
            return out
        pairs = []
        while self.k < len(self.lines) and self.lines[self.k][0] == n and not self.isitem(self.lines[self.k][1]):
            ln = self.lines[self.k][1]
            at = self.colon(ln)
            if at is None:
                raise Invalid('key')
            key = self.scalar(ln[:at])
            if not isinstance(key, Str):
                raise Invalid('key that is no text')
            if any(key.cs == k for k, v in pairs):
                raise Invalid('key twice')
            rest = ln[at + 1:]
            while rest and rest[0] == 32:
                rest = rest[1:]
            self.k += 1
            if rest:
                if self.k < len(self.lines) and self.lines[self.k][0] > n:
                    raise Invalid('continued line')
                pairs.append((key.cs, self.scalar(rest)))
            else:
                pairs.append((key.cs, self.block(n)))
        if self.k < len(self.lines) and self.lines[self.k][0] > parent:
            raise Invalid('indentation')
        return Obj(pairs)

    def colon(self, ln):
        """where the key of a line ends"""
        i = 0
        if ln[0] in (34, 39):
            try:
                _, i = self.quoted(ln, 0)
            except Invalid:
                return None
            while i < len(ln) and ln[i] == 32:
                i += 1
            return i if i < len(ln) and ln[i] == 58 and (i + 1 == len(ln) or ln[i + 1] == 32) else None
        if ln[0] in (91, 123):
            return None
        while i < len(ln):
            if ln[i] == 58 and (i + 1 == len(ln) or ln[i + 1] == 32):
                return i
            i += 1
        return None

    def quoted(self, ln, i):
        q = ln[i]
        i += 1
        out = []
        while True:
            if i >= len(ln):
                raise Invalid('quoted text')
            c = ln[i]
            i += 1
            if c == q:
                if q == 39 and i < len(ln) and ln[i] == 39:
                    out.append(39)
                    i += 1
                    continue
                return Str(out), i
            if q == 34 and c == 92:
                if i >= len(ln):
                    raise Invalid('escape')
                e = ln[i]
                i += 1
                if e in self.ESC:
                    out.append(self.ESC[e])
                elif e in (120, 117, 85):
                    v = 0
                    for _ in range({120: 2, 117: 4, 85: 8}[e]):
                        if i >= len(ln):
                            raise Invalid('escape')
                        v = v * 16 + hexdigit(ln[i])
                        i += 1
                    out.append(v)
                else:
                    raise Invalid('escape')
            else:
                out.append(c)

    def scalar(self, ln):
        v, i = self.flow(ln, 0, False)
        while i < len(ln) and ln[i] == 32:
            i += 1
        if i != len(ln):
            raise Invalid('text after a value')
        return v

    def flow(self, ln, i, inside):
        while i < len(ln) and ln[i] == 32:
            i += 1
        if i >= len(ln):
            raise Invalid('value')
        c = ln[i]
        if c == 34 or c == 39:
            return self.quoted(ln, i)
        if c == 91 or c == 123:
            end = 93 if c == 91 else 125
            out = []
            i += 1
            while True:
                while i < len(ln) and ln[i] == 32:
                    i += 1
                if i >= len(ln):
                    raise Invalid('brackets')
                if ln[i] == end:
                    return (out if end == 93 else Obj(out)), i + 1
                v, i = self.flow(ln, i, True)
                while i < len(ln) and ln[i] == 32:
                    i += 1
                if end == 125:
                    if i >= len(ln) or ln[i] != 58:
                        raise Invalid('colon')
                    if not isinstance(v, Str):
                        raise Invalid('key that is no text')
                    w, i = self.flow(ln, i + 1, True)
                    v = (v.cs, w)
                    while i < len(ln) and ln[i] == 32:
                        i += 1
                out.append(v)
                if i >= len(ln):
                    raise Invalid('brackets')
                if ln[i] == 44:
                    i += 1
                elif ln[i] != end:
                    raise Invalid('comma')
        # plain
        out = []
        while i < len(ln):
            c = ln[i]
            if c == 58 and (i + 1 == len(ln) or ln[i + 1] == 32 or inside):
                break
            if c == 35 and out and out[-1] == 32:
                raise Invalid('comment')
            if inside and (c == 44 or c == 91 or c == 93 or c == 123 or c == 125):
                break
            out.append(c)
            i += 1
        while out and (out[-1] == 32 or out[-1] == 9):
            out.pop()
        return self.resolve(out), i

    def resolve(self, cs):
        """a plain scalar by the core schema"""
        s = ''.join(chr(c) for c in cs)
        if s in ('', '~', 'null', 'Null', 'NULL'):
            return None
        if s in ('true', 'True', 'TRUE', 'false', 'False', 'FALSE'):
            return s[0] in 'tT'
        # read as something else by YAML 1.1
        if s.lower() in ('yes', 'no', 'on', 'off', 'y', 'n'):
            return s[0] in 'yYoO'
        t = s[1:] if s[0] in '+-' else s
        if t in ('.inf', '.Inf', '.INF', '.nan', '.NaN', '.NAN'):
            return Num(s)
        if t and (t[0].isdigit() or t[0] == '.' and t[1:2].isdigit()):
            try:
                float(t)
                return Num(s)
            except ValueError:
                if t[:2] in ('0x', '0o'):
                    return Num(s)
        if s[0] in '-?:,[]{}#&*!|>\'"%@`' and not (s[0] in '-?:' and len(s) > 1 and s[1] != ' '):
            raise Invalid('indicator')
        return Str(cs)


HH = None


def read(h, kind, data, codec='utf-8'):
    """the document, or a failed check"""
    global HH
    HH = h
    try:
        cs = decode(h, data, codec)
        if kind == 'json':
            return JSON(cs).document()
        if kind == 'yaml':
            return YAML(cs).document()
        return Markup(cs, kind == 'html', codec).document(h)
    except Invalid as e:
        h.fail('the output is a valid document')


def samecps(h, got, want, label):
    h.check(len(got) == len(want), label)
    for a, b in zip(got, want):
        h.check(h.eq(a, b), label)


# ---------------------------------------------------------------- pages
def form(src, **kw):
    attrs = {'Type': LIT('XObject'), 'Subtype': LIT('Form'), 'BBox': [0, 0, 10, 10]}
    attrs.update(kw)
    return stream(src, attrs)


PARTS = {'text': b'BT /F1 10 Tf 3 4 Td .2 g (abc) Tj (de) Tj ET ', 'empty': b'BT ET ', 'line': b'/P cs 1 2 m 3 4 l S ', 'hline': b'/C CS .5 SC 1 2 m 3 2 l S ',
         'rect': b'1 0 0 rg 1 2 3.5 4 re f ', 'curve': b'0 0 0 1 K 1 2 m 3 4 5 6.25 7 8 c 9 9 l h 1 1 m 2 2 l B* ', 'dot': b'1 1 m 1 1 l 1 1 l S ',
         'image': b'q 20 0 0 30 1 2 cm BI /W 1 /H 1 /BPC 8 /CS /G ID x\nEI Q ', 'form': b'/X Do ', 'nested': b'/Y Do ', 'deep': b'/W Do ', 'none': b''}


def parts(names, texts=None):
    """items of the parts, in order"""
    x = form(PARTS['text'] + PARTS['line'])
    y = form(PARTS['rect'] + b'/X Do ' + PARTS['curve'] + PARTS['text'])
    z = form(b'/Y Do ' + PARTS['image'] + b'/X Do ' + PARTS['text'])
    w = form(b'/Z Do /Z Do ' + PARTS['hline'])
    return paint(b''.join(b'q ' + PARTS[n] + b'Q ' for n in names), texts, extra={'XObject': {'X': x, 'Y': y, 'Z': z, 'W': w}})


def glyphs(item):
    return [c for b in item for c in b]


def number(h, node, value, label='number'):
    h.check(isinstance(node, Num) and HH.number(node.text) == value if value is not None else node is None, label)


def tree(h, node, item, kind):
    """an item of JSON or YAML output"""
    def text(n):
        v = node.get(n)
        h.check(isinstance(v, Str), 'text value')
        return v.cs
    def word(n):
        return ''.join(chr(c) for c in text(n))
    h.check(isinstance(node, Obj), 'an object for each item')
    box = ('x0', 'x1', 'y0', 'y1')
    for k in box:
        number(h, node.get(k), getattr(item, k))
    if isinstance(item, LTCurve):
        for k, c in (('fill', item.fill), ('stroke', item.stroke)):
            treecolour(h, node, k, c)
        t = word('type')
        h.check(t == ('rect' if isinstance(item, LTRect) else 'line' if isinstance(item, LTLine) else 'curve'), 'type of an item')
        if t == 'curve':
            ps = node.get('paths') or []
            h.check(len(ps) == len(item.paths), 'paths of a curve')
            for p, q in zip(ps, item.paths):
                h.check(p.get('type').cs == cps(q.method.name), 'paths of a curve')
                pts = p.get('points') or []
                h.check(len(pts) == len(q.points), 'points of a curve')
                for a, b in zip(pts, q.points):
                    number(h, a.get('x'), b.x, 'points of a curve')
                    number(h, a.get('y'), b.y, 'points of a curve')
    elif isinstance(item, LTXObject):
        h.check(word('type') == 'xobject', 'type of an item')
        trees(h, node.get('children'), item, kind)
    elif isinstance(item, LTImage):
        h.check(word('type') == 'img', 'type of an item')
        samecps(h, text('src'), cps(item.name), 'name of an image')
    else:
        h.check(word('type') == 'text-block', 'type of an item')
        blocks = node.get('char_blocks') or []
        h.check(len(blocks) == len(item), 'blocks of a text')
        for b, c in zip(blocks, item):
            for k in box + ('size',):
                number(h, b.get(k), getattr(c, k))
            v = b.get('text')
            h.check(isinstance(v, Str), 'text of a block')
            samecps(h, v.cs, cps(''.join(g.get_text() for g in c)), 'text of a block')
            treecolour(h, b, 'color', c.color)
            keys = b.keys()
            for i in range(len(keys)):
                for j in range(i):
                    h.check(len(keys[i]) != len(keys[j]) or not all(h.branch(h.eq(p, q)) for p, q in zip(keys[i], keys[j])), 'keys of a block are distinct')
            fixed = [cps(k) for k in box + ('size', 'text', 'color')]
            for k, val in c.font.descriptor.items():
                k = k if type(k) is not bytes else str(k)
                ks = cps(k)
                if any(same(h, ks, f) for f in fixed) or same(h, ks, cps('Type')) or has(h, ks, cps('FontFile')):
                    continue
                found = [v for kk, v in b.pairs if same(h, kk, ks)]
                h.check(len(found) == 1, 'font attribute')
                if isinstance(val, bool):
                    h.check(found[0] is val or isinstance(found[0], Str) and found[0].cs == cps(str(val)), 'font attribute')
                elif isinstance(val, (int, float)):
                    t = found[0].text if isinstance(found[0], Num) else ''.join(chr(x) for x in found[0].cs)
                    h.check(HH.number(t) == val, 'font attribute')
                else:
                    h.check(isinstance(found[0], Str), 'font attribute')
                    samecps(h, found[0].cs, cps(str(val)), 'font attribute')


def same(h, a, b):
    return len(a) == len(b) and all(h.branch(h.eq(x, y)) for x, y in zip(a, b))


def has(h, a, b):
    return any(same(h, a[i:i + len(b)], b) for i in range(len(a) - len(b) + 1))


def colourtext(v):
    return cps(str(v.name) if isinstance(v, PSLiteral) else str(v))


def treecolour(h, node, key, c):
    if c.color_space is None:
        h.check(all(k != cps(key) for k in node.keys()), 'colour that is not set')
        return
    n = node.get(key)
    h.check(n.get('type').cs == cps(c.color_space.name), 'colour space')
    vs = n.get('value') or []
    h.check(len(vs) == len(c.values), 'colour values')
    for a, b in zip(vs, c.values):
        h.check(isinstance(a, Str), 'colour values')
        samecps(h, a.cs, colourtext(b), 'colour values')


def trees(h, nodes, items, kind):
    nodes = nodes or []
    items = list(items)
    h.check(len(nodes) == len(items), 'every item in order')
    for n, i in zip(nodes, items):
        tree(h, n, i, kind)


def treepages(h, doc, pages, kind):
    h.check(isinstance(doc, Obj), 'the document')
    ps = doc.get('pages') or []
    h.check(len(ps) == len(pages), 'every page in order')
    for n, p in zip(ps, pages):
        number(h, n.get('id'), p.page_num, 'number of a page')
        number(h, n.get('width'), p.width, 'size of a page')
        number(h, n.get('height'), p.height, 'size of a page')
        trees(h, n.get('children'), p.items, kind)


# ---------------------------------------------------------------- whole documents
def readback(h, kind, data):
    """[(page number, [texts of blocks as code points])] of an output"""
    out = []
    if kind in ('json', 'yaml'):
        for p in read(h, kind, data).get('pages') or []:
            blocks = []

            def collect(nodes):
                for n in nodes or []:
                    t = n.get('type').cs
                    if t == cps('text-block'):
                        for b in n.get('char_blocks') or []:
                            blocks.append(b.get('text').cs)
                    elif t == cps('xobject'):
                        collect(n.get('children'))
            collect(p.get('children'))
            out.append((int(p.get('id').text), blocks))
        return out
    if kind == 'text':
        return None
    root = read(h, kind, data)
    pages = root.elems('page') if kind == 'xml' else [e for e in root.elems('body')[0].elems('div')]
    for p in pages:
        blocks = []

        def walk(e):
            cls = e.name if kind == 'xml' else ''.join(chr(c) for c in e.attr('class')) if e.name in ('div', 'span') else ''
            if cls == 'char-block':
                blocks.append([c for g in e.kids for c in g.text])
            else:
                for k in e.kids:
                    walk(k)
        walk(p)
        n = ''.join(chr(c) for c in p.attr('id'))
        out.append((int(n.split('-')[-1]), blocks))
    return out


def whole(h, kind, n, via):
    """a document on disk, with a font name, a text on the page and one in a form"""
    from harness.docs import File
    from pdfmajor.converters import convert_file
    alphabet = bytes(x for x in range(32, 127) if x not in b'()\\')
    a, b = h.bytes('a', n, alphabet), h.bytes('b', n, alphabet)
    f = File()
    ents = {}
    def put(num, pos):
        ents[num] = (1, pos, 0)
    put(1, f.obj(1, b'<</Type/Catalog/Pages 2 0 R>>'))
    put(2, f.obj(2, b'<</Type/Pages/MediaBox[0 0 90 90]/Kids[3 0 R 4 0 R]/Resources<</Font<</F1 5 0 R>>/XObject<</X 6 0 R>>>>>>'))
    put(3, f.obj(3, b'<</Type/Page/Contents 7 0 R>>'))
    put(4, f.obj(4, b'<</Type/Page/Contents 8 0 R>>'))
    put(5, f.obj(5, b'<</Type/Font/Subtype/TrueType/BaseFont/Foo/FirstChar 0/Widths[500]/Encoding/WinAnsiEncoding/FontDescriptor 9 0 R>>'))
    put(6, f.stream(6, b'BT /F1 10 Tf (' + b + b') Tj ET', b'/Type/XObject/Subtype/Form/BBox[0 0 1 1]'))
    put(7, f.stream(7, b'BT /F1 10 Tf (' + a + b') Tj (x) Tj ET'))
    put(8, f.stream(8, b'/X Do BT /F1 10 Tf (y) Tj ET'))
    put(9, f.obj(9, b'<</Type/FontDescriptor/FontName/Foo/Ascent 700/Descent -200/Note(a"<b>&\\\\\'c)>>'))
    f.end(f.xrefstream(50, ents, b'/Root 1 0 R/Size 99'))
    path = h.vfile('doc.pdf', f.data)
    out = h.outpath('doc.' + kind)
    if via == 'file':
        convert_file(path, out, out_type=kind)
    else:
        CONVERTERS[kind][1](path, out)
    data = h.readfile(out)
    want = [(0, [cps(chr(x) for x in a), [120]]), (1, [cps(chr(x) for x in b), [121]])]
    if kind == 'text':
        cs = decode(h, data)
        exp = []
        for i, (num, blocks) in enumerate(want):
            exp += cps('========== [ page %d ] ==========\n' % num)
            for t in blocks:
                exp += t
            exp += [10]
        samecps(h, cs, exp, 'text of the output')
    else:
        got = readback(h, kind, data)
        h.check([p for p, _ in got] == [0, 1], 'every page in order')
        for (_, blocks), (_, texts) in zip(got, want):
            h.check(len(blocks) == len(texts), 'every text in order')
            for x, y in zip(blocks, texts):
                samecps(h, x, y, 'text of the output')
    h.reach('whole')
