from symex.hapi import Case
from harness.lib import *
from pdfmajor.parser.PDFParser import PDFParser

ASSUMPTIONS = ['in the wrong-length cases the payload does not itself contain endstream, and whether the end of line before endstream belongs to the data is left open']


class Doc:
    decipher = None

    def __init__(self):
        self.objs = {}

    def getobj(self, n):
        return self.objs[n]


def parse(h, data, doc, bufsiz=None, fallback=False):
    p = PDFParser(BytesIO(data))
    if bufsiz:
        p.BUFSIZ = bufsiz
    p.set_document(doc)
    p.fallback = fallback
    p.seek(0)
    head = [plain(p.nexttoken()[1]) for i in range(3)]
    h.equal(head, [('int', 5), ('int', 0), ('kwd', b'obj')], 'object header')
    obj = p.nextobject()[1]
    if not isinstance(obj, PDFStream):
        h.fail('stream object expected')
    rest = []
    while True:
        try:
            rest.append(plain(p.nextobject()[1]))
        except PSEOF:
            break
        if len(rest) > 20:
            h.fail('too many objects')
    return obj, [x for x in rest if x != ('kwd', b'endstream')]


REST = [('int', 6), ('int', 0), ('kwd', b'obj'), ('int', 7)]
TAIL = b'\nendobj\n6 0 obj\n7\nendobj\n'


def right(h, n, pre=b'', post=b'', alphabet=None, bufs=(None,)):
    payload = pre + h.bytes('payload', n, alphabet) + post
    doc = Doc()
    form = h.choice('length', ('direct', 'indirect'))
    size = len(payload)
    doc.objs[9] = size
    ln = (b'%d' % size) if form == 'direct' else b'9 0 R'
    eol = h.choice('eol', (b'\n', b'\r\n'))
    sep = h.choice('sep', (b'\n', b'\r\n', b'\r', b''))
    data = b'5 0 obj\n<</Length ' + ln + b'/K 1>>\nstream' + eol + payload + sep + b'endstream' + TAIL
    obj, rest = parse(h, data, doc, h.choice('bufsiz', bufs), form == 'direct' and h.choice('fallback', (False, True)))
    h.observe('raw', obj.rawdata)
    h.equal(obj.rawdata, payload, 'payload')
    h.equal(obj.attrs['K'], 1, 'dictionary')
    h.equal(rest, REST, 'objects after the stream')
    h.reach('end')


MORE = {b'(endstream)': [('str', b'endstream')], b'<</K 1/S(endstream)>>': [['dict', [(b'K', ('int', 1)), (b'S', ('str', b'endstream'))]]],
        b'[(a)(endstream endobj)]': [['list', ('str', b'a'), ('str', b'endstream endobj')]]}


def oneline(h, n, bufs=(None,)):
    """no end of line after endstream, and another endstream on the same line"""
    payload = h.bytes('payload', n)
    h.assume(h.and_(*[h.and_(*[c != w for w in b' \t\n\r\x0c\0\x0b']) for c in payload]))
    doc = Doc()
    ln = h.choice('length', (b'', b'/Length null', b'/Length -3', b'/Length %d' % n, b'/Length 0', b'/Length 90'))
    gap = h.choice('gap', (b' ', b'\t '))
    more = h.choice('more', tuple(MORE))
    sep = h.choice('sep', (b'', b' ') if n else (b'',))
    data = b'5 0 obj<<' + ln + b'/K 1>>stream\n' + payload + sep + b'endstream' + gap + b'endobj' + gap + b' 6 0 obj' + more + h.choice('eol', (b'', b'\n', b' ')) + b' endobj\n'
    obj, rest = parse(h, data, doc, h.choice('bufsiz', bufs), h.choice('fallback', (False, True)))
    raw = obj.rawdata
    h.check(h.or_(h.eq(raw, payload), h.eq(raw, payload + sep)), 'payload')
    h.equal(rest, REST[:3] + MORE[more], 'objects after the stream')
    h.reach('end')


def wrong(h, n, alphabet, bufs=(None,)):
    payload = h.bytes('payload', n, alphabet)
    doc = Doc()
    form = h.choice('length', ('missing', 'number', 'negative', 'name', 'null', 'ref', 'missingref'))
    if form == 'missing':
        ln = b''
    elif form == 'number':
        v = h.int('value', 0, 99)
        h.assume(v != n)
        ln = b'/Length ' + bytes([0x30 + v // 10, 0x30 + v % 10])
    elif form == 'negative':
        ln = b'/Length -' + bytes([0x30 + h.int('value', 1, 9)])
    elif form == 'name':
        ln = b'/Length /x'
    elif form == 'null':
        ln = b'/Length null'
    elif form == 'ref':
        v = h.int('value', 0, 99)
        h.assume(v != n)
        doc.objs[9] = v
        ln = b'/Length 9 0 R'
    else:
        doc.objs[9] = None
        ln = b'/Length 9 0 R'
    eol = h.choice('eol', (b'\n', b'\r\n'))
    sep = h.choice('sep', (b'\n', b'\r\n', b'\r', b''))
    h.assume(h.and_(*[payload[-1] != w for w in b' \t\n\r\x0c\0\x0b']) if n else True)
    data = b'5 0 obj\n<<' + ln + b'/K 1>>\nstream' + eol + payload + sep + b'endstream' + TAIL
    obj, rest = parse(h, data, doc, h.choice('bufsiz', bufs), h.choice('fallback', (False, True)))
    raw = obj.rawdata
    h.observe('raw', raw)
    h.check(h.or_(*[h.eq(raw, payload + sep[:k]) for k in range(len(sep) + 1)]), 'payload')
    h.equal(rest, REST, 'objects after the stream')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(0, 4 if q else 5):
        out.append(Case('right%d' % n, right, {'n': n}, 'every %d-byte payload, right length' % n, ['end']))
    out.append(Case('keyword', right, {'n': 2, 'pre': b'a endstream', 'post': b'endobj\nendstream\n'}, 'payload with endstream and endobj in it', ['end']))
    out.append(Case('keyword2', right, {'n': 2, 'pre': b'\nendstream\n', 'post': b'\n'}, 'payload that begins with endstream', ['end']))
    out.append(Case('buf', right, {'n': 3, 'alphabet': b'\r\ne', 'pre': b'endstream\n', 'bufs': (1, 3, 7, 16) if q else range(1, 24)}, 'read buffers of small sizes', ['end']))
    for n in (0, 1, 3) if q else (0, 1, 2, 3, 4):
        out.append(Case('wrong%d' % n, wrong, {'n': n, 'alphabet': None if n < 3 else b'a\n\re>0'}, '%d-byte payload, every wrong length 0-99, negative, missing, not a number' % n, ['end']))
    for n in (0, 1, 2) if q else (0, 1, 2, 3):
        out.append(Case('oneline%d' % n, oneline, {'n': n}, 'no end of line between the data, endstream and what follows, which has endstream in a string', ['end']))
    out.append(Case('wrongbuf', wrong, {'n': 2, 'alphabet': b'a\r\n', 'bufs': (1, 2, 5) if q else range(1, 20)}, 'wrong length, small read buffers', ['end']))
    return out
