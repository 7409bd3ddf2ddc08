from symex.hapi import Case
from harness.lib import *
from pdfmajor.parser.PDFParser import PDFParser, PDFStreamParser
from pdfmajor.parser.PSStackParser import PSStackParser
from pdfmajor.parser.PDFContentParser import PDFContentParser

ASSUMPTIONS = ['object numbers and generation numbers written with one digit; other scalars one symbolic byte or digit each']


class Doc:
    """what a parser needs of a document to make references"""
    decipher = None


def tree(h, tag, depth, kinds, width, wide=False):
    """(bytes written, value expected) of an arbitrary object"""
    k = h.choice(tag, kinds)
    sep = b' '
    if k == 'int':
        d = h.int(tag + 'v', 0, 99)
        return bytes([0x30 + d // 10, 0x30 + d % 10]), ('int', d)
    if k == 'name':
        c = h.int(tag + 'v', 0x61, 0x7a)
        return b'/' + bytes([c]), ('name', bytes([c]))
    if k == 'str':
        c = h.int(tag + 'v', 0, 255)
        h.assume(h.and_(c != 0x28, c != 0x29, c != 0x5c))
        return b'(' + bytes([c]) + b')', ('str', bytes([c]))
    if k == 'hex':
        c = h.int(tag + 'v', 0, 9)
        return b'<4' + bytes([0x30 + c]) + b'>', ('str', bytes([0x40 + c]))
    if k == 'bool':
        b = h.choice(tag + 'v', (True, False))
        return (b'true' if b else b'false'), ('bool', b)
    if k == 'null':
        return b'null', ('null',)
    if k == 'ref':
        n = h.int(tag + 'n', 1, 9)
        g = h.int(tag + 'g', 0, 9)
        return bytes([0x30 + n, 32, 0x30 + g, 32, 0x52]), ('ref', n, 0)
    inner = [x for x in kinds if depth > 1 or x not in ('array', 'dict', 'proc')]
    n = h.choice(tag + 'n', range(width + 1))
    parts = []
    vals = []
    if k == 'array' or k == 'proc':
        for i in range(n):
            b, v = tree(h, tag + str(i), depth - 1, inner, width if wide else 1)
            parts.append(b)
            vals.append(v)
        body = sep.join(parts)
        return (b'[' + body + b']' if k == 'array' else b'{ ' + body + b'}'), ['list'] + vals
    ents = []
    for i in range(n):
        c = h.int(tag + 'k%d' % i, 0x61, 0x63)
        b, v = tree(h, tag + str(i), depth - 1, inner, width if wide else 1)
        parts.append(b'/' + bytes([c]) + b' ' + b)
        if v != ('null',):
            ents = [(kk, vv) for kk, vv in ents if kk != bytes([c])] if False else ents
            for j in range(len(ents)):
                if ents[j][0] == bytes([c]):
                    ents[j] = (ents[j][0], v)
                    break
            else:
                ents.append((bytes([c]), v))
    return b'<<' + b''.join(parts) + b'>>', ['dict', ents]


SCALARS = ('int', 'name', 'str', 'hex', 'bool', 'null', 'ref')


def write(h, mode, depth, kinds, width):
    b, want = tree(h, 't', depth, kinds, width)
    if mode == 'objstm' and want[0] == 'ref':
        return     # not allowed there (ISO 32000 7.5.7)
    if mode == 'file':
        p = PDFParser(BytesIO(b'7 0 obj' + h.choice('s', (b' ', b'\n')) + b + b'\nendobj\n'))
        p.set_document(Doc())
        got = []
        while True:
            try:
                got.append(plain(p.nextobject()[1]))
            except PSEOF:
                break
        h.observe('got', got)
        h.equal(got, [('int', 7), ('int', 0), ('kwd', b'obj'), want], 'object read back')
    elif mode == 'objstm':
        p = PDFStreamParser(b + h.choice('s', (b'', b' ', b' 12')))
        p.set_document(Doc())
        got = [plain(o) for o in p]
        h.observe('got', got)
        h.check(len(got) >= 1, 'an object')
        h.equal(got[0], want, 'object read back')
    else:
        p = PDFContentParser([PDFStream({}, b + b' Do')])
        got = []
        while True:
            try:
                got.append(plain(p.nextobject()[1]))
            except PSEOF:
                break
        h.observe('got', got)
        h.equal(got, [want, ('kwd', b'Do')], 'object read back')
    h.reach('end')


def refclose(toks):
    """containers over a token list, closers that do not close the innermost
    open container are ignored"""
    stack = []
    cur = ['top']
    for t in toks:
        if t in '[{<':
            stack.append((cur, t))
            cur = []
        elif t in ']}>':
            if stack and stack[-1][1] == {']': '[', '}': '{', '>': '<'}[t]:
                prev, _ = stack.pop()
                if t == '>':
                    if len(cur) % 2:
                        return None
                    d = []
                    for k, v in zip(cur[0::2], cur[1::2]):
                        if k[0] != 'name':
                            return None
                        for j in range(len(d)):
                            if d[j][0] == k[1]:
                                d[j] = (k[1], v)
                                break
                        else:
                            d.append((k[1], v))
                    prev.append(['dict', d])
                else:
                    prev.append(['list'] + cur)
                cur = prev
        else:
            cur.append(('name', t.encode()) if t in 'ab' else ('int', int(t)))
    if stack:
        return None
    return cur[1:]


def strays(h, n, alphabet):
    toks = [h.choice('t%d' % i, alphabet) for i in range(n)]
    data = b' '.join({'<': b'<<', '>': b'>>', 'a': b'/a', 'b': b'/b'}.get(t, t.encode()) for t in toks)
    want = refclose(toks)
    if want is None:
        return
    p = PDFStreamParser(data)
    p.set_document(Doc())
    got = [plain(o) for o in p]
    h.observe('got', got)
    h.equal(got, want, 'objects')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in ('file', 'objstm', 'content'):
        sc = SCALARS if m != 'content' else tuple(k for k in SCALARS if k not in ('ref', 'null'))
        out.append(Case(m + '-flat', write, {'mode': m, 'depth': 1, 'kinds': sc + ('array', 'dict') + (('proc',) if m != 'content' else ()),
                                             'width': 2},
                        'every scalar, and every array, dictionary and procedure of up to 2 scalars, in a %s' % m, ['end']))
        few = ('name', 'array', 'dict') + (('null',) if m != 'content' else ('int',))
        out.append(Case(m + '-nest', write, {'mode': m, 'depth': 2, 'kinds': few if q else few + (('ref',) if m != 'content' else ('bool',)), 'width': 2 if not q else 2},
                        'nesting to depth 2 (arrays and dictionaries of up to 2 members) in a %s' % m, ['end']))
        out.append(Case(m + '-deep', write, {'mode': m, 'depth': 4 if q else 6, 'kinds': ('name', 'array', 'dict', 'proc') if m != 'content' else ('name', 'array', 'dict'), 'width': 1},
                        'nesting to depth %d, one member each' % (4 if q else 6), ['end']))
    out.append(Case('dict3', write, {'mode': 'file', 'depth': 1, 'kinds': ('int', 'null', 'dict'), 'width': 3},
                    'dictionaries of up to 3 entries, repeated keys and nulls', ['end']))
    out.append(Case('strays', strays, {'n': 5 if q else 6, 'alphabet': '[]<>1a' if q else '[]<>{}1a'},
                    'every sequence of %d tokens of brackets and scalars' % (5 if q else 6), ['end']))
    return out
