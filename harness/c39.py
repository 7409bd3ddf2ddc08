from io import BytesIO
from symex.hapi import Case
from harness.content import *
from pdfmajor.execptions import PDFMajorException, PSEOF
from pdfmajor.parser.PSStackParser import PSStackParser
from pdfmajor.parser.PSStackParser.PSBaseParser import PSBaseParser
from pdfmajor.parser.PDFParser import PDFParser, PDFStreamParser
from pdfmajor.parser.cmapdb import CMapParser, FileUnicodeMap, FileCMap
from pdfmajor.parser.PDFDocument.PDFXRef import PDFXRef, PDFXRefFallback, PDFXRefStream
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont.Type1FontHeaderParser import Type1FontHeaderParser

ASSUMPTIONS = ['byte strings of up to four bytes, longer ones made of given tokens with a symbolic byte', 'numbers of iterations bounded in proportion to the input (character ranges: 65536 codes each)',
               'the predefined character maps on disk are not read (their names are outside the alphabets)', 'default (not strict) settings']


class Doc:
    decipher = None

    def getobj(self, objid):
        from pdfmajor.execptions import PDFObjectNotFound
        raise PDFObjectNotFound(objid)


def drain(f):
    try:
        while True:
            f()
    except PSEOF:
        pass


def pdfparser(data):
    p = PDFParser(BytesIO(data))
    p.set_document(Doc())
    return p


def tokens(data):
    drain(PSBaseParser(BytesIO(data)).nexttoken)


def reverse(data):
    for line in PSBaseParser(BytesIO(data)).revreadlines():
        pass


def objects(data):
    drain(pdfparser(data).nextobject)


def objstream(data):
    drain(PDFStreamParser(data).nextobject)


def content(data):
    drain(PDFContentParser([stream(data)]).nextobject)


SHOW = {}


def resources():
    return {'Font': {'F': font()}, 'XObject': {'X': stream(b'1 w', {'Subtype': LIT('Form')}), 'I': stream(b'', {'Subtype': LIT('Image')}), 'N': 5},
            'ColorSpace': {'C': [LIT('Separation'), LIT('x'), LIT('DeviceGray'), {}]}}


def operators(data):
    st = new_state(resources())
    for i in run(st, data):
        pass


def intext(data):
    st = new_state(resources())
    for i in run(st, b'BT /F 1 Tf ' + data + b' (A) Tj ET 0 0 m 1 1 l S'):
        pass


def tounicode(data):
    CMapParser(FileUnicodeMap(), BytesIO(data)).run()


def tocid(data):
    CMapParser(FileCMap(), BytesIO(data)).run()


def type1(data):
    Type1FontHeaderParser(BytesIO(data)).get_encoding()


def xref(data):
    x = PDFXRef()
    x.load(pdfparser(data))
    for i in x.get_objids():
        x.get_pos(i)


def fallback(data):
    x = PDFXRefFallback()
    p = pdfparser(data)
    p.fallback = True
    x.load(p)
    for i in x.get_objids():
        x.get_pos(i)


def xrefstream(data):
    x = PDFXRefStream()
    x.load(pdfparser(data))
    for i in x.get_objids():
        try:
            x.get_pos(i)
        except KeyError:
            pass


def filtered(src):
    """the decoded data of a stream object"""
    s = None
    p = pdfparser(src)
    try:
        while True:
            _, s = p.nextobject()
            if isinstance(s, PDFStream):
                s.get_data()
    except PSEOF:
        pass


def ascii85(data):
    stream(data, {'Filter': LIT('ASCII85Decode')}).get_data()


def asciihex(data):
    stream(data, {'Filter': LIT('ASCIIHexDecode')}).get_data()


def runlength(data):
    stream(data, {'Filter': LIT('RunLengthDecode')}).get_data()


def lzw(data):
    stream(data, {'Filter': LIT('LZWDecode')}).get_data()


def ccitt(data):
    stream(data, {'Filter': LIT('CCITTFaxDecode'), 'DecodeParms': {'K': -1, 'Columns': 8}}).get_data()


def predictor(data):
    stream(data, {'Filter': LIT('RunLengthDecode'), 'DecodeParms': {'Predictor': 12, 'Columns': 3}}).get_data()


TARGETS = {f.__name__: f for f in (tokens, reverse, objects, objstream, content, operators, intext, tounicode, tocid, type1, xref, fallback, xrefstream,
                                filtered, ascii85, asciihex, runlength, lzw, ccitt, predictor)}


def attempt(h, kind, data):
    try:
        TARGETS[kind](data)
    except PDFMajorException:
        h.reach('error')
    except RecursionError:
        h.fail('runs into the recursion limit')
    except Exception as e:
        h.fail('an error that is not of the library: ' + e.__class__.__name__)
    h.check(True, 'ends in a result or an error of the library')
    h.reach('end')


def raw(h, kind, n, pre=b'', post=b'', alphabet=None):
    """any bytes, between given ones"""
    attempt(h, kind, pre + h.bytes('b', n, alphabet) + post)


# operands of every type
OPERANDS = (b'7', b'-1.5', b'/N', b'(s)', b'<41>', b'[1(a)]', b'[]', b'<<>>', b'<</K[1]>>', b'true', b'null', b'{1}', b'foo', b'/#ff', b'99999999999', b'[[]]', b'[null/A<<>>]', b'()')
HEXES = (b'<00>', b'<41>', b'<FFFF>', b'<0000>', b'<00000000>', b'<FFFFFFFF>', b'<>', b'<D83D>', b'<000102030405060708090A>')


def sequence(h, kind, words, n, before=b'', after=b'', pool=OPERANDS):
    """up to n operands of any type, then a word"""
    k = h.choice('n', tuple(range(n + 1)))
    src = before
    for i in range(k):
        src += h.choice('o%d' % i, pool) + b' '
    attempt(h, kind, src + h.choice('w', words) + b' ' + after)


def ops(tier):
    out = {}
    import pdfmajor.interpreter.commands as m
    for name, f in m.PDFCommands.commands.items():
        n = f.__code__.co_argcount - 1
        w = name.replace('_a', '*').replace('_w', '"').replace('_q', "'").encode()
        out.setdefault(n, []).append(w)
    return out


def arity(h, n, words, before=b'', after=b''):
    """operators with an operand of a wrong type or too few"""
    w = h.choice('w', words)
    at = h.choice('at', tuple(range(max(n, 1))) + ('few', 'none'))
    src = b''
    for i in range(n):
        if at == 'none' or at == 'few' and i == 0:
            continue
        src += (h.choice('o', OPERANDS) if at == i else b'1') + b' '
    if n == 0 and at == 0:
        src = h.choice('o', OPERANDS) + b' '
    attempt(h, 'operators', before + src + w + b' ' + after)


def dictionary(h, kind, src, defaults, pool=OPERANDS):
    """one entry of any type, the others as they should be, or one missing"""
    k = h.choice('key', tuple(range(len(defaults))))
    v = h.choice('v', pool + (None,))
    for i, (name, d) in enumerate(defaults):
        if i == k:
            d = v
        src = src.replace(b'%' + name, b'' if d is None else b'/' + name + b' ' + d)
    attempt(h, kind, src)


def cases(tier):
    q = tier == 'quick'
    steps = 3000
    out = []

    def add(name, fn, params, bounds, **k):
        out.append(Case(name, fn, params, bounds, ['end'], steps=k.get('steps', steps)))
    for kind, n in (('tokens', 3), ('reverse', 3), ('objects', 3), ('objstream', 3), ('content', 3), ('operators', 2), ('tounicode', 3), ('tocid', 2), ('type1', 3), ('xref', 3), ('fallback', 2), ('xrefstream', 2)):
        n = n if q else n + 1
        add('raw-%s-%d' % (kind, n), raw, {'kind': kind, 'n': n}, 'every %d bytes' % n)
    for kind, n in (('ascii85', 2), ('asciihex', 2), ('runlength', 3), ('lzw', 3), ('ccitt', 1)):
        n = n if q else n + 1
        add('raw-%s-%d' % (kind, n), raw, {'kind': kind, 'n': n}, 'every %d bytes' % n)
    F = b'1 0 obj<<%Filter%DecodeParms%Length>>stream\nabcdef\nendstream endobj'
    P = OPERANDS + (b'[7]', b'<</K -1>>', b'<</K -1/Columns(a)>>', b'<</K -1/Columns -8>>', b'<</K -1/Columns 999999999999>>', b'<</Predictor(a)>>', b'<</Predictor 2>>', b'<</Predictor 12/Colors 0>>',
                    b'<</Predictor 12/Columns -2>>', b'<</Predictor 12/Columns 999999999999>>', b'<</Predictor 15/Columns 2/BitsPerComponent .5>>', b'[null]', b'[<<>><<>>]')
    for f in (b'/ASCIIHexDecode', b'/RL', b'[/A85]', b'/CCF', b'[[/AHx]/RunLengthDecode]', b'/LZW', b'/DCT', b'/Fl', b'/Crypt'):
        add('parms-' + f.decode().strip('/').replace('/', '').replace('[', '').replace(']', ''), dictionary, {'kind': 'filtered', 'src': F, 'defaults': ((b'Filter', f), (b'DecodeParms', None), (b'Length', b'6')), 'pool': P},
            'one entry of any type', steps=60000)
    for kind, pre, post, n, alphabet in (
            ('lzw', b'\x80', b'\x40', 2, None), ('ccitt', b'\x26\xa0', b'\x00\x10\x01', 1, None), ('ascii85', b's8W', b'~>', 3, b'!"-stuvz~ '), ('ascii85', b's8W', b'!!z~>', 2, None), ('predictor', b'\x05', b'abcde\x80', 2, None),
            ('content', b'BI/W 1 ID ', b'EI ', 3, None), ('operators', b'BI/W 1/H 1 ID', b'EI Q', 2, None), ('content', b'BI/W', b' ID xEI ', 2, None),
            ('objects', b'<<', b'>>endobj ', 2, None), ('objects', b'[(', b']endobj ', 2, None), ('objects', b'<</Length 1>>stream', b'endstream endobj', 2, None),
            ('objects', b'1 0', b'R 1 0 obj endobj', 2, None), ('objects', b'<', b'>endobj', 2, None), ('objects', b'/', b'', 3, b'#0f/ '), ('tokens', b'1', b'.5-3', 2, None),
            ('objects', b'1', b'<<>>stream\r', 2, b'[]{}<>( '),
            ('tounicode', b'<41><42>[', b']endbfrange', 3, None), ('tounicode', b'<', b'><42>endbfchar', 3, b'0aFg> <'), ('tounicode', b'<41>', b'endbfchar', 4, b'0aFg> </#['),
            ('type1', b'dup 65 /', b' put', 3, None), ('type1', b'dup ', b'/A put', 2, None),
            ('xref', b'0 1\n', b'\ntrailer<</Size 1>>', 3, b'0 n+\n\r'), ('xref', b'0 1\n0000000000 0', b'\ntrailer<</Size 1>>', 3, None), ('xref', b'trailer', b'startxref', 3, None),
            ('xref', b'trailer<<', b'>>startxref', 2, None), ('xref', b'', b' 1\n0 0 n\ntrailer<<>>', 2, None),
            ('fallback', b'1 0 obj', b' endobj\ntrailer<<>>', 3, b'<>[]( \n'), ('fallback', b'trailer', b'\n2 0 obj', 2, None), ('fallback', b'9', b'9 obj 1 endobj', 2, None),
            ('xrefstream', b'1 0 obj<</Type/XRef/Size 1/W[1 1 1]/Length 3>>stream\n', b'\nendstream', 3, None)):
        n = n if q else n + 1
        add('in-%s-%s' % (kind, ''.join(c if c.isalnum() else '.' for c in (pre + b'..' + post).decode('latin-1'))), raw, {'kind': kind, 'n': n, 'pre': pre, 'post': post, 'alphabet': alphabet},
            'every %d bytes between %r and %r' % (n, pre, post))
    for n, words in sorted(ops(tier).items()):
        for i in range(0, len(words), 10):
            ws = tuple(words[i:i + 10])
            add('operands-%d-%d' % (n, i), arity, {'n': n, 'words': ws}, 'one operand of any type, or missing: ' + ' '.join(w.decode() for w in ws))
            if n:
                add('operands-text-%d-%d' % (n, i), arity, {'n': n, 'words': ws, 'before': b'BT /F 1 Tf ', 'after': b'(A) Tj ET 0 0 m 1 1 l S'}, 'the same followed by text and a path')
    add('resources', sequence, {'kind': 'operators', 'words': (b'Do', b'cs', b'CS', b'gs', b'sh'), 'n': 1, 'pool': OPERANDS + (b'/X', b'/I', b'/C', b'/Pattern', b'/F')}, 'resources by names and other operands')
    add('font', sequence, {'kind': 'operators', 'words': (b'Tf BT (A) Tj ET', b'Tf BT [(A) 5 /N] TJ ET', b'Tf BT /N Tj ET'), 'n': 2, 'pool': OPERANDS + (b'/F',)}, 'fonts by names and other operands')
    add('dict', sequence, {'kind': 'objects', 'words': (b'>> endobj',), 'n': 2, 'before': b'<<'}, 'up to two elements of any type')
    add('dict-content', sequence, {'kind': 'content', 'words': (b'>>', b'ID xEI '), 'n': 2, 'before': b'BI <<'}, 'up to two elements of any type')
    add('inline', sequence, {'kind': 'operators', 'words': (b'ID xEI ', b'ID x', b'ID'), 'n': 2, 'before': b'BI '}, 'up to two elements of any type')
    add('inline-4', sequence, {'kind': 'operators', 'words': (b'ID xEI ',), 'n': 2, 'before': b'BI /W 1 /H ', 'pool': OPERANDS + (b'/BPC', b'/CS')}, 'up to two elements of any type')
    add('trailer', sequence, {'kind': 'xref', 'words': (b'startxref', b''), 'n': 2, 'before': b'trailer '}, 'up to two elements of any type')
    add('reference', sequence, {'kind': 'objects', 'words': (b'R endobj', b'stream\nabc\nendstream endobj', b'endobj', b'xref', b'] >> } endobj', b'obj endobj'), 'n': 2}, 'up to two elements of any type')
    add('cmap', sequence, {'kind': 'tounicode', 'words': (b'def', b'usecmap', b'begincmap', b'endcodespacerange', b'endcidrange', b'endcidchar', b'endnotdefrange'), 'n': 2}, 'up to two elements of any type')
    add('cmap-cid', sequence, {'kind': 'tocid', 'words': (b'def', b'usecmap', b'endcidrange', b'endcidchar', b'endbfchar'), 'n': 2, 'pool': OPERANDS + (b'/Identity-H',)}, 'up to two elements of any type')
    add('bfchar', sequence, {'kind': 'tounicode', 'words': (b'endbfchar',), 'n': 2, 'pool': OPERANDS + HEXES}, 'up to two elements of any type')
    add('bfrange', sequence, {'kind': 'tounicode', 'words': (b'endbfrange',), 'n': 1, 'before': b'<41><43>', 'pool': OPERANDS + HEXES + (b'[1 2 3]', b'[1114112]', b'[-1]', b'[/A/B(ab)<41>]', b'[.5[]]')}, 'a target of any type')
    add('bfrange-ends', sequence, {'kind': 'tounicode', 'words': (b'<41>endbfrange', b'[<41>]endbfrange', b'<D8FFFFFF>endbfrange'), 'n': 2, 'pool': OPERANDS + HEXES}, 'ends of any type', steps=140000)
    add('bfrange-cid', sequence, {'kind': 'tocid', 'words': (b'<41>endbfrange', b'0 endcidrange'), 'n': 2, 'pool': OPERANDS + HEXES[:4]}, 'ends of any type', steps=140000)
    add('put', sequence, {'kind': 'type1', 'words': (b'put', b'def', b'readonly def', b'for', b'array'), 'n': 2}, 'up to two elements of any type')
    for kind in ('fallback', 'objects'):
        add('objstm-' + kind, dictionary, {'kind': kind, 'src': b'1 0 obj<</Type/ObjStm %N%First%Length%Filter>>stream\n2 0 3 1 endstream endobj', 'defaults': ((b'N', b'1'), (b'First', b'0'), (b'Length', b'6'), (b'Filter', None))}, 'one entry of any type')
    add('objstm-data', sequence, {'kind': 'fallback', 'words': (b'endstream endobj',), 'n': 2, 'before': b'1 0 obj<</Type/ObjStm/N 1>>stream\n'}, 'numbers of any type')
    add('xrefstream', dictionary, {'kind': 'xrefstream', 'src': b'1 0 obj<</Type/XRef %Size%W%Index%Length%Filter>>stream\nabcdef\nendstream',
                                   'defaults': ((b'Size', b'1'), (b'W', b'[1 1 1]'), (b'Index', None), (b'Length', b'6'), (b'Filter', None)),
                                   'pool': OPERANDS + (b'[0 0 0]', b'[1 1 -1]', b'[1 1 1 1]', b'[0 99999999]', b'[99999999 1 0]', b'[.5 .5 .5]', b'[0 0]')}, 'one entry of any type')
    add('xrefstream-w', dictionary, {'kind': 'xrefstream', 'src': b'1 0 obj<</Type/XRef %Size/W[0 0 0]%Index/Length 6>>stream\nabcdef\nendstream',
                                     'defaults': ((b'Size', b'1'), (b'Index', None)), 'pool': OPERANDS + (b'[0 99999999]', b'[99999999 1]')}, 'one entry of any type')
    return out
