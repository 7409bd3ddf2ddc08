from symex.hapi import Case
from harness.lib import *
from pdfmajor.parser.cmapdb import CMapParser, FileUnicodeMap

ASSUMPTIONS = ['texts are well-formed UTF-16 (one or two characters, with and without surrogate pairs); successors of a range stay in the last 16-bit unit and out of the surrogates',
               'at most three entries per map; ranges of up to four codes']
HEAD = (b'', b'/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n'
        b'/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n1 begincodespacerange\n<0000> <FFFF>\nendcodespacerange\n')
TAIL = (b'', b'endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n')


def digit(h, n, upper):
    return h.ite(n < 10, n + 0x30, n + (0x37 if upper else 0x57))


def hexs(h, data, upper=False, space=False):
    out = b'<'
    for b in data:
        if isinstance(b, int) and not h.symbolic:
            b = int(b)
        out += bytes([digit(h, b >> 4, upper), digit(h, b & 15, upper)])
        if space:
            out += b' '
    return out + b'>'


def be(v, n):
    return bytes([(v >> (8 * (n - 1 - i))) & 255 for i in range(n)])


def unit(h, name, room=0):
    """a character outside the surrogates, in the BMP"""
    c = h.int(name, 0, 0xffff - room)
    h.assume(h.or_(c + room < 0xd800, c > 0xdfff))
    return c, be(c, 2)


def text(h, name, kind, room=0):
    """(text, its UTF-16BE bytes, function giving the text of successor i)"""
    if kind == 'bmp':
        c, b = unit(h, name, room)
        return b, lambda i: chr(c + i)
    if kind == 'two':
        c, b = unit(h, name)
        d, e = unit(h, name + 'b', room)
        return b + e, lambda i: chr(c) + chr(d + i)
    if kind == 'three':
        c, b = unit(h, name)
        d, e = unit(h, name + 'b', room)
        return be(0x66, 2) + b + e, lambda i: 'f' + chr(c) + chr(d + i)
    if kind == 'astral':
        c = h.int(name, 0, 0xfffff - room)
        hi, lo = 0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff)
        h.assume((c & 0x3ff) + room < 0x400)
        return be(hi, 2) + be(lo, 2), lambda i: chr(0x10000 + c + i)
    return b'', lambda i: ''


NAMES = ((b'/A', 'A'), (b'/eacute', '\xe9'), (b'/uni20AC', '\u20ac'), (b'/nosuchglyph', None))


def cmap(h, n, entries, form):
    """entries: (kind, text kind, count)"""
    upper = bool(form & 1)
    space = bool(form & 2)
    data = HEAD[form >> 2 & 1]
    want = []
    last = None
    for k, (kind, tk, cnt) in enumerate(entries):
        sec = 'char' if kind in ('char', 'name') else 'range'
        if sec != last:
            if last:
                data += b'endbf' + last.encode() + b'\n'
            data += b'1 beginbf' + sec.encode() + b'\n'
            last = sec
        top = 256 ** n
        code = h.int('code%d' % k, 0, top - 1)
        src = hexs(h, be(code, n), upper, space)
        if kind == 'char':
            b, f = text(h, 't%d' % k, tk)
            data += src + b' ' + hexs(h, b, upper, space) + b'\n'
            want.append((code, f(0)))
        elif kind == 'name':
            b, t = h.choice('n%d' % k, NAMES)
            data += src + b' ' + b + b'\n'
            if t is not None:
                want.append((code, t))
        else:
            h.assume(code + (cnt - 1) < top)
            ext = h.int('ext%d' % k, -1, cnt - 1)
            h.assume(code + ext >= 0)
            end = hexs(h, be(code + ext, n), upper, space)
            if kind == 'range':
                b, f = text(h, 't%d' % k, tk, cnt - 1)
                data += src + b' ' + end + b' ' + hexs(h, b, upper, space) + b'\n'
                if tk == 'empty':
                    # successors of nothing are not defined
                    h.assume(ext == 0)
                for i in range(cnt):
                    if h.branch(ext >= i):
                        want.append((code + i, f(i)))
            else:
                data += src + end + b'['
                have = h.choice('have%d' % k, (cnt, cnt - 1, 0))
                for i in range(have):
                    b, f = text(h, 't%d_%d' % (k, i), tk)
                    data += hexs(h, b, upper, space)
                    if h.branch(ext >= i):
                        want.append((code + i, f(0)))
                data += b']\n'
    if last:
        data += b'endbf' + last.encode() + b'\n'
    data += TAIL[form >> 2 & 1]
    m = FileUnicodeMap()
    CMapParser(m, BytesIO(data)).run()
    q = h.int('query', 0, 256 ** n - 1)
    for code, t in reversed(want):
        if h.branch(q == code):
            h.equal(m.get_unichr(q), t, 'text of a listed code')
            h.reach('listed')
            return
    try:
        t = m.get_unichr(q)
    except KeyError:
        h.reach('unlisted')
    else:
        h.fail('a code that is not listed has a text')


def after(h):
    """entries after the end of the map do not count; other sections do not define texts"""
    a = h.bytes('a', 1)
    junk = h.choice('junk', (b'1 begincidrange <00> <ff> 0 endcidrange\n', b'1 begincidchar <00> 5 endcidchar\n', b'1 beginnotdefrange <00> <ff> 1 endnotdefrange\n',
                             b'1 begincodespacerange <00> <ff> endcodespacerange\n', b'/X (y) def\n', b'% comment <00> <0041>\n', b'endcmap 1 beginbfchar <00> <0041> endbfchar\n'))
    data = b'begincmap ' + junk
    ended = b'endcmap' in junk
    if not ended:
        data += b'1 beginbfchar ' + hexs(h, a) + b' <0042> endbfchar '
    data += b'endcmap'
    m = FileUnicodeMap()
    CMapParser(m, BytesIO(data)).run()
    q = h.int('query', 0, 255)
    try:
        t = m.get_unichr(q)
    except KeyError:
        h.check(h.or_(ended, q != a[0]), 'listed code')
        h.reach('none')
        return
    h.check(h.and_(not ended, q == a[0]), 'unlisted code')
    h.equal(t, 'B', 'text')
    h.reach('some')


def cases(tier):
    q = tier == 'quick'
    out = [Case('sections', after, {}, 'other sections', ['none', 'some'])]
    lists = [[('char', k, 1)] for k in ('bmp', 'two', 'three', 'astral', 'empty')]
    lists += [[('range', k, 3)] for k in ('bmp', 'two', 'three', 'astral', 'empty')]
    lists += [[('array', 'bmp', 2)], [('array', 'two', 2)], [('name', None, 1)]]
    lists += [[('char', 'bmp', 1), ('char', 'bmp', 1)], [('range', 'bmp', 2), ('char', 'bmp', 1)], [('char', 'bmp', 1), ('range', 'bmp', 2)],
              [('range', 'bmp', 2), ('array', 'bmp', 2)], [('char', 'bmp', 1), ('name', None, 1)]]
    if not q:
        lists += [[('range', 'bmp', 3), ('range', 'two', 3)], [('char', 'astral', 1), ('range', 'bmp', 3), ('char', 'two', 1)], [('range', 'bmp', 4)],
                  [('array', 'bmp', 3)], [('array', 'astral', 3), ('char', 'bmp', 1)]]
    for i, l in enumerate(lists):
        for n in ((1,) if len(l) > 1 and l[1][0] == 'array' else (1, 2)) if q and i > 1 else (1, 2, 3, 4):
            for form in (((i + n) % 8,) if q else range(8)):
                names = '+'.join('%s.%s%d' % (a, b, c) for a, b, c in l)
                out.append(Case('map-%d-%s-%d' % (n, names, form), cmap, {'n': n, 'entries': [list(e) for e in l], 'form': form},
                                'every %d-byte code and text' % n, ['listed', 'unlisted']))
    return out
