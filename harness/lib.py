"""Shared pieces of the harnesses."""
from io import BytesIO
from pdfmajor.execptions import PSEOF
from pdfmajor.parser.PSStackParser.types import PSLiteral, PSKeyword
from pdfmajor.parser.PSStackParser.PSBaseParser import PSBaseParser
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.parser.PDFStream import PDFStream


class Chunked:
    """binary file whose reads stop at the given cut offsets"""

    def __init__(self, data, cuts):
        self.data = data
        self.cuts = sorted(cuts)
        self.pos = 0

    def seek(self, pos, whence=0):
        if whence == 2:
            pos += len(self.data)
        elif whence == 1:
            pos += self.pos
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        end = len(self.data)
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        for c in self.cuts:
            if self.pos < c < end:
                end = c
        s = self.data[self.pos:end]
        self.pos = max(self.pos, end)
        return s

    def close(self):
        pass


def plain(x):
    """tokens and parsed objects as plain comparable data"""
    if isinstance(x, PSLiteral):
        return ('name', nbytes(x.name))
    if isinstance(x, PSKeyword):
        return ('kwd', nbytes(x.name))
    if isinstance(x, bool):
        return ('bool', x)
    if isinstance(x, int):
        return ('int', x)
    if isinstance(x, float):
        return ('real', x)
    if isinstance(x, bytes):
        return ('str', x)
    if isinstance(x, str):
        return ('text', x)
    if isinstance(x, list):
        return ['list'] + [plain(i) for i in x]
    if isinstance(x, dict):
        return ['dict', [(nbytes(k), plain(v)) for k, v in x.items()]]
    if isinstance(x, PDFObjRef):
        return ('ref', x.objid, x.genno if hasattr(x, 'genno') else 0)
    if isinstance(x, PDFStream):
        return ['stream', plain(x.attrs), x.rawdata]
    if x is None:
        return ('null',)
    return ('other', repr(type(x)))


def nbytes(n):
    """names are str when they are valid UTF-8, bytes otherwise"""
    if isinstance(n, str):
        return n.encode('utf-8')
    return n


def drain(parser, limit=1000):
    """(offset, token) list up to the end of the data"""
    out = []
    while True:
        try:
            pos, tok = parser.nexttoken()
        except PSEOF:
            return out
        out.append((pos, plain(tok)))
        if len(out) > limit:
            raise AssertionError('too many tokens')


def tokens(data, cuts=()):
    return drain(PSBaseParser(Chunked(data, cuts) if cuts else BytesIO(data)))


def allcuts(h, n, name='cut', lo=1):
    """an arbitrary set of cut offsets in 1..n-1"""
    return [i for i in range(lo, n) if h.choice('%s%d' % (name, i), (False, True))]
