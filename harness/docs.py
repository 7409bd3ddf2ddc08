"""Writing small PDF files (offsets concrete, contents possibly symbolic)."""
from io import BytesIO
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument import PDFDocument


def text(x):
    return x if isinstance(x, bytes) or not isinstance(x, str) else x.encode('latin-1')


class File:
    def __init__(self, head=b'%PDF-1.5\n'):
        self.data = head

    def __len__(self):
        return len(self.data)

    def raw(self, b):
        pos = len(self.data)
        self.data += b
        return pos

    def obj(self, num, body, gen=0):
        """an indirect object; returns its offset"""
        return self.raw(b'%d %d obj\n' % (num, gen) + body + b'\nendobj\n')

    def stream(self, num, data, extra=b'', gen=0):
        return self.obj(num, b'<<' + extra + b'/Length %d>>\nstream\n' % len(data) + data + b'\nendstream', gen)

    def objstm(self, num, members, extra=b''):
        """members: (number, body)"""
        head = b''
        body = b''
        for n, b in members:
            head += b'%d %d ' % (n, len(body))
            body += b + b' '
        return self.stream(num, head + body, b'/Type/ObjStm/N %d/First %d' % (len(members), len(head)) + extra)

    def table(self, entries, trailer, prev=None, xrefstm=None):
        """entries {num: (offset, gen, b'n'/b'f')}"""
        pos = self.raw(b'xref\n')
        nums = sorted(entries)
        i = 0
        while i < len(nums):
            j = i
            while j + 1 < len(nums) and nums[j + 1] == nums[j] + 1:
                j += 1
            self.raw(b'%d %d\n' % (nums[i], j - i + 1))
            for k in nums[i:j + 1]:
                o, g, u = entries[k]
                self.raw(b'%010d %05d ' % (o, g) + u + b' \n')
            i = j + 1
        t = b'trailer\n<<' + trailer
        if prev is not None:
            t += b'/Prev %d' % prev
        if xrefstm is not None:
            t += b'/XRefStm %d' % xrefstm
        self.raw(t + b'>>\n')
        return pos

    def xrefstream(self, num, entries, trailer, prev=None):
        """entries {num: (type, a, b)}"""
        data = b''
        idx = b''
        for k in sorted(entries):
            t, a, b = entries[k]
            idx += b'%d 1 ' % k
            data += bytes([t, a >> 16, a >> 8 & 255, a & 255, b])
        x = b'/Type/XRef/W[1 3 1]/Index[' + idx + b']' + trailer
        if prev is not None:
            x += b'/Prev %d' % prev
        return self.stream(num, data, x)

    def end(self, pos):
        return self.raw(b'startxref\n%d\n%%%%EOF\n' % pos)


def open_doc(data, password='', caching=True, fallback=True):
    return PDFDocument(PDFParser(BytesIO(data)), password=password, caching=caching, fallback=fallback)
