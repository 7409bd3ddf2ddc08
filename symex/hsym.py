"""Harness interface during symbolic exploration."""
import zlib
import struct
import sys
import z3
from . import fz
from fractions import Fraction
from .core import C, PathAbort, Violation, Unsupported
from . import values as V
from .values import *
from .values import bexpr, _items
from . import intrinsics as I


def deq(a, b):
    """deep equality as a (symbolic) truth"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (list, tuple) and tb in (list, tuple):
        if (ta is list) != (tb is list) or len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            r = deq(x, y)
            if r is False:
                return False
            out.append(r)
        return V.and_(*out)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        da = a if isinstance(a, V.SDict) else V.SDict(a)
        out = []
        for k, v in b.items():
            if k not in da:
                return False
            out.append(deq(da[k], v))
        return V.and_(*out)
    # int/float/bool must not be confused where types are visible
    r = a == b
    if r is NotImplemented:
        return False
    return r if type(r) in (bool, V.SymBool) else bool(r)


if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)


def concretize(x, m):
    """value of x in model m as plain Python data (for observation records)"""
    t = type(x)
    if t is V.SymInt:
        v = m.eval(x.e, model_completion=True)
        return v.as_long() if x.lo >= 0 else v.as_signed_long()
    if t is V.SymBool:
        return z3.is_true(m.eval(x.e, model_completion=True))
    if t is V.SymReal:
        v = m.eval(x.e, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        if not z3.is_rational_value(v):
            return None
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return int(f) if x.isint and f.denominator == 1 else float(f)
    if issubclass(t, V.SymSeq):
        its = [concretize(i, m) for i in x.items]
        return ''.join(map(chr, its)) if t is V.SymStr else bytes(its)
    if t in (list, tuple):
        return t(concretize(i, m) for i in x)
    if isinstance(x, dict):
        return {concretize(k, m): concretize(v, m) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted((concretize(k, m) for k in x), key=repr)
    if t in (int, float, str, bytes, bool, type(None)):
        return x
    if t is bytearray:
        return bytes(x)
    return repr(t.__name__)


def encode(x):
    """JSON-able form of concrete data"""
    if isinstance(x, (bytes, bytearray)):
        return {'b': bytes(x).hex()}
    if isinstance(x, str):
        return {'s': [ord(c) for c in x]}
    if isinstance(x, tuple):
        return {'t': [encode(i) for i in x]}
    if isinstance(x, list):
        return [encode(i) for i in x]
    if isinstance(x, dict):
        return {'d': [[encode(k), encode(v)] for k, v in x.items()]}
    return x


class HSym:
    symbolic = True

    def __init__(self):
        self.reached = {}
        self.obs = []
        self.label = None

    def begin(self):
        self.obs = []
        I.EXACT_REPR[0] = False
        I.NUMERALS[0] = None
        self.names = {}

    def _name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return n if k == 0 else '%s#%d' % (n, k)

    # ---- inputs
    def bytes(self, name, n, alphabet=None):
        name = self._name(name)
        its = []
        for i in range(n):
            v = fz.bv('%s[%d]' % (name, i), 8)
            its.append(V.SymInt(v, 0, 255))
        C.inputs.append((name, 'bytes', its))
        if alphabet is not None:
            rngs = I.rematch._norm([(b, b) for b in set(alphabet)])
            for s in its:
                C.assume(bexpr(V.in_ranges(s, rngs)))
        return V.mkbytes(its)

    def text(self, name, n, ranges=((0, 0xd7ff), (0xe000, 0x10ffff))):
        name = self._name(name)
        its = []
        for i in range(n):
            v = fz.bv('%s[%d]' % (name, i), 21)
            s = V.SymInt(v, 0, (1 << 21) - 1)
            C.inputs_pre = None
            C.assume(bexpr(V.in_ranges(s, list(ranges))))
            hi = max(b for a, b in ranges)
            its.append(V.narrow(s, hi))
        C.inputs.append((name, 'text', its))
        return V.mkstr(its)

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            C.inputs.append((name, 'int', [lo]))
            return lo
        s = V.new_int(name, lo, hi)
        C.inputs.append((name, 'int', [s]))
        return s

    def bool(self, name):
        name = self._name(name)
        s = V.SymBool(z3.Bool(name))
        C.inputs.append((name, 'bool', [s]))
        return s

    def real(self, name, lo=None, hi=None, isint=False):
        name = self._name(name)
        v = z3.Real(name)
        s = V.SymReal(v, isint)
        C.inputs.append((name, 'real', [s]))
        if isint:
            C.assume(z3.IsInt(v))
        if lo is not None:
            C.assume(v >= V._q(lo))
        if hi is not None:
            C.assume(v <= V._q(hi))
        return s

    def choice(self, name, options):
        name = self._name(name)
        options = list(options)
        k = C.choose(len(options))
        C.inputs.append((name, 'choice', [k]))
        return options[k]

    # ---- assertions
    def assume(self, cond):
        e = bexpr(cond)
        if z3.is_false(e):
            raise PathAbort()
        C.assume(e)

    def _viol(self, label, m, detail=''):
        v = Violation(label, detail)
        v.model = m
        raise v

    def check(self, cond, label, detail=''):
        e = bexpr(cond)
        ok, m = C.must(e)
        if ok is False:
            v = Violation(label, detail)
            v.cond = e
            v.model = m
            raise v

    def equal(self, a, b, label):
        r = deq(a, b)
        self.check(r, label)

    def close(self, a, b, label, tol=1e-3):
        if not (V.is_sym(a) or V.is_sym(b)):
            if abs(a - b) > 1e-6 * max(1.0, abs(a), abs(b)):
                self._viol(label, C.cur_model())
            C.stats['checks'] += 1
            C.stats['discharged'] += 1
            return
        a, b = V.toreal(a), V.toreal(b)
        d = z3.simplify(a.e - b.e, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            C.stats['checks'] += 1
            C.stats['discharged'] += 1
            return
        t = V._q(tol)
        ok, m = C.must(z3.And(d <= t, d >= -t))
        if ok is False:
            v = Violation(label)
            v.cond = z3.And(d <= t, d >= -t)
            v.model = m
            raise v

    def closeseq(self, a, b, label, tol=1e-3):
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.fail(label + ' (length)')
        for x, y in zip(a, b):
            self.close(x, y, label, tol)

    def fail(self, label):
        C.stats['checks'] += 1
        self._viol(label, C.cur_model())

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, name, value):
        self.obs.append((name, value))

    # ---- logic helpers (no forking)
    and_ = staticmethod(V.and_)
    or_ = staticmethod(V.or_)
    not_ = staticmethod(V.not_)
    implies = staticmethod(V.implies)
    ite = staticmethod(V.ite)
    eq = staticmethod(deq)

    def realize(self, x):
        return V.realize(x)

    def branch(self, c):
        return bool(c)

    # ---- files
    def vfile(self, name, data):
        p = '/sxvfs/' + name
        I.VFS[p] = data
        return p

    def outpath(self, name):
        return '/sxvfs/' + name

    def readfile(self, path):
        data = I.VFS.get(path)
        if data is not None and I.OPAQUE.encode('utf-8') in bytes(c if type(c) is int else 0 for c in _items(data)):
            raise Unsupported('text of a value that cannot be encoded, in a file')
        return data

    def exactrepr(self, on):
        """the repr of symbolic values is spelled out"""
        I.EXACT_REPR[0] = on

    def numerals(self):
        """the text of a symbolic real is a numeral that stands for it"""
        I.NUMERALS[0] = {}

    def number(self, text):
        """the number a text denotes"""
        text = V.realize(text)
        v = (I.NUMERALS[0] or {}).get(text.lstrip('-'))
        if v is None:
            return float(text)
        return -v if text[:1] == '-' else v

    def deflate(self, data):
        """zlib stream of stored blocks holding `data` (checksum left out: the
        model of zlib does not verify it)"""
        n = len(data)
        return b'\x78\x01' + b'\x01' + struct.pack('<HH', n, n ^ 0xffff) + data + b'\0\0\0\0'

    def clean(self, s, label='opaque text'):
        """text that must not contain the placeholder of an unencodable value"""
        if 0xe000 in [c for c in _items(s) if type(c) is int]:
            raise Unsupported(label)
        return s
