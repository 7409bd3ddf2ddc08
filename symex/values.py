"""Symbolic stand-ins for Python values (exact Python semantics unless stated)."""
import z3
from fractions import Fraction
import math as _math
from .core import C, Unsupported
from . import fz

_T = fz.TRUE
_F = fz.FALSE


zand, zor, znot = fz.and_, fz.or_, fz.not_


class Sym:
    """Marker base of all symbolic values."""
    __slots__ = ()


# --------------------------------------------------------------------------
# booleans
class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return C.branch(self.e)

    def _int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if o is True:
            return self
        if o is False:
            return mkbool(znot(self.e))
        return self._int() == o

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(zand([self.e, bexpr(o)]))
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(zor([self.e, bexpr(o)]))
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(self.e, bexpr(o)))
        return self._int() ^ o
    __rxor__ = __xor__

    def __repr__(self):
        return '<sym bool>'
    __str__ = __repr__

    def __index__(self):
        return int(bool(self))
    __int__ = __index__


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv', 'mod', 'lshift', 'rlshift',
           'lt', 'le', 'gt', 'ge', 'truediv', 'rtruediv'):
    def _f(self, o, _n='__%s__' % _n):
        return getattr(self._int(), _n)(o)
    setattr(SymBool, '__%s__' % _n, _f)
SymBool.__neg__ = lambda self: -self._int()
SymBool.__invert__ = lambda self: ~self._int()


def mkbool(e):
    if fz.is_true(e):
        return True
    if fz.is_false(e):
        return False
    return SymBool(e)


def bexpr(b):
    """z3 Bool of a (symbolic or real) truth value."""
    if type(b) is SymBool:
        return b.e
    if type(b) is bool:
        return _T if b else _F
    if isinstance(b, z3.BoolRef):
        return b
    t = truth(b)
    return t.e if type(t) is SymBool else (_T if t else _F)


def truth(x):
    """bool(x) without forking where possible."""
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return x != 0
    if t is SymReal:
        return x != 0
    return bool(x)


def not_(b):
    if type(b) is SymBool:
        return mkbool(znot(b.e))
    if b is NotImplemented:
        return b
    return not b


def and_(*bs):
    return mkbool(zand([bexpr(b) for b in bs]))


def or_(*bs):
    return mkbool(zor([bexpr(b) for b in bs]))


def implies(a, b):
    return mkbool(zor([znot(bexpr(a)), bexpr(b)]))


# --------------------------------------------------------------------------
# integers
def _bits(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1


MAXW = 4096


class SymInt(Sym):
    """An int: bit-vector `e`, unsigned when lo >= 0, else two's complement;
    lo..hi are guaranteed bounds and the width always fits them."""
    __slots__ = ('e', 'w', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.w = _bits(lo, hi)
        self.lo = lo
        self.hi = hi

    __class__ = property(lambda self: int)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return realize_int(self)
    __int__ = __index__

    def __hash__(self):
        return hash(realize_int(self))

    def __repr__(self):
        return '<sym int>'
    __str__ = __repr__

    def __float__(self):
        return float(realize_int(self))

    # arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is SymReal:
            return toreal(self) + o
        lo, hi = self.lo + _lo(o), self.hi + _hi(o)
        w = _bits(lo, hi)
        return mkint(fz.add(_tow(self, w), _tow(o, w)), lo, hi, w)
    __radd__ = __add__

    def __sub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is SymReal:
            return toreal(self) - o
        lo, hi = self.lo - _hi(o), self.hi - _lo(o)
        w = _bits(lo, hi)
        return mkint(fz.sub(_tow(self, w), _tow(o, w)), lo, hi, w)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is SymReal:
            return o - toreal(self)
        lo, hi = _lo(o) - self.hi, _hi(o) - self.lo
        w = _bits(lo, hi)
        return mkint(fz.sub(_tow(o, w), _tow(self, w)), lo, hi, w)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, bytearray)):
            return realize_int(self) * o
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is SymReal:
            return toreal(self) * o
        if type(o) is int:
            if o == 0:
                return 0
            if o == 1:
                return self
        ps = [a * b for a in (self.lo, self.hi) for b in (_lo(o), _hi(o))]
        lo, hi = min(ps), max(ps)
        w = _bits(lo, hi)
        return mkint(fz.mul(_tow(self, w), _tow(o, w)), lo, hi, w)
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self >= 0, self, -self)

    def __floordiv__(self, o):
        return _divmod(self, o)[0]

    def __mod__(self, o):
        return _divmod(self, o)[1]

    def __rfloordiv__(self, o):
        return o // realize_int(self)

    def __rmod__(self, o):
        return o % realize_int(self)

    def __divmod__(self, o):
        return _divmod(self, o)

    def __rdivmod__(self, o):
        return divmod(o, realize_int(self))

    def __truediv__(self, o):
        return toreal(self, isint=False) / o

    def __rtruediv__(self, o):
        return toreal(o, isint=False) / self

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(realize_int(self), o if type(o) is not SymInt else realize_int(o), m)

    def __rpow__(self, o):
        return o ** realize_int(self)

    def __lshift__(self, o):
        if type(o) is SymInt:
            o = realize_int(o)
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << realize_int(self)

    def __rshift__(self, o):
        if type(o) is SymInt:
            o = realize_int(o)
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        lo, hi = self.lo >> o, self.hi >> o
        w = self.w
        if o >= w:
            if self.lo >= 0:
                return 0
            o = w - 1
        e = (fz.lshr if self.lo >= 0 else fz.ashr)(self.e, fz.val(o, w))
        return mkint(e, lo, hi)

    def __rrshift__(self, o):
        return o >> realize_int(self)

    def _bit(self, o, f, kind):
        o = _coerce(o)
        if o is None or type(o) is SymReal:
            return NotImplemented
        if self.lo >= 0 and _lo(o) >= 0:
            w = max(_bits(self.lo, self.hi), _bits(_lo(o), _hi(o)))
            if kind == '&':
                hi = min(self.hi, _hi(o))
            else:
                hi = (1 << w) - 1
            return mkint(f(_tow(self, w), _tow(o, w)), 0, hi)
        w = max(_bits(min(self.lo, -1), self.hi), _bits(min(_lo(o), -1), _hi(o)))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        e = f(_tow(self, w), _tow(o, w))
        if kind == '&' and (self.lo >= 0 or _lo(o) >= 0):
            lo = 0
            hi = self.hi if self.lo >= 0 else _hi(o)
        return mkint(e, lo, hi)

    def __and__(self, o):
        return self._bit(o, fz.band, '&')
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, fz.bor, '|')
    __ror__ = __or__

    def __xor__(self, o):
        r = self._bit(o, fz.bxor, '^')
        if type(r) is SymInt and type(o) is SymInt:
            # x ^ k ^ k
            for a, b in ((self, o), (o, self)):
                e = a.e
                if a.lo >= 0 and b.lo >= 0 and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BXOR and e.num_args() == 2:
                    for i in (0, 1):
                        if fz.same(e.arg(i), b.e):
                            c = e.arg(1 - i)
                            if z3.is_bv_value(c):
                                return c.as_long()
                            return SymInt(c, 0, (1 << c.size()) - 1)
        return r
    __rxor__ = __xor__

    def __invert__(self):
        return -1 - self

    # comparison
    def _cmp(self, o, op):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is SymReal:
            return toreal(self)._cmp(o, op)
        lo, hi, ol, oh = self.lo, self.hi, _lo(o), _hi(o)
        if type(o) is SymInt and (lo < 0) == (ol < 0) and fz.same(self.e, o.e):
            return op != '<'
        if op == '==':
            if hi < ol or lo > oh:
                return False
        elif op == '<':
            if hi < ol:
                return True
            if lo >= oh:
                return False
        elif op == '<=':
            if hi <= ol:
                return True
            if lo > oh:
                return False
        w = max(_bits(lo, hi), _bits(ol, oh))
        if lo < 0 or ol < 0:
            w = max(_bits(min(lo, -1), hi), _bits(min(ol, -1), oh))
            a, b = _tow(self, w), _tow(o, w)
            if op == '==':
                return SymBool(fz.eq(a, b))
            return SymBool((fz.slt if op == '<' else fz.sle)(a, b))
        a, b = _tow(self, w), _tow(o, w)
        if op == '==':
            return SymBool(fz.eq(a, b))
        return SymBool((fz.ult if op == '<' else fz.ule)(a, b))

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return not_(self._cmp(o, '<='))

    def __ge__(self, o):
        return not_(self._cmp(o, '<'))

    def bit_length(self):
        return realize_int(self).bit_length()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed:
            raise Unsupported('to_bytes signed')
        if self.lo < 0 and bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if bool(self >= 1 << (8 * length)):
            raise OverflowError('int too big to convert')
        items = [(self >> (8 * i)) & 255 for i in range(length)]
        if byteorder == 'big':
            items.reverse()
        return mkbytes(items)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return True

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return format(realize_int(self), spec)


def _coerce(o):
    t = type(o)
    if t is int or t is SymInt or t is SymReal:
        return o
    if t is bool:
        return int(o)
    if t is SymBool:
        return o._int()
    if t is float:
        return toreal(o)
    if t is Fraction:
        return toreal(o)
    if isinstance(o, int):
        return int(o)
    return None


def _lo(o):
    return o if type(o) is int else o.lo


def _hi(o):
    return o if type(o) is int else o.hi


def _tow(x, w):
    """Bit-vector of width w equal to x modulo 2**w."""
    if type(x) is int:
        return fz.val(x, w)
    if w > MAXW:
        raise Unsupported('integer wider than %d bits' % MAXW)
    s = x.w
    if s == w:
        return x.e
    if s > w:
        return fz.extract(w - 1, 0, x.e)
    return fz.zext(w - s, x.e) if x.lo >= 0 else fz.sext(w - s, x.e)


def mkint(e, lo, hi, s=None):
    """an int with bounds lo..hi; e may be wider than needed (it is cut)"""
    if lo == hi:
        return lo
    w = _bits(lo, hi)
    if s is None:
        s = e.size()
    if s > w:
        e = fz.extract(w - 1, 0, e)
    elif s < w:
        raise AssertionError('width')
    if fz.is_val(e):
        e = z3.simplify(e)
        return e.as_long() if lo >= 0 else e.as_signed_long()
    return SymInt(e, lo, hi)


def _divmod(a, b):
    t = type(b)
    if t is SymReal or t is float:
        return toreal(a).__divmod__(b)
    if t is SymInt:
        b = realize_int(b)
    elif t is SymBool:
        b = int(bool(b))
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b < 0:
        q, r = _divmod(-a, -b)
        return q, -r
    if b == 1:
        return a, 0
    if a.lo >= 0:
        w = max(a.w, _bits(0, b))
        bv = z3.BitVecVal(b, w)
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            return a >> k, a & (b - 1)
        x = _tow(a, w)
        return mkint(fz.udiv(x, bv), a.lo // b, a.hi // b), mkint(fz.urem(x, bv), 0, min(b - 1, a.hi))
    # floor semantics: shift into the non-negative range by a multiple of b
    k = (-a.lo + b - 1) // b
    q, r = _divmod(a + k * b, b) if type(a + k * b) is SymInt else divmod(a + k * b, b)
    return q - k, r


def realize_int(x):
    t = type(x)
    if t is SymInt:
        v = C.realize(x.e)
        return v.as_long() if x.lo >= 0 else v.as_signed_long()
    if t is SymBool:
        return int(bool(x))
    if t is SymReal:
        return realize(x)
    return x


def new_int(name, lo, hi):
    w = _bits(lo, hi)
    v = fz.bv(name, w)
    s = SymInt(v, lo, hi)
    if lo >= 0:
        if lo > 0:
            C.assume(z3.UGE(v, lo))
        if hi != (1 << w) - 1:
            C.assume(z3.ULE(v, hi))
    else:
        if lo != -(1 << (w - 1)):
            C.assume(v >= lo)
        if hi != (1 << (w - 1)) - 1:
            C.assume(v <= hi)
    return s


# --------------------------------------------------------------------------
# reals (floats are modelled as mathematical reals)
def _q(x):
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('inf/nan with a symbolic real')
        f = Fraction(repr(x))
    else:
        f = Fraction(int(x))
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


class SymReal(Sym):
    """A float (or, when isint, an int of unbounded range) as a z3 Real."""
    __slots__ = ('e', 'isint')

    def __init__(self, e, isint=False):
        self.e = e
        self.isint = isint

    @property
    def __class__(self):
        return int if self.isint else float

    def __bool__(self):
        return C.branch(self.e != 0)

    def __hash__(self):
        return hash(realize(self))

    def __repr__(self):
        return '<sym real>'
    __str__ = __repr__

    def _bin(self, o, f):
        t = type(o)
        if t is SymReal:
            return SymReal(f(self.e, o.e), self.isint and o.isint)
        if t is int or t is bool or t is SymInt or t is SymBool:
            o = toreal(o)
            return SymReal(f(self.e, o.e), self.isint and o.isint)
        if t is float or t is Fraction:
            return SymReal(f(self.e, _q(o)))
        return NotImplemented

    def __add__(self, o):
        if type(o) in (int, float) and o == 0:
            return self if (self.isint and type(o) is int) or not self.isint else SymReal(self.e)
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, bytearray)):
            return realize_int(self) * o
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) in (int, float):
            if o == 0:
                raise ZeroDivisionError('division by zero')
            return SymReal(self.e / _q(o))
        if type(o) is SymInt:
            o = toreal(o)
        if type(o) is SymReal:
            if C.branch(o.e == 0):
                raise ZeroDivisionError('division by zero')
            return SymReal(self.e / o.e)
        return NotImplemented

    def __rtruediv__(self, o):
        return toreal(o).__truediv__(self)

    def __neg__(self):
        return SymReal(-self.e, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e), self.isint)

    def _floor(self):
        return SymReal(self.e, True) if self.isint else SymReal(z3.ToReal(z3.ToInt(self.e)), True)

    def __floordiv__(self, o):
        return self.__divmod__(o)[0]

    def __mod__(self, o):
        return self.__divmod__(o)[1]

    def __divmod__(self, o):
        o2 = toreal(o)
        if C.branch(o2.e == 0):
            raise ZeroDivisionError('float divmod()')
        q = z3.ToReal(z3.ToInt(self.e / o2.e))
        ii = self.isint and o2.isint
        return SymReal(q, ii), SymReal(self.e - q * o2.e, ii)

    def __rfloordiv__(self, o):
        return toreal(o).__divmod__(self)[0]

    def __rmod__(self, o):
        return toreal(o).__divmod__(self)[1]

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return realize(self) ** o

    def __rpow__(self, o):
        return o ** realize(self)

    def _cmp(self, o, op):
        t = type(o)
        if t is SymReal:
            b = o.e
        elif t in (int, bool, SymInt, SymBool):
            b = toreal(o).e
        elif t is float:
            if o == float('inf'):
                return op != '=='
            if o == float('-inf'):
                return False
            b = _q(o)
        elif t is Fraction:
            b = _q(o)
        else:
            return NotImplemented
        a = self.e
        return mkbool(a == b if op == '==' else a < b if op == '<' else a <= b)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return not_(self._cmp(o, '<='))

    def __ge__(self, o):
        return not_(self._cmp(o, '<'))

    def __int__(self):
        return realize_int(trunc(self))

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return realize(self)

    def __float__(self):
        return float(realize(self))

    def __round__(self, n=None):
        return sround(self, n)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return self._floor()

    def __ceil__(self):
        return -((-self)._floor())

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        v = realize(self)
        return format(v, spec)

    # int-only operations realise
    def __and__(self, o):
        return realize_int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        return realize_int(self) | o
    __ror__ = __or__

    def __lshift__(self, o):
        return realize_int(self) << o

    def __rshift__(self, o):
        return realize_int(self) >> o


def toreal(x, isint=None):
    t = type(x)
    if t is SymReal:
        return x if isint is None or isint == x.isint else SymReal(x.e, isint)
    if t is SymInt:
        if x.lo >= 0:
            e = z3.BV2Int(x.e, False)
        else:
            e = z3.BV2Int(x.e, True)
        return SymReal(z3.ToReal(e), True if isint is None else isint)
    if t is SymBool:
        return SymReal(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)), True)
    if t is bool or t is int:
        return SymReal(_q(x), True if isint is None else isint)
    if t is float or t is Fraction:
        return SymReal(_q(x), bool(isint))
    raise TypeError('not a number: %r' % (t,))


def trunc(x):
    if type(x) is not SymReal:
        return int(x)
    if x.isint:
        return x
    f = z3.ToReal(z3.ToInt(x.e))
    c = -z3.ToReal(z3.ToInt(-x.e))
    return SymReal(z3.If(x.e >= 0, f, c), True)


def sround(x, n=None):
    if type(x) is SymInt:
        return x
    if x.isint:
        return x
    k = 10 ** (n or 0)
    y = x.e * k if n else x.e
    fi = z3.ToInt(y)
    f = z3.ToReal(fi)
    d = y - f
    up = z3.Or(d > z3.Q(1, 2), z3.And(d == z3.Q(1, 2), fi % 2 == 1))
    r = z3.If(up, f + 1, f)
    if n is None:
        return SymReal(r, True)
    return SymReal(r / k if n else r, False)


def realize(x):
    """Concrete Python value of any symbolic value (forks over all values)."""
    t = type(x)
    if t is SymInt:
        return realize_int(x)
    if t is SymBool:
        return bool(x)
    if t is SymReal:
        v = C.realize(x.e)
        if not z3.is_rational_value(v):
            raise Unsupported('algebraic value')
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        if x.isint:
            return int(f)
        return float(f)
    if isinstance(x, SymSeq):
        return x._realize()
    if t is tuple:
        return tuple(realize(i) for i in x)
    if t is list:
        return [realize(i) for i in x]
    return x


# --------------------------------------------------------------------------
def ite(c, a, b):
    """if-then-else on values (merges numbers, equal-length strings)."""
    ce = bexpr(c)
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    m = merge([(ce, a)], b)
    if m is NOMERGE:
        return a if C.branch(ce) else b
    return m


NOMERGE = object()


def _same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta in (int, bool, str, bytes, float):
        return a == b
    return False


def merge(pairs, default):
    """Nested if-then-else over [(cond, value)...] else default."""
    vals = [v for _, v in pairs] + [default]
    v0 = vals[0]
    if all(_same(v, v0) for v in vals[1:]):
        return v0
    ts = set(type(v) for v in vals)
    if ts <= {bool, SymBool}:
        e = bexpr(default)
        for c, v in reversed(pairs):
            e = fz.ite_bool(c, bexpr(v), e)
        return mkbool(e)
    if ts <= {int, SymInt}:
        lo = min(_lo(v) for v in vals)
        hi = max(_hi(v) for v in vals)
        w = _bits(lo, hi)
        e = _tow(default, w)
        for c, v in reversed(pairs):
            e = fz.ite_bv(c, _tow(v, w), e)
        return mkint(e, lo, hi)
    if ts <= {int, float, SymInt, SymReal}:
        rs = [toreal(v) for v in vals]
        if not (all(r.isint for r in rs) or not any(r.isint for r in rs)):
            return NOMERGE
        e = rs[-1].e
        for (c, _), v in reversed(list(zip(pairs, rs[:-1]))):
            e = z3.If(c, v.e, e)
        return SymReal(e, rs[0].isint)
    for kind, st in ((str, SymStr), (bytes, SymBytes)):
        if ts <= {kind, st}:
            n = len(v0)
            if any(len(v) != n for v in vals):
                return NOMERGE
            its = [_items(v) for v in vals]
            cs = [c for c, _ in pairs]
            out = []
            for i in range(n):
                r = merge(list(zip(cs, [it[i] for it in its[:-1]])), its[-1][i])
                out.append(r)
            return (mkstr if kind is str else mkbytes)(out)
    if ts == {tuple}:
        n = len(v0)
        if any(len(v) != n for v in vals):
            return NOMERGE
        cs = [c for c, _ in pairs]
        out = []
        for i in range(n):
            r = merge(list(zip(cs, [v[i] for v in vals[:-1]])), default[i])
            if r is NOMERGE:
                return NOMERGE
            out.append(r)
        return tuple(out)
    return NOMERGE


def _items(s):
    if isinstance(s, SymSeq):
        return s.items
    if type(s) is str:
        return [ord(c) for c in s]
    return list(s)


# --------------------------------------------------------------------------
# byte and text strings (concrete length, symbolic items)
class SymSeq(Sym):
    __slots__ = ('items',)


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def has_sym(x):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if t is tuple or t is list:
        for i in x:
            if has_sym(i):
                return True
    return False


def mkbytes(items):
    for i in items:
        if type(i) is not int:
            return SymBytes(list(items))
    return bytes(items)


def mkstr(items):
    for i in items:
        if type(i) is not int:
            return SymStr(list(items))
    return ''.join(map(chr, items))


def in_ranges(c, ranges):
    """z3/py truth of `c` in a union of inclusive ranges."""
    if type(c) is int:
        for a, b in ranges:
            if a <= c <= b:
                return True
        return False
    out = []
    for a, b in ranges:
        if b < c.lo or a > c.hi:
            continue
        if a <= c.lo and b >= c.hi:
            return True
        if a == b:
            r = c == a
        elif a <= c.lo:
            r = c <= b
        elif b >= c.hi:
            r = c >= a
        else:
            r = and_(c >= a, c <= b)
        if r is True:
            return True
        if r is not False:
            out.append(r.e)
    return mkbool(zor(out))


WS_B = [(9, 13), (32, 32)]
WS_S = [(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a),
        (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]


def _mkmeth_realize(name, real):
    def f(self, *a, **k):
        return getattr(self._realize(), name)(*[realize(x) for x in a], **{n: realize(v) for n, v in k.items()})
    f.__name__ = name
    return f


class _Seq(SymSeq):
    __slots__ = ()
    MK = None          # list of items -> value
    REAL = None
    WS = None

    def __init__(self, items):
        self.items = items

    def _conv(self, o):
        """items of an operand of the same kind, or None"""
        t = type(o)
        if issubclass(t, SymSeq):
            if (t is SymStr) == (self.REAL is str):
                return o.items
            return None
        if self.REAL is str:
            return [ord(c) for c in o] if isinstance(o, str) else None
        if isinstance(o, (bytes, bytearray)):
            return list(o)
        if isinstance(o, memoryview):
            return list(o)
        return None

    def _need(self, o):
        r = self._conv(o)
        if r is None:
            raise TypeError('a %s-like object is required' % self.REAL.__name__)
        return r

    def _realize(self):
        its = [realize_int(i) for i in self.items]
        if self.REAL is str:
            return ''.join(map(chr, its))
        return self.REAL(its)

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __hash__(self):
        return hash(self._realize())

    def __repr__(self):
        return '<sym %s>' % self.REAL.__name__

    def __str__(self):
        return '<sym %s>' % self.REAL.__name__

    def __iter__(self):
        for i in list(self.items):
            yield self._elem(i)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[realize_int(x) for x in (k.start, k.stop, k.step)])
            return self.MK(self.items[k])
        if type(k) is SymInt:
            return self._elem(index_items(self.items, k))
        return self._elem(self.items[k])

    def __add__(self, o):
        b = self._conv(o)
        if b is None:
            return NotImplemented
        return self.MK(self.items + b)

    def __radd__(self, o):
        b = self._conv(o)
        if b is None:
            return NotImplemented
        return self.MK(b + self.items)

    def __mul__(self, n):
        if not isinstance(n, int):
            return NotImplemented
        return self.MK(self.items * realize_int(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        b = self._conv(o)
        if b is None or len(b) != len(self.items):
            return False
        return eq_items(self.items, b)

    def __ne__(self, o):
        return not_(self == o)

    def _lt(self, o, eq):
        b = self._conv(o)
        if b is None:
            return NotImplemented
        a = self.items
        # lexicographic, built from the end
        n = min(len(a), len(b))
        res = (len(a) <= len(b)) if eq else (len(a) < len(b))
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            res = or_(x < y, and_(x == y, res))
        return res

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return not_(self._lt(o, True))

    def __ge__(self, o):
        return not_(self._lt(o, False))

    def __contains__(self, o):
        return bool(self._contains(o))

    def _contains(self, o):
        if self.REAL is not str and isinstance(o, int):
            return or_(*[i == o for i in self.items])
        b = self._need(o)
        n = len(b)
        return or_(*[eq_items(self.items[i:i + n], b) for i in range(len(self.items) - n + 1)])

    # -- searching
    def _rng(self, start, end):
        s = slice(realize_int(start), realize_int(end)).indices(len(self.items))
        return s[0], s[1]

    def _pat(self, o):
        if self.REAL is not str and isinstance(o, int):
            return [o]
        return self._need(o)

    def find(self, o, start=None, end=None):
        b = self._pat(o)
        s, e = self._rng(start, end)
        n = len(b)
        if start is not None and realize_int(start) > len(self.items):
            return -1
        for i in range(s, e - n + 1):
            if eq_items(self.items[i:i + n], b):
                return i
        return -1

    def rfind(self, o, start=None, end=None):
        b = self._pat(o)
        s, e = self._rng(start, end)
        n = len(b)
        if start is not None and realize_int(start) > len(self.items):
            return -1
        for i in range(e - n, s - 1, -1):
            if eq_items(self.items[i:i + n], b):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, o, start=None, end=None):
        b = self._pat(o)
        s, e = self._rng(start, end)
        n = len(b)
        if n == 0:
            return e - s + 1
        c = 0
        i = s
        while i <= e - n:
            if eq_items(self.items[i:i + n], b):
                c += 1
                i += n
            else:
                i += 1
        return c

    def startswith(self, p, start=None, end=None):
        s, e = self._rng(start, end)
        its = self.items[s:e]
        ps = p if isinstance(p, tuple) else (p,)
        out = []
        for q in ps:
            b = self._need(q)
            if len(b) <= len(its):
                out.append(eq_items(its[:len(b)], b))
        return or_(*out)

    def endswith(self, p, start=None, end=None):
        s, e = self._rng(start, end)
        its = self.items[s:e]
        ps = p if isinstance(p, tuple) else (p,)
        out = []
        for q in ps:
            b = self._need(q)
            if len(b) <= len(its):
                out.append(eq_items(its[len(its) - len(b):], b))
        return or_(*out)

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self[:len(self) - len(p)]
        return self

    # -- stripping, splitting
    def _strip(self, chars, l, r):
        if chars is None:
            test = lambda c: in_ranges(c, self.WS)
        else:
            cs = self._need(chars)
            test = lambda c: or_(*[c == x for x in cs])
        a, b = 0, len(self.items)
        if l:
            while a < b and test(self.items[a]):
                a += 1
        if r:
            while b > a and test(self.items[b - 1]):
                b -= 1
        return self.MK(self.items[a:b])

    def strip(self, c=None):
        return self._strip(c, 1, 1)

    def lstrip(self, c=None):
        return self._strip(c, 1, 0)

    def rstrip(self, c=None):
        return self._strip(c, 0, 1)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = realize_int(maxsplit)
        out = []
        if sep is None:
            cur = []
            i, n = 0, len(self.items)
            splits = 0
            while True:
                while i < n and in_ranges(self.items[i], self.WS):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and splits >= maxsplit:
                    j = n
                    while j > i and in_ranges(self.items[j - 1], self.WS):
                        j -= 1
                    out.append(self.MK(self.items[i:j]))
                    break
                j = i
                while j < n and not in_ranges(self.items[j], self.WS):
                    j += 1
                out.append(self.MK(self.items[i:j]))
                splits += 1
                i = j
            return out
        b = self._need(sep)
        if not b:
            raise ValueError('empty separator')
        n = len(b)
        i = 0
        last = 0
        while i <= len(self.items) - n and (maxsplit < 0 or len(out) < maxsplit):
            if eq_items(self.items[i:i + n], b):
                out.append(self.MK(self.items[last:i]))
                i += n
                last = i
            else:
                i += 1
        out.append(self.MK(self.items[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        r = self.MK(self.items[::-1])
        if sep is not None:
            sep = self.MK(self._need(sep)[::-1])
        if not issubclass(type(r), SymSeq):
            return [self.MK(self._need(x)) for x in self._realize().rsplit(sep, maxsplit)]
        parts = r.split(sep, maxsplit)
        return [self.MK(self._need(p)[::-1]) for p in reversed(parts)]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self.MK([]), self.MK([])
        return self[:i], self.MK(self._need(sep)), self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self.MK([]), self.MK([]), self
        return self[:i], self.MK(self._need(sep)), self[i + len(sep):]

    def splitlines(self, keepends=False):
        out = []
        i = start = 0
        n = len(self.items)
        brk = [(10, 10), (13, 13)] if self.REAL is not str else \
            [(10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029)]
        while i < n:
            if in_ranges(self.items[i], brk):
                j = i + 1
                if self.items[i] == 13 and j < n and self.items[j] == 10:
                    j += 1
                out.append(self.MK(self.items[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(self.MK(self.items[start:]))
        return out

    def replace(self, a, b, count=-1):
        a, b = self._need(a), self._need(b)
        count = realize_int(count)
        if not a:
            return self._realize().replace(self._rv(a), self._rv(b), count)
        out = []
        i = k = 0
        n = len(a)
        while i < len(self.items):
            if (count < 0 or k < count) and i <= len(self.items) - n and eq_items(self.items[i:i + n], a):
                out += b
                i += n
                k += 1
            else:
                out.append(self.items[i])
                i += 1
        return self.MK(out)

    def _rv(self, items):
        its = [realize_int(i) for i in items]
        return ''.join(map(chr, its)) if self.REAL is str else bytes(its)

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.items
            q = self._conv(p)
            if q is None:
                raise TypeError('sequence item %d: expected %s instance, %s found'
                                % (i, self.REAL.__name__, type(p).__name__))
            out += q
        return self.MK(out)

    # -- classification
    def _all(self, ranges):
        if not self.items:
            return False
        return and_(*[in_ranges(i, ranges) for i in self.items])

    def _ascii_only(self):
        """fork: are all characters ASCII?"""
        return all(type(i) is int and i < 128 or bool(i < 128) for i in self.items)

    def _cls(self, name, ranges):
        if self.REAL is str and not self._ascii_only():
            return getattr(self._realize(), name)()
        return self._all(ranges)

    def isdigit(self):
        return self._cls('isdigit', [(48, 57)])

    def isdecimal(self):
        return self._cls('isdecimal', [(48, 57)])

    def isnumeric(self):
        return self._cls('isnumeric', [(48, 57)])

    def isalpha(self):
        return self._cls('isalpha', [(65, 90), (97, 122)])

    def isalnum(self):
        return self._cls('isalnum', [(48, 57), (65, 90), (97, 122)])

    def isspace(self):
        return self._all(self.WS)

    def isascii(self):
        return and_(*[in_ranges(i, [(0, 127)]) for i in self.items])

    def _case(self, ranges, d):
        if self.REAL is str and not self._ascii_only():
            return None
        out = []
        for i in self.items:
            t = in_ranges(i, ranges)
            if t is True:
                out.append(i + d)
            elif t is False:
                out.append(i)
            else:
                j = i + d
                # stay in range 0..hi
                m = ite(t, j, i)
                if type(m) is SymInt and m.lo < 0:
                    m = mkint(_tow(m, _bits(0, i.hi)), 0, i.hi)
                out.append(m)
        return self.MK(out)

    def lower(self):
        r = self._case([(65, 90)], 32)
        return self._realize().lower() if r is None else r

    def upper(self):
        r = self._case([(97, 122)], -32)
        return self._realize().upper() if r is None else r

    def casefold(self):
        if all(type(c) is int and c < 128 or bool(c < 128) for c in self.items):
            return self.lower()
        return self._realize().casefold()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _pad(self, width, fill, left):
        f = self._need(fill if fill is not None else (' ' if self.REAL is str else b' '))
        n = max(0, realize_int(width) - len(self.items))
        return self.MK(f * n + self.items if left else self.items + f * n)

    def ljust(self, w, fill=None):
        return self._pad(w, fill, False)

    def rjust(self, w, fill=None):
        return self._pad(w, fill, True)


def index_items(items, k):
    """items[k] for a symbolic index: bounds fork, then one if-then-else term."""
    n = len(items)
    if k.lo < 0 and bool(k < 0):
        k = k + n
        if type(k) is int:
            return items[k]
        if bool(k < 0):
            raise IndexError('index out of range')
    if bool(k >= n):
        raise IndexError('index out of range')
    lo = max(0, k.lo)
    hi = min(n - 1, k.hi)
    groups = {}
    for i in range(lo, hi + 1):
        groups.setdefault(_shape(items[i]), []).append(i)
    left = list(groups.items())
    while True:
        sh, idx = left.pop()
        if not left or bool(in_ranges(k, _ranges(idx))):
            break
    if len(idx) == 1:
        return items[idx[0]]
    if sh[0] == 'o':
        return items[idx[0]]
    if sh[0] == 'i':
        return _table(k, idx, [items[i] for i in idx])
    if sh[0] in 'bs':
        its = [_items(items[i]) for i in idx]
        out = [_table(k, idx, [it[j] for it in its]) for j in range(sh[1])]
        return mkbytes(out) if sh[0] == 'b' else mkstr(out)
    m = merge([(bexpr(k == i), items[i]) for i in idx[:-1]], items[idx[-1]])
    if m is NOMERGE:
        return items[realize_int(k)]
    return m


def _shape(x):
    """what values may be merged into one term"""
    t = type(x)
    if t is int or t is SymInt:
        return ('i',)
    if t in (bytes, SymBytes):
        return ('b', len(x))
    if t in (str, SymStr):
        return ('s', len(x))
    if t in (float, SymReal):
        return ('f',)
    if t is tuple:
        return ('t', len(x))
    if t in (bool, SymBool):
        return ('z',)
    return ('o', id(x))


def _ranges(idx):
    out = []
    for i in idx:
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return [(a, b) for a, b in out]


def _table(k, idx, vals):
    """value of an integer table at a symbolic index known to be in idx;
    stretches of constant slope become one arithmetic term"""
    runs = []         # [first, last, kind, payload]
    for i, v in zip(idx, vals):
        if type(v) is int:
            if runs:
                r = runs[-1]
                if r[2] == 'c' and r[3] == v:
                    r[1] = i
                    continue
                if r[2] == 'l' and v - i == r[3]:
                    r[1] = i
                    continue
                if r[2] == 'c' and r[0] == r[1] and i == r[1] + 1 and v == r[3] + 1:
                    r[1], r[2], r[3] = i, 'l', v - i
                    continue
            runs.append([i, i, 'c', v])
        else:
            runs.append([i, i, 'v', v])
    def value(r):
        if r[2] == 'l':
            return mkint_clip(k + r[3], r[0] + r[3], r[1] + r[3])
        return r[3]
    out = value(runs[-1])
    rest = runs[:-1]
    if not rest:
        return out
    # common value as the default keeps the term small
    pairs = [(bexpr(in_ranges(k, [(r[0], r[1])])), value(r)) for r in rest]
    m = merge(pairs, out)
    if m is NOMERGE:
        return vals[idx.index(realize_int(k))]
    return m


def mkint_clip(x, lo, hi):
    """x, known to be within lo..hi where it is used"""
    if type(x) is not SymInt:
        return x
    w = _bits(lo, hi)
    if w >= x.e.size():
        return x
    return mkint(z3.Extract(w - 1, 0, x.e), lo, hi)


def eq_items(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        r = x == y
        if r is False:
            return False
        if r is not True:
            out.append(r.e)
    return mkbool(zand(out))


class SymBytes(_Seq):
    __slots__ = ()
    REAL = bytes
    WS = WS_B

    @staticmethod
    def MK(items):
        return mkbytes(items)

    __class__ = property(lambda self: bytes)

    def _elem(self, i):
        return i

    def __bytes__(self):
        return self._realize()

    def decode(self, encoding='utf-8', errors='strict'):
        return decode_items(self.items, encoding, errors)

    def hex(self, *a):
        if a:
            return self._realize().hex(*a)
        out = []
        for i in self.items:
            for d in (i >> 4, i & 15):
                out.append(_hexd(d))
        return mkstr(out)

    def translate(self, table, delete=b''):
        if table is None:
            items = self.items
        else:
            items = None
        dl = list(delete)
        src = [i for i in self.items if not dl or not or_(*[i == d for d in dl])]
        if items is not None:
            return mkbytes(src)
        tl = list(table)
        return mkbytes([tl[i] if type(i) is int else index_items(tl, i) for i in src])

    def tobytes(self):
        return self


def _hexd(d):
    if type(d) is int:
        return ord('0123456789abcdef'[d])
    return ite(d < 10, d + 48, d + 87)


class SymByteArray(_Seq):
    __slots__ = ()
    REAL = bytearray
    WS = WS_B

    @staticmethod
    def MK(items):
        return SymByteArray(list(items))

    __class__ = property(lambda self: bytearray)

    def _elem(self, i):
        return i

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.items[k] = [i for i in v]
        else:
            if not 0 <= v <= 255:
                raise ValueError('byte must be in range(0, 256)')
            self.items[k] = v

    def __delitem__(self, k):
        del self.items[k]

    def append(self, v):
        if not 0 <= v <= 255:
            raise ValueError('byte must be in range(0, 256)')
        self.items.append(v)

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def pop(self, i=-1):
        return self.items.pop(i)

    def insert(self, i, v):
        self.items.insert(i, v)

    def clear(self):
        self.items.clear()

    def reverse(self):
        self.items.reverse()

    def __iadd__(self, o):
        self.extend(o)
        return self

    decode = SymBytes.decode
    hex = SymBytes.hex
    translate = SymBytes.translate

    def __bytes__(self):
        return bytes(self._realize())

    def copy(self):
        return SymByteArray(list(self.items))


class SymStr(_Seq):
    __slots__ = ()
    REAL = str
    WS = WS_S

    @staticmethod
    def MK(items):
        return mkstr(items)

    __class__ = property(lambda self: str)

    def _elem(self, i):
        return mkstr([i])

    def encode(self, encoding='utf-8', errors='strict'):
        return encode_items(self.items, encoding, errors)

    def translate(self, table):
        out = []
        for i in self.items:
            if type(i) is int:
                out += _items(chr(i).translate(table))
            else:
                for k in list(table.keys()):
                    if i == k:
                        v = table[k]
                        if v is None:
                            pass
                        elif isinstance(v, int):
                            out.append(v)
                        else:
                            out += _items(v)
                        break
                else:
                    out.append(i)
        return mkstr(out)

    def format(self, *a, **k):
        return self._realize().format(*a, **k)

    def isprintable(self):
        return self._realize().isprintable()

    def zfill(self, w):
        return self._realize().zfill(w)

    def title(self):
        return self._realize().title()

    def capitalize(self):
        return self._realize().capitalize()

    def isidentifier(self):
        return self._realize().isidentifier()

    def isupper(self):
        return self._realize().isupper()

    def islower(self):
        return self._realize().islower()

    def expandtabs(self, n=8):
        return self._realize().expandtabs(n)

    def __format__(self, spec):
        return format(self._realize(), spec)


for _n in ('capitalize', 'title', 'zfill', 'swapcase', 'isupper', 'islower', 'istitle', 'center'):
    for _c in (SymBytes, SymStr, SymByteArray):
        if not hasattr(_c, _n):
            setattr(_c, _n, _mkmeth_realize(_n, None))


def _norm_enc(e):
    return realize(e).lower().replace('_', '-')


def decode_items(items, encoding, errors):
    enc = _norm_enc(encoding)
    if enc in ('latin-1', 'latin1', 'iso-8859-1', 'l1'):
        return mkstr(items)
    if enc in ('ascii', 'us-ascii'):
        out = []
        for i, c in enumerate(items):
            if c < 128:
                out.append(c)
            elif errors == 'ignore':
                pass
            elif errors == 'replace':
                out.append(0xfffd)
            else:
                raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)')
        return mkstr(out)
    if enc in ('utf-16be', 'utf-16-be', 'utf-16le', 'utf-16-le'):
        le = enc.endswith('le')
        out = []
        i, n = 0, len(items)

        def bad(what):
            if errors == 'ignore':
                return []
            if errors == 'replace':
                return [0xfffd]
            raise UnicodeDecodeError(enc, b'??', 0, 1, what)
        while i < n:
            if i + 1 >= n:
                out += bad('truncated data')
                break
            a, b = (items[i + 1], items[i]) if le else (items[i], items[i + 1])
            u = a * 256 + b
            i += 2
            if in_ranges(u, [(0xd800, 0xdbff)]):
                if i + 1 >= n:
                    out += bad('unexpected end of data')
                    break
                a, b = (items[i + 1], items[i]) if le else (items[i], items[i + 1])
                v = a * 256 + b
                if in_ranges(v, [(0xdc00, 0xdfff)]):
                    i += 2
                    c = (u & 0x3ff) * 1024 + (v & 0x3ff) + 0x10000
                    out.append(c)
                else:
                    out += bad('illegal UTF-16 surrogate')
            elif in_ranges(u, [(0xdc00, 0xdfff)]):
                out += bad('illegal encoding')
            else:
                out.append(u)
        return mkstr(out)
    if enc in ('utf-8', 'utf8'):
        return _utf8(items, errors)
    if enc == 'utf-8-sig':
        items = list(items)
        return _utf8(items[3:] if items[:3] == [0xef, 0xbb, 0xbf] else items, errors)
    if enc in ('utf-16', 'utf16'):
        items = list(items)
        if items[:2] == [0xfe, 0xff]:
            return decode_items(items[2:], 'utf-16-be', errors)
        return decode_items(items[2:] if items[:2] == [0xff, 0xfe] else items, 'utf-16-le', errors)
    return bytes(realize_int(i) for i in items).decode(encoding, errors)


def _utf8(items, errors):
    out = []
    i, n = 0, len(items)

    def cont(j, lo=0x80, hi=0xbf):
        return j < n and bool(in_ranges(items[j], [(lo, hi)]))

    def bad():
        if errors == 'ignore':
            return []
        if errors == 'replace':
            return [0xfffd]
        raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'invalid start byte')
    while i < n:
        c = items[i]
        if c < 0x80:
            out.append(c)
            i += 1
            continue
        if in_ranges(c, [(0xc2, 0xdf)]):
            if cont(i + 1):
                out.append((c & 31) * 64 + (items[i + 1] & 63))
                i += 2
            else:
                out += bad()
                i += 1
            continue
        if in_ranges(c, [(0xe0, 0xef)]):
            lo = 0xa0 if bool(c == 0xe0) else 0x80
            hi = 0x9f if bool(c == 0xed) else 0xbf
            if cont(i + 1, lo, hi):
                if cont(i + 2):
                    out.append((c & 15) * 4096 + (items[i + 1] & 63) * 64 + (items[i + 2] & 63))
                    i += 3
                else:
                    out += bad()
                    i += 2
            else:
                out += bad()
                i += 1
            continue
        if in_ranges(c, [(0xf0, 0xf4)]):
            lo = 0x90 if bool(c == 0xf0) else 0x80
            hi = 0x8f if bool(c == 0xf4) else 0xbf
            if cont(i + 1, lo, hi):
                if cont(i + 2):
                    if cont(i + 3):
                        out.append((c & 7) * 262144 + (items[i + 1] & 63) * 4096
                                   + (items[i + 2] & 63) * 64 + (items[i + 3] & 63))
                        i += 4
                    else:
                        out += bad()
                        i += 3
                else:
                    out += bad()
                    i += 2
            else:
                out += bad()
                i += 1
            continue
        out += bad()
        i += 1
    return mkstr(out)


def encode_items(items, encoding, errors):
    enc = _norm_enc(encoding)

    def bad(c):
        if errors == 'ignore':
            return []
        if errors == 'replace':
            return [63]
        if errors == 'xmlcharrefreplace':
            return [38, 35] + digits_of(c, 10) + [59]
        if errors == 'backslashreplace':
            if c < 256:
                return [92, 120] + digits_of(c, 16, 2)
            if c < 0x10000:
                return [92, 117] + digits_of(c, 16, 4)
            return [92, 85] + digits_of(c, 16, 8)
        if errors == 'surrogatepass':
            return None
        raise UnicodeEncodeError(enc, '?', 0, 1, 'cannot encode')
    lim = {'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256, 'ascii': 128, 'us-ascii': 128}.get(enc)
    out = []
    if lim:
        for c in items:
            if c < lim:
                out.append(narrow(c, lim - 1))
            else:
                out += bad(c)
        return mkbytes(out)
    if enc in ('utf-8', 'utf8'):
        for c in items:
            if c < 0x80:
                out.append(narrow(c, 0x7f))
            elif c < 0x800:
                out += [192 + narrow(c >> 6, 31), 128 + (c & 63)]
            elif c < 0x10000:
                if in_ranges(c, [(0xd800, 0xdfff)]):
                    r = bad(c)
                    if r is not None:
                        out += r
                        continue
                out += [224 + narrow(c >> 12, 15), 128 + ((c >> 6) & 63), 128 + (c & 63)]
            else:
                out += [240 + narrow(c >> 18, 7), 128 + ((c >> 12) & 63), 128 + ((c >> 6) & 63), 128 + (c & 63)]
        return mkbytes(out)
    if enc in ('utf-8-sig',):
        return b'\xef\xbb\xbf' + encode_items(items, 'utf-8', errors)
    if enc in ('utf-16', 'utf16'):
        return b'\xff\xfe' + encode_items(items, 'utf-16-le', errors)
    if enc in ('utf-16be', 'utf-16-be', 'utf-16le', 'utf-16-le'):
        le = enc.endswith('le')
        units = []
        for c in items:
            if c < 0x10000:
                if in_ranges(c, [(0xd800, 0xdfff)]):
                    r = bad(c)
                    if r is not None:
                        units += [(0, x) for x in r]
                        continue
                units.append((narrow(c >> 8, 255), c & 255))
            else:
                d = c - 0x10000
                h, l = 0xd800 + narrow(d >> 10, 0x3ff), 0xdc00 + (d & 0x3ff)
                units += [(h >> 8, h & 255), (l >> 8, l & 255)]
        for a, b in units:
            out += [b, a] if le else [a, b]
        return mkbytes(out)
    return ''.join(chr(realize_int(i)) for i in items).encode(encoding, errors)


def digits_of(c, base, width=None):
    """the digits of a number that is not negative"""
    if type(c) is int:
        return _items(('%d' if base == 10 else '%%0%dx' % (width or 0)) % c)
    n = width or 1
    if width is None:
        while c >= base ** n:
            n += 1
    out = []
    for k in range(n - 1, -1, -1):
        d = narrow((c // base ** k) % base, base - 1)
        out.append(narrow(d + 48, 57) if base == 10 else narrow(ite(d < 10, d + 48, d + 87), 102))
    return out


def narrow(x, hi):
    """x known (by the path) to be in 0..hi: tighten its representation."""
    if type(x) is not SymInt or (x.lo >= 0 and x.hi <= hi):
        return x
    return mkint(_tow(x, _bits(0, hi)), max(0, x.lo), hi)


# --------------------------------------------------------------------------
# dictionaries and sets with symbolic keys
class Box:
    """A symbolic key stored in a dict/set; identity hash."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key


def key_eq(a, b):
    """Equality of two dict keys as (possibly symbolic) truth."""
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        return and_(*[key_eq(x, y) for x, y in zip(a, b)])
    if a is b:
        return True
    r = a == b
    return r


def _may_eq(a, b):
    """cheap filter"""
    ca, cb = a.__class__, b.__class__
    if ca is cb and ca in (bytes, str, tuple):
        return len(a) == len(b)
    if ca in (bytes, str, tuple) or cb in (bytes, str, tuple):
        return ca is cb
    if b is None or a is None:
        return a is b
    return True


def unbox(k):
    return k.key if type(k) is Box else k


class SDict(dict):
    """dict whose keys may be symbolic (boxed); insertion ordered."""
    __slots__ = ('nsym', '_snap', '__weakref__')
    DIRTY = {}

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.nsym = 0
        self._snap = False
        self.update(*a, **k)

    def _touch(self):
        if self._snap:
            SDict.DIRTY[id(self)] = self

    def _find(self, k):
        """stored key equal to k, or None (as a 1-tuple / None)"""
        if not has_sym(k):
            if dict.__contains__(self, k):
                return (k,)
            if not self.nsym:
                return None
            cands = [x for x in dict.keys(self) if type(x) is Box and _may_eq(k, x.key)]
        else:
            cands = [x for x in dict.keys(self) if _may_eq(k, unbox(x))]
        conds = []
        for x in cands:
            e = key_eq(k, unbox(x))
            if e is True:
                return (x,)
            if e is not False and e is not NotImplemented:
                conds.append((x, e.e))
        if not conds:
            return None
        if not C.branch(zor([c for _, c in conds])):
            return None
        for x, c in conds[:-1]:
            if C.branch(c):
                return (x,)
        return (conds[-1][0],)

    def lookup_merge(self, k):
        """(found, value) for a symbolic key, merging values into one term
        where possible and forking per distinct value otherwise."""
        conds = []
        for x in dict.keys(self):
            u = unbox(x)
            if not _may_eq(k, u):
                continue
            e = key_eq(k, u)
            if e is True:
                return True, dict.__getitem__(self, x)
            if e is not False and e is not NotImplemented:
                conds.append((e.e, dict.__getitem__(self, x)))
        return merge_lookup(conds)

    def __contains__(self, k):
        if not self.nsym and not has_sym(k):
            return dict.__contains__(self, k)
        if has_sym(k):
            return bool(self.contains_sym(k))
        return self._find(k) is not None

    def contains_sym(self, k):
        out = []
        for x in dict.keys(self):
            u = unbox(x)
            if _may_eq(k, u):
                e = key_eq(k, u)
                if e is True:
                    return True
                if e is not False and e is not NotImplemented:
                    out.append(e.e)
        return mkbool(zor(out))

    def __getitem__(self, k):
        if not self.nsym and not has_sym(k):
            return dict.__getitem__(self, k)
        if has_sym(k):
            f, v = self.lookup_merge(k)
            if not f:
                raise KeyError('<sym key>')
            return v
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        return dict.__getitem__(self, f[0])

    def get(self, k, d=None):
        if not self.nsym and not has_sym(k):
            return dict.get(self, k, d)
        try:
            return self[k]
        except KeyError:
            return d

    def __setitem__(self, k, v):
        self._touch()
        if not self.nsym and not has_sym(k):
            dict.__setitem__(self, k, v)
            return
        f = self._find(k)
        if f is not None:
            dict.__setitem__(self, f[0], v)
        elif has_sym(k):
            self.nsym += 1
            dict.__setitem__(self, Box(k), v)
        else:
            dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._touch()
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        if type(f[0]) is Box:
            self.nsym -= 1
        dict.__delitem__(self, f[0])

    def pop(self, k, *d):
        f = self._find(k)
        if f is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = dict.__getitem__(self, f[0])
        del self[unbox(f[0])]
        return v

    def popitem(self):
        self._touch()
        k, v = dict.popitem(self)
        if type(k) is Box:
            self.nsym -= 1
        return unbox(k), v

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for x, v in o.items():
                    self[x] = v
            elif hasattr(o, 'keys'):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, v in o:
                    self[x] = v
        for x, v in k.items():
            self[x] = v

    def clear(self):
        self._touch()
        self.nsym = 0
        dict.clear(self)

    def __iter__(self):
        if not self.nsym:
            return dict.__iter__(self)
        return iter([unbox(k) for k in dict.keys(self)])

    def __reversed__(self):
        return iter([unbox(k) for k in dict.keys(self)][::-1])

    def keys(self):
        return dict.keys(self) if not self.nsym else _KeysView([unbox(k) for k in dict.keys(self)], self)

    def items(self):
        return dict.items(self) if not self.nsym else [(unbox(k), v) for k, v in dict.items(self)]

    def copy(self):
        r = SDict()
        dict.update(r, self)
        r.nsym = self.nsym
        return r

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if not self.nsym and not getattr(o, 'nsym', 0):
            if len(self) != len(o):
                return False
            out = []
            for k, v in self.items():
                if k not in o:
                    return False
                r = v == o[k]
                if r is False:
                    return False
                if r is not True:
                    out.append(bexpr(r))
            return mkbool(zand(out))
        if len(self) != len(o):
            return False
        out = []
        for k, v in self.items():
            if not isinstance(o, SDict):
                o = SDict(o)
            f = o._find(k)
            if f is None:
                return False
            out.append(bexpr(v == dict.__getitem__(o, f[0])))
        return mkbool(zand(out))

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % kv for kv in self.items()) + '}'


class _KeysView(list):
    def __init__(self, ks, d):
        list.__init__(self, ks)
        self.d = d

    def __contains__(self, k):
        return k in self.d


def merge_lookup(conds):
    """conds: [(z3 cond, value)], pairwise exclusive.  -> (found, value)"""
    if not conds:
        return False, None
    if not C.branch(zor([c for c, _ in conds])):
        return False, None
    groups = []
    for c, v in conds:
        for g in groups:
            if _same(g[1], v):
                g[0].append(c)
                break
        else:
            groups.append(([c], v))
    m = merge([(zor(cs), v) for cs, v in groups[:-1]], groups[-1][1])
    if m is not NOMERGE:
        return True, m
    # merge equal-shape values, fork over the shapes
    shapes = []
    for cs, v in groups:
        key = (type(v), len(v)) if isinstance(v, (str, bytes)) else \
            (int,) if type(v) in (int, SymInt) else (type(v), id(v))
        for s in shapes:
            if s[0] == key:
                s[1].append((zor(cs), v))
                break
        else:
            shapes.append((key, [(zor(cs), v)]))
    for j, (key, lst) in enumerate(shapes):
        if j == len(shapes) - 1 or C.branch(zor([c for c, _ in lst])):
            m = merge(lst[:-1], lst[-1][1])
            if m is not NOMERGE:
                return True, m
            for c, v in lst[:-1]:
                if C.branch(c):
                    return True, v
            return True, lst[-1][1]


class SSet(set):
    """set whose elements may be symbolic (kept in an inner SDict)."""
    __slots__ = ('d', '_snap')

    def __init__(self, it=()):
        set.__init__(self)
        self.d = SDict()
        for x in it:
            self.d[x] = True

    def add(self, x):
        self.d[x] = True

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        del self.d[x]

    def pop(self):
        return self.d.popitem()[0]

    def clear(self):
        self.d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.d[x] = True

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def copy(self):
        return SSet(self)

    def union(self, *its):
        r = SSet(self)
        r.update(*its)
        return r

    def __or__(self, o):
        return self.union(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, o):
        o = o if isinstance(o, (set, frozenset, dict)) else SSet(o)
        return SSet(x for x in self if x in o)
    __and__ = intersection

    def difference(self, *os):
        r = SSet(self)
        for o in os:
            for x in o:
                r.discard(x)
        return r

    def __sub__(self, o):
        return self.difference(o)

    def __rand__(self, o):
        return self.intersection(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __ror__(self, o):
        return SSet(o).union(self)

    def symmetric_difference(self, o):
        return self.difference(o).union(SSet(o).difference(self))
    __xor__ = __rxor__ = symmetric_difference

    def intersection_update(self, o):
        self.__iand__(o)

    def difference_update(self, *os):
        for o in os:
            self.__isub__(o)

    def __iand__(self, o):
        for x in [x for x in self if x not in o]:
            self.discard(x)
        return self

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def issubset(self, o):
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def isdisjoint(self, o):
        return not any(x in o for x in self)

    def __eq__(self, o):
        return isinstance(o, (set, frozenset)) and len(o) == len(self) and all(x in self for x in o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self))
