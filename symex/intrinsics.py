"""Interception of built-ins and C library functions for symbolic arguments.

Instrumented code calls everything through `call`/`mcall`; functions implemented
in C are recognised by identity, so aliases and renamed imports make no
difference.  With concrete arguments the real function is used."""
import base64
import builtins
import codecs
import copy as _copy
import io
import json as _json
import os
import re
import struct
import types
import z3
import zlib
import array as _array
import functools
import hashlib
import html as _html
import math
import operator
import binascii
import itertools
import bisect
import collections

from .core import C, Unsupported
from .values import *
from .values import _items, _tow, _bits, _lo, _hi, _same, _q, bexpr
from . import values as V
from . import rematch

OPAQUE = '\ue000sym\ue000'
real_open = open


# --------------------------------------------------------------------------
def sx_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if issubclass(t, Sym):
            return a[0].__class__
        return _TYPEMAP.get(t, t)
    if has_sym(a[0]):
        a = ('?',) + a[1:]      # the name of a class made at run time is not modelled
    return type(*a)


def sx_isinstance(x, t):
    return isinstance(x, t)


def _tostr_items(x, kind='s'):
    """text of a value for formatting"""
    t = type(x)
    if kind == 'r':
        return _items(sx_repr(x))
    if t is SymStr:
        return x.items
    if t is SymInt:
        return _items(int_to_str(x))
    if t is SymBool:
        return _items(str(bool(x)))
    if t is SymReal:
        return _items(real_text(x))
    if issubclass(t, Sym):
        return _items(OPAQUE)
    if has_sym(x):
        return _items(exact_repr(x) if EXACT_REPR[0] else OPAQUE)
    s = str(x)
    return s.items if is_sym(s) else [ord(c) for c in s]


# texts of symbolic reals: a numeral that stands for the value (the harness finds
# the value again by the text), where a harness asks for it
NUMERALS = [None]


def real_text(x):
    if NUMERALS[0] is None:
        return OPAQUE
    for t, v in NUMERALS[0].items():
        if v.e.eq(x.e):
            return t
    t = '%d77310993.7731' % (len(NUMERALS[0]) + 1)
    NUMERALS[0][t] = x
    return t


def int_to_str(x):
    """decimal text of a symbolic int (forks over the number of digits)"""
    if type(x) is not SymInt:
        return str(x)
    neg = False
    if x.lo < 0 and bool(x < 0):
        neg = True
        x = -x
    if type(x) is not SymInt:
        return ('-' if neg else '') + str(x)
    hi = max(abs(x.hi), 0)
    n = 1
    while 10 ** n <= hi and not bool(x < 10 ** n):
        n += 1
    if x.lo < 0:
        x = narrow(x, hi)
    out = []
    for i in range(n - 1, -1, -1):
        d = (x // 10 ** i) % 10 if type(x) is SymInt else (x // 10 ** i) % 10
        out.append(d + 48)
    return mkstr(([45] if neg else []) + out)


def sx_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        if type(x) in (SymBytes, SymByteArray):
            enc = a[1] if len(a) > 1 else k.get('encoding', 'utf-8')
            err = a[2] if len(a) > 2 else k.get('errors', 'strict')
            return x.decode(enc, err)
        return str(*a, **k)
    t = type(x)
    if t is SymStr:
        return x
    if issubclass(t, Sym) or has_sym(x):
        return mkstr(_tostr_items(x))
    if t in (int, float, bytes, str):
        return str(x)
    if t in (list, tuple, dict) and EXACT_REPR[0]:
        return exact_repr(x)
    f = getattr(t, '__str__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    if f is object.__str__ or (isinstance(x, BaseException)):
        if isinstance(x, BaseException):
            if len(x.args) == 1:
                return sx_str(x.args[0])
            return str(x)
        g = getattr(t, '__repr__', None)
        if isinstance(g, types.FunctionType):
            return g(x)
    return str(x)


# the exact repr of symbolic values forks on every character: only where a
# harness asks for it; elsewhere (messages) a placeholder stands for it
EXACT_REPR = [False]


def _repr_sym(x):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if t in (tuple, list):
        return any(_repr_sym(i) for i in x)
    if t is dict:
        return any(_repr_sym(k) or _repr_sym(v) for k, v in x.items())
    return isinstance(getattr(t, '__repr__', None), types.FunctionType)


_unprintable = []


def _printable(c):
    """is a character from 127 on printable"""
    if not _unprintable:
        start = None
        for k in range(127, 0x110001):
            bad = k < 0x110000 and not chr(k).isprintable()
            if bad and start is None:
                start = k
            elif not bad and start is not None:
                _unprintable.append((start, k - 1))
                start = None
    return not bool(V.or_(*[V.and_(c >= a, c <= b) if a < b else c == a for a, b in _unprintable]))


def _quoted(x, isb):
    its = list(x.items)
    q = 39
    if any(bool(c == 39) for c in its) and not any(bool(c == 34) for c in its):
        q = 34
    out = [98] if isb else []
    out.append(q)

    def hexa(c, n):
        for i in range(n - 1, -1, -1):
            d = (c >> 4 * i) & 15
            out.append(_ite(d < 10, d + 48, d + 87))
    for c in its:
        if bool(c == q) or bool(c == 92):
            out.extend([92, c])
        elif bool(c == 10):
            out.extend([92, 110])
        elif bool(c == 13):
            out.extend([92, 114])
        elif bool(c == 9):
            out.extend([92, 116])
        elif bool(V.and_(c >= 32, c < 127)):
            out.append(c)
        elif isb or not bool(c >= 127):
            out.extend([92, 120])
            hexa(c, 2)
        elif _printable(c):
            out.append(c)
        elif bool(c < 256):
            out.extend([92, 120])
            hexa(c, 2)
        elif bool(c < 65536):
            out.extend([92, 117])
            hexa(c, 4)
        else:
            out.extend([92, 85])
            hexa(c, 8)
    out.append(q)
    return mkstr(out)


def _ite(c, a, b):
    return V.ite(c, a, b) if type(c) is SymBool else a if c else b


def exact_repr(x):
    t = type(x)
    if t is SymStr:
        return _quoted(x, False)
    if t is SymBytes:
        return _quoted(x, True)
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return str(bool(x))
    if not _repr_sym(x):
        return repr(x)

    def join(xs, a, b):
        out = [a]
        for i, its in enumerate(xs):
            out += ([44, 32] if i else []) + its
        return mkstr(out + [b])
    one = lambda v: list(_items(exact_repr(v)))
    if t is list:
        return join(map(one, x), 91, 93)
    if t is tuple:
        if len(x) == 1:
            return mkstr([40] + one(x[0]) + [44, 41])
        return join(map(one, x), 40, 41)
    if t is dict:
        return join((one(k) + [58, 32] + one(v) for k, v in x.items()), 123, 125)
    if t is SymReal:
        return real_text(x)
    g = getattr(t, '__repr__', None)
    if isinstance(g, types.FunctionType) and not issubclass(t, Sym):
        return g(x)
    return OPAQUE


def sx_repr(x):
    if EXACT_REPR[0]:
        return exact_repr(x)
    if issubclass(type(x), Sym) or has_sym(x):
        return OPAQUE
    return repr(x)


def _sdigits(items, i, n):
    """value of decimal digit items[i:n] (all known digits)"""
    v = 0
    for c in items[i:n]:
        v = v * 10 + (c - 48 if type(c) is int else V.mkint(_tow(c - 48, 4), 0, 9))
    return v


def _is(c, rngs):
    return bool(in_ranges(c, rngs))


def _int10(items, isstr):
    ws = V.WS_S if isstr else V.WS_B
    a, n = 0, len(items)

    def hi(c):
        if isstr and not (c < 128):
            if in_ranges(c, V.WS_S):
                return True
            raise Unsupported('int() of non-ASCII text')
        return False
    while a < n and (_is(items[a], ws)):
        a += 1
    while n > a and (_is(items[n - 1], ws)):
        n -= 1
    neg = False
    if a < n and _is(items[a], [(43, 43), (45, 45)]):
        neg = bool(items[a] == 45)
        a += 1
    digs = []
    prev_us = True
    for j in range(a, n):
        c = items[j]
        if _is(c, [(48, 57)]):
            digs.append(c)
            prev_us = False
        elif not prev_us and bool(c == 95) and j + 1 < n:
            prev_us = True
        else:
            hi(c)
            raise ValueError('invalid literal for int() with base 10')
    if not digs or prev_us:
        raise ValueError('invalid literal for int() with base 10')
    v = _sdigits(digs, 0, len(digs))
    return -v if neg else v


HEXR = [(48, 57), (65, 70), (97, 102)]


def hexval(c):
    if type(c) is int:
        return int(chr(c), 16)
    # c is known to be a hex digit: letters have bit 6 set
    return V.ite(c <= 57, V.mkint(_tow(c, 4), 0, 15), V.mkint(_tow((c & 7) + 9, 4), 0, 15))


def sx_int(*a, **k):
    if not a or k or not (has_sym(a[0]) or (len(a) > 1 and has_sym(a[1]))):
        if a and not k and type(a[0]) not in (int, str, bytes, float, bytearray):
            f = getattr(type(a[0]), '__int__', None)
            if isinstance(f, types.FunctionType):
                return f(a[0])
        return int(*a, **k)
    x = a[0]
    t = type(x)
    if len(a) == 1:
        if t is SymInt:
            return x
        if t is SymBool:
            return x._int()
        if t is SymReal:
            return V.trunc(x)
        if issubclass(t, SymSeq):
            return _int10(x.items, t is SymStr)
        raise TypeError('int() argument')
    base = realize(a[1])
    if not issubclass(t, SymSeq):
        raise TypeError("int() can't convert non-string with explicit base")
    items = x.items
    if base == 10:
        return _int10(items, t is SymStr)
    if base in (16, 8, 2) and items:
        dr = {16: HEXR, 8: [(48, 55)], 2: [(48, 49)]}[base]
        if all(_is(c, dr) for c in items):
            v = 0
            for c in items:
                v = v * base + (hexval(c) if base == 16 else
                                (c - 48 if type(c) is int else V.mkint(_tow(c, 3), 0, 7)))
            return v
        # anything else that could be part of a number?
        other = [(9, 13), (32, 32), (43, 43), (45, 45), (95, 95)] + \
            {16: [(88, 88), (120, 120)], 8: [(79, 79), (111, 111)], 2: [(66, 66), (98, 98)]}[base]
        for c in items:
            if not (_is(c, dr) or _is(c, other)):
                if t is SymStr and not bool(c < 128):
                    raise Unsupported('int() of non-ASCII text')
                raise ValueError('invalid literal for int()')
    return int(x._realize(), base)


def sx_float(*a):
    if not a or not has_sym(a[0]):
        return float(*a)
    x = a[0]
    t = type(x)
    if t in (SymInt, SymBool):
        return V.toreal(x, isint=False)
    if t is SymReal:
        return SymReal(x.e, False)
    if issubclass(t, SymSeq):
        items = x.items
        ws = V.WS_S if t is SymStr else V.WS_B
        i, n = 0, len(items)
        while i < n and _is(items[i], ws):
            i += 1
        while n > i and _is(items[n - 1], ws):
            n -= 1
        neg = False
        if i < n and _is(items[i], [(43, 43), (45, 45)]):
            neg = bool(items[i] == 45)
            i += 1
        ip, fp, dot = [], [], False
        ok = True
        for c in items[i:n]:
            if _is(c, [(48, 57)]):
                (fp if dot else ip).append(c)
            elif not dot and bool(c == 46):
                dot = True
            else:
                ok = False
                break
        if ok:
            if not ip and not fp:
                raise ValueError('could not convert string to float')
            v = V.toreal(_sdigits(ip + fp, 0, len(ip) + len(fp)), isint=False)
            if fp:
                v = SymReal(v.e / _q(10 ** len(fp)))
            if type(v) is SymReal and z3.is_rational_value(z3.simplify(v.e)):
                s = ''.join(map(chr, ip)) if all(type(c) is int for c in ip + fp) else None
                if s is not None:
                    return float(('-' if neg else '') + s + '.' + ''.join(map(chr, fp)) + '0')
            return -v if neg else v
        for c in items[i:n]:
            if not _is(c, [(48, 57), (46, 46), (43, 43), (45, 45), (95, 95)]) and \
                    not bool(or_(*[c == y for y in b'eEinfatyINFATY'])):
                if t is SymStr and not bool(c < 128):
                    raise Unsupported('float() of non-ASCII text')
                raise ValueError('could not convert string to float')
        return float(x._realize())
    raise TypeError('float() argument')


def sx_bool(*a):
    if not a:
        return False
    t = V.truth(a[0])
    return t


def sx_bytes(*a, **k):
    if not a or k:
        return bytes(*a, **k)
    x = a[0]
    t = type(x)
    if t is SymBytes:
        return x
    if t is SymByteArray:
        return mkbytes(x.items)
    if t is SymStr:
        if len(a) < 2:
            raise TypeError('string argument without an encoding')
        return x.encode(*a[1:])
    if t in (str,):
        return bytes(*a)
    if t in (SymInt, SymBool):
        return bytes(realize_int(x))
    if t in (int, bytes, bytearray, memoryview, bool):
        return bytes(*a)
    f = getattr(t, '__bytes__', None)
    if f is not None:
        return f(x)
    items = list(x)
    if not has_sym(items):
        return bytes(items)
    for i in items:
        if not 0 <= i <= 255:
            raise ValueError('bytes must be in range(0, 256)')
    return mkbytes([narrow(i, 255) for i in items])


def sx_bytearray(*a, **k):
    r = sx_bytes(*a, **k)
    return SymByteArray(list(_items(r)))


def sx_ord(x):
    t = type(x)
    if t in (SymStr, SymBytes, SymByteArray):
        if len(x.items) != 1:
            raise TypeError('ord() expected a character')
        return x.items[0]
    return ord(x)


def sx_chr(x):
    if type(x) is SymInt:
        if not (0 <= x <= 0x10ffff):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr([narrow(x, 0x10ffff)])
    if type(x) is SymBool:
        return chr(realize_int(x))
    return chr(x)


def sx_round(x, n=None):
    if type(x) in (SymReal, SymInt):
        return V.sround(x, n)
    return round(x, n) if n is not None else round(x)


def sx_abs(x):
    return abs(x)


def _minmax(args, k, better):
    key = k.get('key')
    if len(args) == 1:
        args = list(args[0])
        if not args:
            if 'default' in k:
                return k['default']
            raise ValueError('arg is an empty sequence')
    if not has_sym(list(args)) and key is None:
        return (min if better == 'min' else max)(args)
    it = iter(args)
    best = next(it)
    kb = call(key, best) if key else best
    for x in it:
        kx = call(key, x) if key else x
        c = kx < kb if better == 'min' else kx > kb
        if key is None and type(c) is SymBool:
            best = kb = V.ite(c, x, best)
        elif c:
            best, kb = x, kx
    return best


def sx_min(*a, **k):
    return _minmax(a, k, 'min')


def sx_max(*a, **k):
    return _minmax(a, k, 'max')


def sx_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def sx_map(f, *its):
    if len(its) == 1:
        for x in its[0]:
            yield call(f, x)
    else:
        for xs in zip(*its):
            yield call(f, *xs)


def sx_filter(f, it):
    for x in it:
        if (call(f, x) if f is not None else x):
            yield x


class SxRange:
    """range with a symbolic start: elements stay symbolic, its end forks"""

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def _real(self):
        return range(realize_int(self.a), realize_int(self.b))

    def __iter__(self):
        i = self.a
        while i < self.b:
            yield i
            i = i + 1

    def __len__(self):
        return max(0, realize_int(self.b - self.a))

    def __contains__(self, x):
        return bool(self.a <= x) and bool(x < self.b)

    def __getitem__(self, i):
        return self._real()[i]

    def __reversed__(self):
        return reversed(self._real())


def sx_range(*a):
    if len(a) == 2 and type(a[0]) is SymInt:
        return SxRange(*a)
    return range(*[realize_int(x) for x in a])


def sx_len(x):
    return len(x)


def sx_hash(x):
    return hash(x)


def sx_pow(a, b, m=None):
    return pow(realize(a), realize(b), m) if m is not None else a ** b


def sx_divmod(a, b):
    return divmod(a, b)


def sx_hex(x):
    return hex(realize_int(x))


def sx_oct(x):
    return oct(realize_int(x))


def sx_bin(x):
    return bin(realize_int(x))


def sx_format(x, spec=''):
    if has_sym(x):
        return _fmt_spec(x, spec)
    return format(x, spec)


def _fmt_spec(x, spec):
    spec = realize(spec)
    if not spec or spec == 's' or (spec == 'd' and type(x) is SymInt):
        return mkstr(_tostr_items(x))
    if type(x) is SymStr and spec[0:1] in '<>^' or spec.isdigit():
        return format(realize(x), spec)
    if type(x) is SymInt:
        m = re.fullmatch(r'0?(\d*)([xXd])', spec)
        if m and x.lo >= 0:
            w = int(m.group(1) or 0)
            zero = spec[0] == '0'
            if m.group(2) == 'd':
                s = int_to_str(x)
            else:
                base = 97 if m.group(2) == 'x' else 65
                n = 1
                while 16 ** n <= x.hi and not bool(x < 16 ** n):
                    n += 1
                its = []
                for i in range(n - 1, -1, -1):
                    d = (x >> (4 * i)) & 15
                    its.append(V.ite(d < 10, d + 48, d + (base - 10)))
                s = mkstr(its)
            pad = w - len(s)
            return ('0' if zero else ' ') * pad + s if pad > 0 else s
        return format(realize_int(x), spec)
    return OPAQUE


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out += [ord(c) for c in p]
            continue
        v, conv, spec = p
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            v = ascii(v) if not has_sym(v) else OPAQUE
        if spec:
            r = sx_format(v, spec)
        elif type(v) is SymStr:
            r = v
        elif has_sym(v):
            r = mkstr(_tostr_items(v))
        elif type(v).__format__ is object.__format__:
            r = sx_str(v)
        else:
            r = format(v, '')
        out += _items(r)
    return mkstr(out)


_PCT = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', re.S)


def sx_mod(a, b):
    ta = type(a)
    if ta in (str, bytes) or ta in (SymStr, SymBytes):
        args = b if isinstance(b, tuple) else (b,)
        mp = b if isinstance(b, dict) else None
        if ta in (str, bytes) and not any(has_sym(x) or type(x) in _DEEP for x in args) and mp is None:
            return a % b
        isb = ta in (bytes, SymBytes)
        if ta in (SymStr, SymBytes):
            raise Unsupported('symbolic format string')
        f = a.decode('latin-1') if isb else a
        out = []
        pos = ai = 0
        for m in _PCT.finditer(f):
            out += [ord(c) for c in f[pos:m.start()]]
            pos = m.end()
            key, flags, width, prec, conv = m.groups()
            if conv == '%':
                out.append(37)
                continue
            if key is not None:
                v = mp[key]
            else:
                if ai >= len(args):
                    raise TypeError('not enough arguments for format string')
                v = args[ai]
                ai += 1
            if isb and conv in 's' and isinstance(v, (bytes, bytearray)):
                out += _items(v)
                continue
            if not has_sym(v) and conv not in 's':
                out += [ord(c) for c in m.group(0).replace('(%s)' % key, '') % (v,)] if conv != 'r' else _items(sx_repr(v))
                continue
            if conv in 'di':
                v = sx_int(v) if type(v) is SymReal else v
                if type(v) is SymReal:
                    s = OPAQUE
                else:
                    s = sx_format(v, flags + (width or '') + 'd') if width else int_to_str(v)
            elif conv in 'xX':
                s = sx_format(v, flags + (width or '') + conv)
            elif conv in 'rR':
                s = sx_repr(v)
            elif conv == 's':
                s = sx_str(v)
            elif conv == 'c':
                s = v if isinstance(v, (str, bytes)) else (mkbytes([v]) if isb else sx_chr(v))
            else:
                s = OPAQUE
            its = _items(s)
            if width and width != '*' and len(its) < int(width) and conv in 'sr':
                padn = [32] * (int(width) - len(its))
                its = its + padn if '-' in flags else padn + its
            out += its
        if mp is None and ai < len(args):
            raise TypeError('not all arguments converted during string formatting')
        out += [ord(c) for c in f[pos:]]
        return mkbytes(out) if isb else mkstr(out)
    return a % b


_DEEP = ()


# --------------------------------------------------------------------------
def sx_in(x, c):
    t = type(c)
    if t is SDict:
        if has_sym(x):
            return c.contains_sym(x)
        return x in c
    if issubclass(t, SymSeq):
        if issubclass(t, SymSeq) and t is SymStr and not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        return c._contains(x)
    if t in (bytes, bytearray):
        if is_sym(x):
            if isinstance(x, int):
                rngs = rematch._norm([(b, b) for b in set(c)])
                return in_ranges(x, rngs)
            return SymBytes(list(c))._contains(x)
        return x in c
    if t is str:
        if is_sym(x):
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left operand")
            if len(x) == 1:
                return in_ranges(x.items[0], rematch._norm([(ord(b), ord(b)) for b in set(c)]))
            return SymStr([ord(b) for b in c])._contains(x)
        return x in c
    if t in (tuple, list):
        if has_sym(x) or has_sym(c):
            out = []
            for y in c:
                r = True if x is y else (x == y)
                if r is True:
                    return True
                if type(r) is SymBool:
                    out.append(r.e)
                elif r is not False and r is not NotImplemented and r:
                    return True
            return mkbool(zor(out))
        return x in c
    if t in (set, frozenset, dict):
        if has_sym(x):
            out = []
            for y in c:
                if V._may_eq(x, y):
                    r = V.key_eq(x, y)
                    if r is True:
                        return True
                    if r is not False and r is not NotImplemented:
                        out.append(r.e)
            return mkbool(zor(out))
        return x in c
    if t is range and is_sym(x):
        if c.step == 1:
            return and_(x >= c.start, x < c.stop)
        return or_(*[x == y for y in c])
    if t is type({}.keys()) and has_sym(x):
        return sx_in(x, list(c))
    f = getattr(t, '__contains__', None)
    if isinstance(f, types.FunctionType):
        return f(c, x)
    return x in c


def sx_notin(x, c):
    return not_(sx_in(x, c))


def sx_get(v, k):
    t = type(v)
    tk = type(k)
    if t is SDict:
        return v[k]
    if issubclass(tk, Sym):
        if t in (bytes, bytearray) and tk is SymInt:
            return V.index_items(list(v), k)
        if t in (tuple, list) and tk is SymInt:
            return V.index_items(v, k)
        if t is str and tk is SymInt:
            return mkstr([V.index_items([ord(c) for c in v], k)])
        if t is range and tk is SymInt:
            return v[realize_int(k)]
        if isinstance(v, dict) and not isinstance(v, SDict):
            return _dict_get(v, k)
    elif tk is tuple and isinstance(v, dict) and has_sym(k):
        return _dict_get(v, k)
    return v[k]


def _dict_get(v, k):
    f, r = _dict_find(v, k)
    if not f:
        mi = getattr(type(v), '__missing__', None)
        if mi is not None:
            return mi(v, k)
        raise KeyError('<sym key>')
    return r


def _dict_find(v, k):
    conds = []
    for x, val in v.items():
        if V._may_eq(k, x):
            e = V.key_eq(k, x)
            if e is True:
                return True, val
            if e is not False and e is not NotImplemented:
                conds.append((e.e, val))
    return V.merge_lookup(conds)


def sx_mkdict(pairs):
    d = SDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def sx_sdict(d):
    r = SDict()
    dict.update(r, d)
    return r


def sx_dict(*a, **k):
    return SDict(*a, **k)


def sx_set(*a):
    return SSet(*a)


def sx_frozenset(*a):
    r = SSet(*a)
    return r if r.d.nsym else frozenset(r)


# --------------------------------------------------------------------------
# struct
_SZ = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'x': 1,
       'c': 1, '?': 1, 'f': 4, 'd': 8, 's': 1, 'n': 8, 'N': 8}


def _fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    fmt = realize(fmt)
    struct.calcsize(fmt)
    mode = '@'
    i = 0
    if fmt and fmt[0] in '@=<>!':
        mode = fmt[0]
        i = 1
    big = mode in '>!'
    out = []
    off = 0
    for m in re.finditer(r'\s*(\d*)([a-zA-Z?])', fmt[i:]):
        n = int(m.group(1)) if m.group(1) else 1
        ch = m.group(2)
        sz = _SZ[ch]
        if mode == '@':
            sz = {'l': 8, 'L': 8}.get(ch, sz)
            if ch not in 'sxcbB?':
                off = (off + sz - 1) // sz * sz
        if ch == 's':
            out.append(('s', off, n))
            off += n
        elif ch == 'x':
            off += n
        else:
            for _ in range(n):
                out.append((ch, off, sz))
                off += sz
    return big, out, struct.calcsize(fmt)


def _unpack_items(fmt, its):
    big, fs, size = _fmt(fmt)
    if len(its) != size:
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    out = []
    for ch, off, sz in fs:
        b = its[off:off + sz]
        if ch == 's' or ch == 'c':
            out.append(mkbytes(b))
            continue
        if all(type(x) is int for x in b):
            out.append(struct.unpack(('>' if big else '<') + {8: {'l': 'q', 'L': 'Q'}}.get(sz, {}).get(ch, ch), bytes(b))[0])
            continue
        if ch in 'fd':
            out.append(struct.unpack(('>' if big else '<') + ch, bytes(realize_int(x) for x in b))[0])
            continue
        if ch == '?':
            out.append(b[0] != 0)
            continue
        if not big:
            b = b[::-1]
        bits = [x.e if type(x) is not int else z3.BitVecVal(x, 8) for x in
                [y if type(y) is int else V.SymInt(_tow(y, 8), 0, 255) for y in b]]
        e = z3.Concat(*bits) if len(bits) > 1 else bits[0]
        n = 8 * sz
        if ch.isupper():
            out.append(V.mkint(e, 0, (1 << n) - 1))
        else:
            out.append(V.mkint(e, -(1 << (n - 1)), (1 << (n - 1)) - 1))
    return tuple(out)


def sx_unpack(fmt, data):
    if not has_sym(data) and type(data) is not SymByteArray:
        return struct.unpack(realize(fmt), data)
    if isinstance(data, str):
        raise TypeError("a bytes-like object is required, not 'str'")
    return _unpack_items(fmt, _items(data))


def sx_unpack_from(fmt, data, offset=0):
    offset = realize_int(offset)
    if not issubclass(type(data), Sym):
        return struct.unpack_from(realize(fmt), data, offset)
    n = struct.calcsize(realize(fmt))
    its = _items(data)
    if offset < 0:
        offset += len(its)
    if len(its) - offset < n:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % (offset + n))
    return _unpack_items(fmt, its[offset:offset + n])


def sx_iter_unpack(fmt, data):
    n = struct.calcsize(realize(fmt))
    for i in range(0, len(data), n):
        yield sx_unpack(fmt, data[i:i + n])


def sx_pack(fmt, *args):
    if not any(has_sym(a) for a in args):
        return struct.pack(realize(fmt), *args)
    big, fs, size = _fmt(fmt)
    if len(fs) != len(args):
        raise struct.error('pack expected %d items' % len(fs))
    out = [0] * size
    for (ch, off, sz), v in zip(fs, args):
        if ch in 'sc':
            its = _items(v)[:sz]
            out[off:off + len(its)] = its
            continue
        if ch in 'fd?':
            b = list(struct.pack(('>' if big else '<') + ch, realize(v)))
            out[off:off + sz] = b
            continue
        if not isinstance(v, int):
            raise struct.error('required argument is not an integer')
        lo, hi = (0, (1 << 8 * sz) - 1) if ch.isupper() else (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1)
        if not (lo <= v <= hi):
            raise struct.error('format requires %d <= number <= %d' % (lo, hi))
        if type(v) is SymReal:
            v = realize_int(v)
        b = [((v >> (8 * i)) & 255) for i in range(sz)]
        if big:
            b.reverse()
        out[off:off + sz] = b
    return mkbytes(out)


class SxStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def unpack(self, d):
        return sx_unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return sx_unpack_from(self.format, d, offset)

    def pack(self, *a):
        return sx_pack(self.format, *a)


# --------------------------------------------------------------------------
# files
class SxBytesIO:
    """io.BytesIO over possibly symbolic bytes; also a virtual file."""
    mode = 'rb'

    def __init__(self, data=b'', on_close=None, name=None):
        self._b = list(_items(data))
        self._sym = has_sym(self._b)
        self._p = 0
        self.closed = False
        self._oc = on_close
        self.name = name

    def _ck(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def readable(self):
        return True
    writable = seekable = readable

    def read(self, n=-1):
        self._ck()
        n = -1 if n is None else realize_int(n)
        if n < 0:
            r = self._b[self._p:]
        else:
            r = self._b[self._p:self._p + n]
        self._p += len(r)
        return mkbytes(r)
    read1 = read

    def readline(self, n=-1):
        self._ck()
        n = -1 if n is None else realize_int(n)
        i = self._p
        e = len(self._b) if n < 0 else min(len(self._b), i + n)
        while i < e:
            i += 1
            if self._b[i - 1] == 10:
                break
        r = self._b[self._p:i]
        self._p = i
        return mkbytes(r)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def seek(self, o, w=0):
        self._ck()
        o = realize_int(o)
        if w == 0:
            if o < 0:
                raise ValueError('negative seek value %d' % o)
            self._p = o
        elif w == 1:
            self._p = max(0, self._p + o)
        else:
            self._p = max(0, len(self._b) + o)
        return self._p

    def tell(self):
        self._ck()
        return self._p

    def write(self, d):
        self._ck()
        if isinstance(d, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        its = _items(d)
        if self._p > len(self._b):
            self._b += [0] * (self._p - len(self._b))
        self._b[self._p:self._p + len(its)] = its
        self._p += len(its)
        return len(its)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def truncate(self, n=None):
        n = self._p if n is None else realize_int(n)
        del self._b[n:]
        return n

    def getvalue(self):
        self._ck()
        return mkbytes(self._b)

    def getbuffer(self):
        return mkbytes(self._b)

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            self.closed = True
            if self._oc:
                self._oc(mkbytes(self._b))

    def __enter__(self):
        self._ck()
        return self

    def __exit__(self, *a):
        self.close()


class SxStringIO:
    mode = 'w'
    encoding = 'utf-8'

    def __init__(self, data='', newline='\n', on_close=None, name=None, encoding='utf-8', errors='strict'):
        self._b = list(_items(data))
        self._p = 0
        self.closed = False
        self._oc = on_close
        self.name = name
        self._enc = encoding
        self._err = errors

    def _ck(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def readable(self):
        return True
    writable = seekable = readable

    def write(self, s):
        self._ck()
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % s.__class__.__name__)
        its = _items(s)
        if self._oc is not None:
            # a real text file encodes while writing
            mkstr(its).encode(self._enc, self._err)
        self._b[self._p:self._p + len(its)] = its
        self._p += len(its)
        return len(its)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def read(self, n=-1):
        self._ck()
        r = self._b[self._p:] if n is None or n < 0 else self._b[self._p:self._p + n]
        self._p += len(r)
        return mkstr(r)

    def readline(self):
        i = self._p
        while i < len(self._b):
            i += 1
            if self._b[i - 1] == 10:
                break
        r = self._b[self._p:i]
        self._p = i
        return mkstr(r)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def readlines(self):
        return list(self)

    def seek(self, o, w=0):
        o = realize_int(o)
        self._p = o if w == 0 else (self._p + o if w == 1 else len(self._b) + o)
        return self._p

    def tell(self):
        return self._p

    def truncate(self, n=None):
        n = self._p if n is None else n
        del self._b[n:]
        return n

    def getvalue(self):
        return mkstr(self._b)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            if self._oc:
                self._oc(mkstr(self._b).encode(self._enc, self._err))

    def __enter__(self):
        self._ck()
        return self

    def __exit__(self, *a):
        self.close()


VFS = {}          # path -> bytes value (per path; reset by the runner)


def _vpath(p):
    if hasattr(p, '__fspath__'):
        p = p.__fspath__()
    if isinstance(p, bytes):
        p = realize(p).decode()
    return os.path.normpath(os.path.join('/', realize(p))) if isinstance(p, str) else p


READ_ROOTS = []


def sx_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    if isinstance(file, int):
        raise Unsupported('open of a descriptor')
    p = _vpath(file)
    mode = realize(mode)
    if 'w' in mode or 'a' in mode or 'x' in mode or '+' in mode:
        if os.path.dirname(p) not in VFS_DIRS and not any(p.startswith(d + '/') for d in VFS_DIRS):
            if not os.path.isdir(os.path.dirname(p)):
                raise FileNotFoundError(2, 'No such file or directory', p)
        old = b''
        if 'a' in mode or '+' in mode and 'w' not in mode:
            old = VFS.get(p, b'')

        def oc(v, p=p):
            VFS[p] = v
        if 'x' in mode and p in VFS:
            raise FileExistsError(17, 'File exists', p)
        VFS[p] = old
        if 'b' in mode:
            f = SxBytesIO(old, oc, p)
        else:
            f = SxStringIO(old.decode() if old else '', on_close=oc, name=p,
                           encoding=encoding or 'utf-8', errors=errors or 'strict')
        f.mode = mode
        if 'a' in mode:
            f.seek(0, 2)
        return f
    if p in VFS:
        d = VFS[p]
        if 'b' in mode:
            f = SxBytesIO(d, None, p)
        else:
            f = SxStringIO(d.decode(encoding or 'utf-8'), name=p)
        f.mode = mode
        return f
    if any(p == d or p.startswith(d + '/') for d in VFS_DIRS):
        raise FileNotFoundError(2, 'No such file or directory', p)
    return real_open(file, mode, buffering, encoding, errors, newline, *a, **k)


VFS_DIRS = ['/sxvfs']


def sx_exists(p):
    q = _vpath(p)
    if q in VFS or q in VFS_DIRS:
        return True
    if any(q.startswith(d + '/') for d in VFS_DIRS):
        return q in VFS_MADE
    return os.path.exists(p)


VFS_MADE = set()


def sx_isdir(p):
    q = _vpath(p)
    if any(q == d or q.startswith(d + '/') for d in VFS_DIRS):
        return q in VFS_DIRS or q in VFS_MADE
    return os.path.isdir(p)


def sx_mkdirs(p, *a, **k):
    q = _vpath(p)
    VFS_MADE.add(q)


def sx_osjoin(a, *ps):
    if has_sym(a) or any(has_sym(p) for p in ps):
        r = a
        for p in ps:
            if p.startswith('/'):
                r = p
            elif not r or r.endswith('/'):
                r = r + p
            else:
                r = r + '/' + p
        return r
    return os.path.join(a, *ps)


def sx_ossplit(p):
    if has_sym(p):
        i = p.rfind('/') + 1
        return p[:i], p[i:]     # trailing separators of the head are kept
    return os.path.split(p)


def sx_basename(p):
    return sx_ossplit(p)[1] if has_sym(p) else os.path.basename(p)


def sx_isabs(p):
    return p.startswith('/')


# --------------------------------------------------------------------------
class SxArray:
    """array.array (integer type codes)"""
    RNG = {'b': (-128, 127), 'B': (0, 255), 'h': (-32768, 32767), 'H': (0, 65535),
           'i': (-2 ** 31, 2 ** 31 - 1), 'I': (0, 2 ** 32 - 1), 'l': (-2 ** 63, 2 ** 63 - 1),
           'L': (0, 2 ** 64 - 1)}

    def __init__(self, typecode, init=()):
        self.typecode = typecode
        self.lo, self.hi = self.RNG[typecode]
        self.itemsize = _array.array(typecode).itemsize
        self.d = []
        if isinstance(init, (bytes, bytearray)):
            self.frombytes(init)
        else:
            for x in init:
                self.append(x)

    def _ck(self, x):
        if not isinstance(x, int):
            raise TypeError('an integer is required')
        if not (self.lo <= x <= self.hi):
            raise OverflowError('array item out of range')
        return x

    def frombytes(self, b):
        if self.itemsize != 1:
            raise Unsupported('array.frombytes')
        for x in b:
            self.d.append(x if self.lo == 0 else (x - 256 if x > 127 else x))

    def append(self, x):
        self.d.append(self._ck(x))

    def extend(self, it):
        for x in it:
            self.append(x)

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.d)

    def __getitem__(self, k):
        if isinstance(k, slice):
            r = SxArray(self.typecode)
            r.d = self.d[k]
            return r
        return self.d[k] if type(k) is not SymInt else V.index_items(self.d, k)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.d[k] = list(v)
        else:
            self.d[k] = self._ck(v)

    def tobytes(self):
        if self.itemsize != 1:
            raise Unsupported('array.tobytes')
        return mkbytes([x & 255 for x in self.d])

    def tolist(self):
        return list(self.d)

    def __eq__(self, o):
        return len(self.d) == len(o) and and_(*[a == b for a, b in zip(self.d, o)])

    __hash__ = None

    def __add__(self, o):
        r = SxArray(self.typecode)
        r.d = self.d + o.d
        return r

    def __mul__(self, n):
        r = SxArray(self.typecode)
        r.d = self.d * realize_int(n)
        return r
    __rmul__ = __mul__

    def __iadd__(self, o):
        self.extend(o)
        return self

    def pop(self, i=-1):
        return self.d.pop(i)

    def insert(self, i, x):
        self.d.insert(i, self._ck(x))


# --------------------------------------------------------------------------
# hashing and ciphers: uninterpreted, functionally consistent
_UF = {}
_FACTS = []


def _bvcat(items):
    if not items:
        return z3.BitVecVal(0, 8)
    bits = [z3.BitVecVal(x, 8) if type(x) is int else _tow(x, 8) for x in items]
    return z3.simplify(z3.Concat(*bits)) if len(bits) > 1 else bits[0]


def _uf(name, n_in, n_out):
    k = (name, n_in, n_out)
    if k not in _UF:
        _UF[k] = z3.Function('%s_%d' % (name, n_in), z3.BitVecSort(max(8, 8 * n_in)), z3.BitVecSort(8 * n_out))
    return _UF[k]


def _link(pairs):
    """applications whose argument can be a concrete input have its value there
    (an argument that is itself the whole output of another application is left out)"""
    out = []
    for arg, b, e, v in pairs:
        if z3.is_app(arg) and arg.decl().kind() == z3.Z3_OP_UNINTERPRETED and arg.num_args():
            continue
        c = z3.simplify(arg == _bvcat(list(b)))
        if not z3.is_false(c):
            out.append(z3.Implies(c, e == _bvcat(list(v))))
    if out:
        C.assume(z3.And(*out) if len(out) > 1 else out[0])


def _uf_bytes(name, items, n_out, real):
    """bytes of the uninterpreted function `name`; concrete inputs use `real`."""
    k = (name, len(items))
    facts = C.uf_facts.setdefault(k, {})
    apps = C.uf_apps.setdefault(k, {})
    if all(type(i) is int for i in items):
        key = bytes(items)
        v = facts.get(key)
        if v is None:
            v = facts[key] = real(key)
            _link([(arg, items, e, v) for arg, e in apps.values()])
        return v
    f = _uf(name, len(items), n_out)
    arg = _bvcat(items)
    e = f(arg)
    if e.get_id() not in apps:
        apps[e.get_id()] = (arg, e)
        _link([(arg, list(b), e, v) for b, v in facts.items()])
    return mkbytes([V.mkint(z3.Extract(8 * (n_out - i) - 1, 8 * (n_out - i - 1), e), 0, 255) for i in range(n_out)])


class SxHash:
    def __init__(self, name, n, realf, data=b''):
        self.name = name
        self.digest_size = n
        self._n = n
        self._r = realf
        self._b = list(_items(data))

    def update(self, d):
        if isinstance(d, str):
            raise TypeError('Strings must be encoded before hashing')
        self._b += _items(d)

    def digest(self):
        return _uf_bytes('uf_' + self.name, self._b, self._n, self._r)

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return SxHash(self.name, self._n, self._r, mkbytes(self._b))


def _mkhash(name, n):
    real = getattr(hashlib, name)

    def f(data=b'', **k):
        return SxHash(name, n, lambda b: real(b).digest(), data)
    return f


class SxRC4:
    def __init__(self, key, *a, **k):
        from Crypto.Cipher import ARC4
        if not 1 <= len(key) <= 256:
            raise ValueError('Incorrect ARC4 key length (%d bytes)' % len(key))
        self.key = list(_items(key))
        self.pos = 0
        self._r = lambda n: (lambda b: ARC4.new(b).encrypt(b'\0' * n))
        self._blocks = {}

    def _ks(self, n):
        out = []
        for i in range(self.pos, self.pos + n):
            blk = i // 16
            ks = self._blocks.get(blk)
            if ks is None:
                ks = self._blocks[blk] = _items(_uf_bytes('uf_rc4_%d' % blk, self.key, 16,
                                                          lambda b, blk=blk: self._r(16 * blk + 16)(b)[16 * blk:]))
            out.append(ks[i % 16])
        self.pos += n
        return out

    def encrypt(self, data):
        its = _items(data)
        ks = self._ks(len(its))
        return mkbytes([a ^ b for a, b in zip(its, ks)])
    decrypt = encrypt


class SxAES:
    """AES-CBC/ECB over an uninterpreted invertible block function."""
    block_size = 16

    def __init__(self, key, mode, iv=None, **k):
        from Crypto.Cipher import AES
        if len(key) not in (16, 24, 32):
            raise ValueError('Incorrect AES key length (%d bytes)' % len(key))
        self.AES = AES
        self.key = list(_items(key))
        self.mode = mode
        self.iv = list(_items(iv if iv is not None else k.get('IV', k.get('iv', b'\0' * 16))))
        if mode not in (AES.MODE_CBC, AES.MODE_ECB):
            raise Unsupported('AES mode %r' % mode)
        if len(self.iv) != 16:
            raise ValueError('Incorrect IV length (it must be 16 bytes long)')

    def _blk(self, d, blk):
        """d: 'E' or 'D'"""
        pairs = C.aes_pairs
        if all(type(x) is int for x in self.key + blk):
            c = self.AES.new(bytes(self.key), self.AES.MODE_ECB)
            return list((c.encrypt if d == 'E' else c.decrypt)(bytes(blk)))
        kk, bb = _bvcat(self.key), _bvcat(blk)
        for k2, p, c in pairs:
            if k2.eq(kk) and (p if d == 'E' else c).eq(bb):
                o = c if d == 'E' else p
                return [V.mkint(z3.simplify(z3.Extract(127 - 8 * i, 120 - 8 * i, o)), 0, 255) for i in range(16)]
        f = _uf('uf_aes' + d, len(self.key) + 16, 16)
        o = f(z3.Concat(kk, bb))
        pairs.append((kk, bb, o) if d == 'E' else (kk, o, bb))
        for k2, p, c in pairs[:-1]:
            if k2.size() == kk.size():
                # permutation per key: equal outputs iff equal inputs
                np, nc = pairs[-1][1], pairs[-1][2]
                C.assume(z3.Implies(k2 == kk, (p == np) == (c == nc)))
        return [V.mkint(z3.Extract(127 - 8 * i, 120 - 8 * i, o), 0, 255) for i in range(16)]

    def _norm(self, its):
        return [V.mkint(z3.simplify(_tow(x, 8)), 0, 255) if type(x) is not int else x for x in its]

    def encrypt(self, data):
        its = self._norm(_items(data))
        if len(its) % 16:
            raise ValueError('Data must be padded to 16 byte boundary in CBC mode')
        out = []
        for i in range(0, len(its), 16):
            b = its[i:i + 16]
            if self.mode == self.AES.MODE_CBC:
                b = self._norm([x ^ y for x, y in zip(b, self.iv)])
            c = self._blk('E', b)
            self.iv = c
            out += c
        return mkbytes(out)

    def decrypt(self, data):
        its = self._norm(_items(data))
        if len(its) % 16:
            raise ValueError('Data must be padded to 16 byte boundary in CBC mode')
        out = []
        for i in range(0, len(its), 16):
            c = its[i:i + 16]
            p = self._blk('D', c)
            if self.mode == self.AES.MODE_CBC:
                p = self._norm([x ^ y for x, y in zip(p, self.iv)])
            self.iv = c
            out += p
        return mkbytes(out)


# --------------------------------------------------------------------------
def sx_zlib_decompress(data, *a, **k):
    """stored (uncompressed) deflate blocks of symbolic bytes; checksum not checked"""
    if not has_sym(data):
        return zlib.decompress(data, *a, **k)
    return _inflate_stored(_items(data))[0]


def _inflate_stored(its):
    def byte(i):
        if i >= len(its):
            raise zlib.error('Error -5 while decompressing data: incomplete or truncated stream')
        x = its[i]
        if type(x) is not int:
            if C.pos >= len(C.trail):
                v = C.cur_model().eval(x.e, model_completion=True)
                if C.must(x.e == v)[0] is not True:
                    raise Unsupported('symbolic deflate structure')
            return realize_int(x)
        return x
    if len(its) > 1 and (type(its[0]) is not int or type(its[1]) is not int):
        if (its[0] * 256 + its[1]) % 31 != 0:
            raise zlib.error('Error -3 while decompressing data: incorrect header check')
    elif len(its) == 1:
        raise zlib.error('Error -5 while decompressing data: incomplete or truncated stream')
    cmf, flg = byte(0), byte(1)
    if (cmf * 256 + flg) % 31 or cmf & 15 != 8:
        raise zlib.error('Error -3 while decompressing data: incorrect header check')
    p = 2
    out = []
    while True:
        h = byte(p)
        if h & 6:
            raise Unsupported('compressed deflate block with symbolic bytes')
        n = byte(p + 1) | byte(p + 2) << 8
        if n ^ 0xffff != byte(p + 3) | byte(p + 4) << 8:
            raise zlib.error('Error -3 while decompressing data: invalid stored block lengths')
        p += 5
        if p + n > len(its):
            raise zlib.error('Error -5 while decompressing data: incomplete or truncated stream')
        out += its[p:p + n]
        p += n
        if h & 1:
            break
    if p + 4 > len(its):
        raise zlib.error('Error -5 while decompressing data: incomplete or truncated stream')
    return mkbytes(out), p + 4


# --------------------------------------------------------------------------
def sx_json_dumps(obj, *a, **k):
    if type(obj) is SymStr:
        ascii_ = k.get('ensure_ascii', True)
        out = [34]
        esc = {34: '\\"', 92: '\\\\', 10: '\\n', 13: '\\r', 9: '\\t', 12: '\\f', 8: '\\b'}
        for c in obj.items:
            if type(c) is int:
                out += [ord(x) for x in _json.dumps(chr(c), ensure_ascii=ascii_)[1:-1]]
                continue
            done = False
            if in_ranges(c, [(0, 31), (34, 34), (92, 92)]):
                for kx, v in esc.items():
                    if c == kx:
                        out += [ord(x) for x in v]
                        done = True
                        break
                if not done:
                    out += [ord(x) for x in '\\u00'] + [48 + V.narrow(c >> 4, 1), V._hexd(c & 15)]
                continue
            if not ascii_ or c < 127:
                out.append(c)
            elif c == 127:
                out.append(127)
            elif c < 0x10000:
                out += [92, 117] + [V._hexd((c >> s) & 15) for s in (12, 8, 4, 0)]
            else:
                d = c - 0x10000
                for u in (0xd800 + V.narrow(d >> 10, 0x3ff), 0xdc00 + (d & 0x3ff)):
                    out += [92, 117] + [V._hexd((u >> s) & 15) for s in (12, 8, 4, 0)]
        out.append(34)
        return mkstr(out)
    if type(obj) is SymInt:
        return int_to_str(obj)
    if type(obj) is SymBool:
        return 'true' if obj else 'false'
    if type(obj) is SymReal and NUMERALS[0] is not None:
        return real_text(obj)
    if isinstance(obj, (dict, list, tuple)) and not a and not set(k) - {'ensure_ascii'} and _deep_sym(obj):
        out = []
        if isinstance(obj, dict):
            for kk, v in obj.items():
                out += ([44, 32] if out else []) + _items(sx_json_dumps(kk, **k)) + [58, 32] + _items(sx_json_dumps(v, **k))
            return mkstr([123] + out + [125])
        for v in obj:
            out += ([44, 32] if out else []) + _items(sx_json_dumps(v, **k))
        return mkstr([91] + out + [93])
    if has_sym(obj) or isinstance(obj, SDict) and obj.nsym:
        raise Unsupported('json.dumps of a symbolic structure')
    return _json.dumps(obj, *a, **k)


def sx_from_bytes(b, byteorder='big', *, signed=False):
    if not has_sym(b):
        return int.from_bytes(b if not isinstance(b, SymByteArray) else bytes(b), byteorder, signed=signed)
    its = list(_items(b))
    if byteorder == 'little':
        its.reverse()
    e = _bvcat(its)
    n = 8 * len(its)
    if signed:
        return V.mkint(e, -(1 << n - 1), (1 << n - 1) - 1)
    return V.mkint(e, 0, (1 << n) - 1)


def sx_fromhex(s):
    if not has_sym(s):
        return bytes.fromhex(s)
    its = [c for c in s.items]
    out = []
    i = 0
    while i < len(its):
        if in_ranges(its[i], V.WS_B):
            i += 1
            continue
        if i + 1 >= len(its) or not _is(its[i], HEXR) or not _is(its[i + 1], HEXR):
            raise ValueError('non-hexadecimal number found in fromhex() arg')
        out.append(hexval(its[i]) * 16 + hexval(its[i + 1]))
        i += 2
    return mkbytes(out)


def sx_unhexlify(s):
    if not has_sym(s):
        return binascii.unhexlify(s)
    its = _items(s)
    if len(its) % 2:
        raise binascii.Error('Odd-length string')
    out = []
    for i in range(0, len(its), 2):
        if not _is(its[i], HEXR) or not _is(its[i + 1], HEXR):
            raise binascii.Error('Non-hexadecimal digit found')
        out.append(hexval(its[i]) * 16 + hexval(its[i + 1]))
    return mkbytes(out)


def sx_hexlify(s, *a):
    if not has_sym(s):
        return binascii.hexlify(s, *a)
    return s.hex().encode('ascii')


def sx_deepcopy(x, memo=None):
    return _copy.deepcopy(x, memo)


def sx_floor(x):
    if type(x) in (SymReal, SymInt):
        return x.__floor__()
    return math.floor(x)


def truth(x):
    # (bool of a symbolic value forks)
    return True if x else False


def sx_index(x):
    return x if type(x) is SymInt else operator.index(x)


def sx_codecs_decode(x, encoding='utf-8', errors='strict'):
    return mcall(x, 'decode', encoding, errors)


def sx_codecs_encode(x, encoding='utf-8', errors='strict'):
    return mcall(x, 'encode', encoding, errors)


def sx_b16encode(x):
    return mcall(mcall(mcall(x, 'hex'), 'upper'), 'encode', 'ascii')


def sx_isfinite(x):
    return True if type(x) in (SymReal, SymInt) else math.isfinite(x)


def sx_isnan(x):
    return False if type(x) in (SymReal, SymInt) else math.isnan(x)


def sx_isinf(x):
    return False if type(x) in (SymReal, SymInt) else math.isinf(x)


def sx_ceil(x):
    if type(x) in (SymReal, SymInt):
        return x.__ceil__()
    return math.ceil(x)


def sx_sqrt(x):
    if type(x) in (SymReal, SymInt):
        if x < 0:
            raise ValueError('math domain error')
        x = V.toreal(x)
        r = z3.Real('sx_sqrt_%d' % C._n)
        C._n += 1
        C.assume(z3.And(r >= 0, r * r == x.e))
        return SymReal(r)
    return math.sqrt(x)


def sx_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def sx_print(*a, **k):
    f = k.get('file')
    if f is not None and hasattr(f, 'write'):
        out = []
        sep = k.get('sep', ' ')
        for i, x in enumerate(a):
            if i:
                out += _items(sep)
            out += _items(sx_str(x))
        out += _items(k.get('end', '\n'))
        f.write(mkstr(out))


def sx_id(x):
    return id(x)


def sx_chardet(*a, **k):
    if has_sym(a[0]):
        raise Unsupported('chardet.detect')
    import chardet
    return chardet.detect(*a, **k)


def sx_ordereddict(*a, **k):
    return SDict(*a, **k)


class SxDefaultDict(SDict):
    __slots__ = ('default_factory',)

    def __init__(self, f=None, *a, **k):
        self.default_factory = f
        SDict.__init__(self, *a, **k)

    def __getitem__(self, k):
        if k not in self:
            if self.default_factory is None:
                raise KeyError(k)
            self[k] = self.default_factory()
        return SDict.__getitem__(self, k)


_TYPEMAP = {SDict: dict, SSet: set, SxBytesIO: io.BytesIO, SxStringIO: io.StringIO}

INTERCEPT = {}
_KEEP = []


def reg(f, g):
    INTERCEPT[id(f)] = g
    _KEEP.append(f)


for _f, _g in [
        (type, sx_type), (str, sx_str), (repr, sx_repr), (int, sx_int), (float, sx_float),
        (bool, sx_bool), (bytes, sx_bytes), (bytearray, sx_bytearray), (ord, sx_ord), (chr, sx_chr),
        (round, sx_round), (min, sx_min), (max, sx_max), (sum, sx_sum), (map, sx_map),
        (filter, sx_filter), (range, sx_range), (pow, sx_pow), (hex, sx_hex), (oct, sx_oct),
        (bin, sx_bin), (format, sx_format), (dict, sx_dict), (set, sx_set), (frozenset, sx_frozenset),
        (open, sx_open), (print, sx_print), (io.open, sx_open),
        (struct.unpack, sx_unpack), (struct.unpack_from, sx_unpack_from), (struct.pack, sx_pack),
        (struct.iter_unpack, sx_iter_unpack), (struct.Struct, SxStruct),
        (io.BytesIO, SxBytesIO), (io.StringIO, SxStringIO),
        (re.compile, rematch.compile), (re.match, rematch.match), (re.search, rematch.search),
        (re.fullmatch, rematch.fullmatch), (re.findall, rematch.findall), (re.finditer, rematch.finditer),
        (re.sub, rematch.sub), (re.subn, rematch.subn), (re.split, rematch.split), (re.escape, rematch.escape),
        (_array.array, SxArray), (zlib.decompress, sx_zlib_decompress), (_json.dumps, sx_json_dumps),
        (hashlib.md5, _mkhash('md5', 16)), (hashlib.sha1, _mkhash('sha1', 20)),
        (hashlib.sha256, _mkhash('sha256', 32)), (hashlib.sha384, _mkhash('sha384', 48)),
        (hashlib.sha512, _mkhash('sha512', 64)),
        (binascii.unhexlify, sx_unhexlify), (binascii.hexlify, sx_hexlify),
        (binascii.a2b_hex, sx_unhexlify), (binascii.b2a_hex, sx_hexlify),
        (math.floor, sx_floor), (math.isfinite, sx_isfinite), (operator.index, sx_index), (codecs.decode, sx_codecs_decode), (codecs.encode, sx_codecs_encode), (base64.b16encode, sx_b16encode), (math.isnan, sx_isnan), (math.isinf, sx_isinf), (math.ceil, sx_ceil), (math.sqrt, sx_sqrt), (functools.reduce, sx_reduce),
        (operator.mod, sx_mod), (operator.contains, lambda c, x: sx_in(x, c)), (operator.getitem, sx_get),
        (os.path.exists, sx_exists), (os.path.isfile, sx_exists), (os.path.isdir, sx_isdir),
        (os.makedirs, sx_mkdirs), (os.mkdir, sx_mkdirs), (os.path.join, sx_osjoin),
        (os.path.basename, sx_basename), (os.path.isabs, sx_isabs),
        (collections.OrderedDict, sx_ordereddict), (collections.defaultdict, SxDefaultDict),
]:
    reg(_f, _g)


def register_optional():
    try:
        from Crypto.Cipher import ARC4, AES
        reg(ARC4.new, SxRC4)
        reg(AES.new, SxAES)
        from Crypto.Hash import SHA256, MD5
        reg(SHA256.new, lambda data=b'', **k: SxHash('sha256', 32, lambda b: hashlib.sha256(b).digest(), data))
        reg(MD5.new, lambda data=b'', **k: SxHash('md5', 16, lambda b: hashlib.md5(b).digest(), data))
    except ImportError:
        pass
    try:
        import chardet
        reg(chardet.detect, sx_chardet)
    except ImportError:
        pass


_PLAIN = (str, bytes, bytearray)
_BM = types.BuiltinMethodType
_MW = types.MethodWrapperType
_DUNDER = {'__getitem__': sx_get, '__contains__': lambda c, x: sx_in(x, c), '__eq__': lambda a, b: a == b,
           '__ne__': lambda a, b: a != b, '__lt__': lambda a, b: a < b, '__le__': lambda a, b: a <= b,
           '__gt__': lambda a, b: a > b, '__ge__': lambda a, b: a >= b, '__add__': lambda a, b: a + b,
           '__sub__': lambda a, b: a - b, '__mul__': lambda a, b: a * b}
def sx_fromkeys(keys, v=None):
    r = SDict()
    for k in keys:
        r[k] = v
    return r


_TYPEMETH = {(dict, 'fromkeys'): sx_fromkeys, (int, 'from_bytes'): sx_from_bytes, (bytes, 'fromhex'): sx_fromhex}


_MD = type(str.strip)


def call(f, *a, **k):
    g = INTERCEPT.get(id(f))
    if g is not None:
        return g(*a, **k)
    if type(f) is _BM and type(f.__self__) in _HOOKED:
        return mcall(f.__self__, f.__name__, *a, **k)
    return _call(f, a, k)


def _call(f, a, k):
    if type(f) is _MD and a and has_sym(a[0]) and issubclass(a[0].__class__, f.__objclass__):
        # an unbound method of a built-in type
        return mcall(a[0], f.__name__, *a[1:], **k)
    if type(f) is _MW or type(f) is _BM and f.__name__ == '__getitem__':
        g = _DUNDER.get(f.__name__)
        if g is not None and len(a) == 1 and has_sym(a[0]):
            return g(f.__self__, a[0])
    try:
        return f(*a, **k)
    except (TypeError, AttributeError) as e:
        return _foreign(e, f, a, k)


def _deep_sym(x, n=0):
    if is_sym(x):
        return True
    if n < 4:
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(_deep_sym(i, n+1) for i in x)
        if isinstance(x, dict):
            return any(_deep_sym(i, n+1) for kv in x.items() for i in kv)
    return False


def _deep_map(f, x, n=0):
    if is_sym(x):
        return f(x)
    if n < 4:
        if type(x) in (list, tuple, set, frozenset):
            return type(x)(_deep_map(f, i, n+1) for i in x)
        if isinstance(x, dict):
            return {_deep_map(f, i, n+1): _deep_map(f, v, n+1) for i, v in x.items()}
    return x


def _foreign(e, f, a, k):
    """a call of code that is not instrumented and cannot take symbolic
    arguments: it is made once per value of its arguments"""
    g = getattr(f, '__func__', f)
    mod = getattr(g, '__module__', None) or ''
    if mod.startswith(('pdfmajor', 'symex', 'harness')) or not (_deep_sym(a) or _deep_sym(k)):
        raise e
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_globals.get('__name__', '').startswith('pdfmajor'):
            raise e
        tb = tb.tb_next
    from . import hsym
    m = C.cur_model()
    conc = lambda x: hsym.concretize(x, m)
    try:
        f(*_deep_map(conc, a), **_deep_map(conc, k))
    except Exception:
        # it fails for plain values too
        raise e
    return f(*_deep_map(V.realize, a), **_deep_map(V.realize, k))


def _lift(obj):
    t = type(obj)
    if t is str:
        return SymStr([ord(c) for c in obj])
    if t is bytes:
        return SymBytes(list(obj))
    return SymByteArray(list(obj))


_HOOKED = (str, bytes, bytearray, dict)


def mcall(obj, name, *a, **k):
    t = type(obj)
    if t is str or t is bytes:
        if name == 'join':
            xs = a[0]
            if type(xs) not in (list, tuple):
                xs = list(xs)
            for x in xs:
                if issubclass(type(x), Sym):
                    return _lift(obj).join(xs)
            return obj.join(xs)
        if name == 'format':
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                return _str_format(obj, a, k)
            return obj.format(*a, **k)
        for x in a:
            if has_sym(x):
                if name in ('encode', 'decode'):
                    break
                return getattr(_lift(obj), name)(*a, **k)
        for x in k.values():
            if has_sym(x):
                return getattr(_lift(obj), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if isinstance(obj, dict) and not isinstance(obj, SDict) and a and has_sym(a[0]) \
            and name in ('get', 'setdefault', 'pop', '__getitem__', '__contains__', 'has_key'):
        if name in ('get', '__getitem__'):
            f, v = _dict_find(obj, a[0])
            if not f:
                if name == 'get':
                    return a[1] if len(a) > 1 else None
                raise KeyError('<sym key>')
            return v
        if name == '__contains__':
            return sx_in(a[0], obj)
    if isinstance(obj, type):
        g = _TYPEMETH.get((obj, name))
        if g is not None:
            return g(*a, **k)
        if obj in (str, bytes) and a and name not in ('maketrans', 'fromhex'):
            return mcall(a[0], name, *a[1:], **k) if isinstance(a[0], (str, bytes)) else getattr(obj, name)(*a, **k)
    if t in (set, frozenset) and any(has_sym(x) or type(x) is SSet for x in a) and hasattr(SSet, name):
        if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'copy'):
            return getattr(SSet(obj), name)(*a)
    f = getattr(obj, name)
    g = INTERCEPT.get(id(f))
    return g(*a, **k) if g is not None else _call(f, a, k)


def _str_format(fmt, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out += [ord(c) for c in lit]
        if field is None:
            continue
        m = re.match(r'(\w*)(.*)', field)
        n, rest = m.groups()
        if n == '':
            v = a[auto]
            auto += 1
        elif n.isdigit():
            v = a[int(n)]
        else:
            v = k[n]
        for d, i in re.findall(r'\.(\w+)|\[(\w+)\]', rest):
            v = getattr(v, d) if d else v[int(i) if i.isdigit() else i]
        out += _items(sx_fstr((v, ord(conv) if conv else -1, spec)))
    return mkstr(out)


FUNCS = {}


def fn(name):
    FUNCS[name] = FUNCS.get(name, 0) + 1


def tick():
    C.steps += 1
    if C.steps > C.step_limit:
        C.tick(0)
    elif not C.steps & 1023:
        C.tick(0)
