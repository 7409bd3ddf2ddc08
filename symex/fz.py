"""Thin, fast constructors over the z3 C API (arguments must have matching sorts)."""
import z3
from z3 import z3core

class _Lib:
    def __getattr__(self, n):
        f = getattr(z3core, n).__defaults__[0].f
        setattr(self, n, f)
        return f


_lib = _Lib()
_ctx = z3.main_ctx()
_c = _ctx.ref()
BitVecRef, BoolRef, BitVecNumRef = z3.BitVecRef, z3.BoolRef, z3.BitVecNumRef
Ast = z3.z3types.Ast
LIMIT = 400000

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
_tp = TRUE.as_ast().value
_fp = FALSE.as_ast().value
_num = {}


def is_true(e):
    return e.ast.value == _tp


def is_false(e):
    return e.ast.value == _fp


def same(a, b):
    return a.ast.value == b.ast.value


def val(v, w):
    k = (v, w)
    r = _num.get(k)
    if r is None:
        r = z3.BitVecVal(v, w)
        if len(_num) < 200000:
            _num[k] = r
    return r


def _memo(f, cls):
    """Binary constructor with a memo table.  A cached result keeps its arguments
    alive inside z3, so the argument pointers stay valid as keys."""
    memo = {}

    def g(a, b):
        a, b = a.ast, b.ast
        k = (a.value, b.value)
        r = memo.get(k)
        if r is None:
            r = cls(f(_c, a, b), _ctx)
            if len(memo) < LIMIT:
                memo[k] = r
        return r
    return g


def _f(name):
    return _memo(getattr(_lib, name), BitVecRef)


def _b(name):
    return _memo(getattr(_lib, name), BoolRef)


add, sub, mul = _f('Z3_mk_bvadd'), _f('Z3_mk_bvsub'), _f('Z3_mk_bvmul')
band, bor, bxor = _f('Z3_mk_bvand'), _f('Z3_mk_bvor'), _f('Z3_mk_bvxor')
udiv, urem, lshr, ashr = _f('Z3_mk_bvudiv'), _f('Z3_mk_bvurem'), _f('Z3_mk_bvlshr'), _f('Z3_mk_bvashr')
ult, ule, slt, sle = _b('Z3_mk_bvult'), _b('Z3_mk_bvule'), _b('Z3_mk_bvslt'), _b('Z3_mk_bvsle')
eq = _b('Z3_mk_eq')
_not = _lib.Z3_mk_not
_and = _lib.Z3_mk_and
_or = _lib.Z3_mk_or
_ite = _lib.Z3_mk_ite
_extf = _lib.Z3_mk_extract
_zef = _lib.Z3_mk_zero_ext
_sef = _lib.Z3_mk_sign_ext
_nm, _am, _om, _im, _xm, _zm, _sm = {}, {}, {}, {}, {}, {}, {}


def _put(memo, k, r):
    if len(memo) < LIMIT:
        memo[k] = r
    return r


def not_(a):
    v = a.ast.value
    if v == _tp:
        return FALSE
    if v == _fp:
        return TRUE
    r = _nm.get(v)
    if r is None:
        r = _put(_nm, v, BoolRef(_not(_c, a.ast), _ctx))
    return r


def _arr(xs):
    n = len(xs)
    a = (Ast * n)()
    for i in range(n):
        a[i] = xs[i].ast
    return a


def and_(xs):
    out = []
    for x in xs:
        v = x.ast.value
        if v == _fp:
            return FALSE
        if v != _tp:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    k = tuple([x.ast.value for x in out])
    r = _am.get(k)
    if r is None:
        r = _put(_am, k, BoolRef(_and(_c, len(out), _arr(out)), _ctx))
    return r


def or_(xs):
    out = []
    for x in xs:
        v = x.ast.value
        if v == _tp:
            return TRUE
        if v != _fp:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    k = tuple([x.ast.value for x in out])
    r = _om.get(k)
    if r is None:
        r = _put(_om, k, BoolRef(_or(_c, len(out), _arr(out)), _ctx))
    return r


def extract(hi, lo, e):
    k = (hi, lo, e.ast.value)
    r = _xm.get(k)
    if r is None:
        r = _put(_xm, k, BitVecRef(_extf(_c, hi, lo, e.ast), _ctx))
    return r


def zext(n, e):
    k = (n, e.ast.value)
    r = _zm.get(k)
    if r is None:
        r = _put(_zm, k, BitVecRef(_zef(_c, n, e.ast), _ctx))
    return r


def sext(n, e):
    k = (n, e.ast.value)
    r = _sm.get(k)
    if r is None:
        r = _put(_sm, k, BitVecRef(_sef(_c, n, e.ast), _ctx))
    return r


def ite_bv(c, a, b):
    k = (c.ast.value, a.ast.value, b.ast.value)
    r = _im.get(k)
    if r is None:
        r = _put(_im, k, BitVecRef(_ite(_c, c.ast, a.ast, b.ast), _ctx))
    return r


def ite_bool(c, a, b):
    k = (c.ast.value, a.ast.value, b.ast.value)
    r = _im.get(k)
    if r is None:
        r = _put(_im, k, BoolRef(_ite(_c, c.ast, a.ast, b.ast), _ctx))
    return r


_kind = _lib.Z3_get_ast_kind


def is_val(e):
    return _kind(_c, e.ast) == 0


_vars = {}


def bv(name, w):
    k = (name, w)
    r = _vars.get(k)
    if r is None:
        r = _vars[k] = z3.BitVec(name, w)
    return r
