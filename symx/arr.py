"""Symbolic numpy arrays: an ndarray subclass holding exact symbolic elements,
with numpy dtype semantics carried as a tag, plus the `numpy` module shim the
code under analysis is executed against."""
import builtins
import math
import types
from fractions import Fraction as F

import numpy as np

from .core import (
    B, CUR, INF, NAN, NINF, R, Unsupported, bf, eng, f_and, f_not, f_or, r_abs, r_max, r_min,
    r_sqrt, r_trunc, r_ufun, r_log, r_exp, TRUE, FALSE,
)

F64 = np.dtype("float64")
I64 = np.dtype("int64")
BOOL = np.dtype("bool")
OBJ = np.dtype("O")


class C:
    """symbolic complex number"""

    __slots__ = ("real", "imag")
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.real = R.of(re)
        self.imag = R.of(im)

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return C(x.real, x.imag)
        return C(x, 0)

    def __add__(self, o):
        o = C.of(o)
        return C(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __sub__(self, o):
        o = C.of(o)
        return C(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        return C.of(o) - self

    def __mul__(self, o):
        o = C.of(o)
        return C(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)

    __rmul__ = __mul__

    def __neg__(self):
        return C(-self.real, -self.imag)

    def __truediv__(self, o):
        o = C.of(o)
        if o.imag.is_const() and o.imag.c == 0:
            return C(self.real / o.real, self.imag / o.real)
        raise Unsupported("complex division")

    def conjugate(self):
        return C(self.real, -self.imag)

    def __eq__(self, o):
        o = C.of(o)
        return B.mk(f_and(bf(self.real == o.real), bf(self.imag == o.imag)))

    def __deepcopy__(self, m):
        return self


class Lazy:
    """index array of a symbolic mask, forked over only when its content is used"""

    __slots__ = ("fn", "val", "ln")
    __array_priority__ = 2000

    def __init__(self, fn, ln=None):
        self.fn, self.val, self.ln = fn, None, ln

    def symlen(self):
        if self.fn is None or self.ln is None:
            return len(self.force())
        n = R.of(self.ln())
        return int(n.c) if n.is_const() else n

    def force(self):
        if self.fn is not None:
            self.val = self.fn()
            self.fn = None
        return self.val

    def __getattr__(self, n):
        if n.startswith("__array"):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __setitem__(self, i, v):
        self.force()[i] = v

    def __bool__(self):
        return bool(self.force())

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return getattr(ufunc, method)(*[unlazy(x) for x in inputs], **kw)

    def __array_function__(self, func, types_, args, kwargs):
        return func(*unlazy(tuple(args)), **{k: unlazy(v) for k, v in kwargs.items()})

    def __deepcopy__(self, memo):
        return self.force().copy()

    def _op(n):
        def f(self, *a):
            return getattr(self.force(), n)(*[unlazy(x) for x in a])

        return f

    for _n in "add radd sub rsub mul rmul truediv rtruediv floordiv mod lt le gt ge eq ne neg and or invert pow".split():
        locals()["__%s__" % _n] = _op("__%s__" % _n)
    __hash__ = None
    del _op, _n


def unlazy(x):
    if isinstance(x, Lazy):
        return x.force()
    if isinstance(x, (list, tuple)) and any(isinstance(y, (Lazy, list, tuple)) for y in x):
        return type(x)(unlazy(y) for y in x)
    return x


def has_lazy(x):
    if isinstance(x, Lazy):
        return True
    return isinstance(x, (list, tuple)) and any(has_lazy(y) for y in x)


def _snap(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(_snap(y) for y in x)
    return x


def _cnt(x):
    if isinstance(x, B):
        s = CUR.e.simp(x.f)
        return int(s) if s is not None else x.num()
    return int(bool(x))


def _lazy_len(name, a):
    one = lambda x: x.symlen() if isinstance(x, Lazy) else (int(np.size(x)) if not isinstance(x, (list, tuple)) else sum(one(y) for y in x))
    if name == "sort":
        return one(a[0])
    if name == "append":
        return one(a[0]) + one(a[1])
    return sum((one(x) for x in a[0]), 0)


LAZY_OK = {"sort", "append", "concatenate", "hstack"}


def conv(x, tag):
    """element conversion to the array's dtype"""
    k = tag.kind
    if k == "f":
        if isinstance(x, C):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        r = R.of(x)
        return R(r.c, r.nf, r.df, r.sp, False) if r.isint else r
    if k == "b":
        if isinstance(x, (B, bool)):
            return x
        if isinstance(x, np.bool_):
            return bool(x)
        r = R.of(x)
        y = r != 0
        return y
    if k in "iu":
        if isinstance(x, B):
            return R(F(int(bool(x))), isint=True)
        r = R.of(x)
        if r.sp:
            raise Unsupported("nan/inf cast to int")
        r = r if r.isint else r_trunc(r)
        return narrow(r, tag) if tag.itemsize < 8 else r
    if k == "c":
        return C.of(x)
    return x


def sconv(x, tag):
    r = conv(x, tag)
    if tag.kind in "iu" and tag.itemsize < 8 and isinstance(r, R) and not r.sp:
        return RI.mk(r, tag)
    if tag.kind == "f" and tag != F64 and isinstance(r, R):
        return RX.mk(r, tag)
    return r


def narrow(r, tag):
    """integer wrap-around of types shorter than 64 bits"""
    lo, hi = int(np.iinfo(tag).min), int(np.iinfo(tag).max)
    m = hi - lo + 1
    if r.is_const():
        c = int(r.c)
        if lo <= c <= hi:
            return r
        return R(F((c - lo) % m + lo), isint=True)
    for _ in range(4):
        if bool(r > hi):
            r = r - m
        elif bool(r < lo):
            r = r + m
        else:
            return R(r.c, r.nf, r.df, r.sp, True)
    raise Unsupported("integer overflow by more than four ranges")


class RI(R):
    """numpy integer scalar of a type shorter than 64 bits"""

    __slots__ = ("dt",)

    @staticmethod
    def mk(r, dt):
        x = RI(r.c, r.nf, r.df, r.sp, True)
        x.dt = dt
        return x

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (RI.mk, (R(self.c, self.nf, self.df, self.sp, True), self.dt))


def _ri_op(name, swap=False):
    base = getattr(R, name)

    def f(self, *o):
        r = base(self, *o)
        if not isinstance(r, R) or not r.isint or r.sp:
            return r
        ts = [self.dt]
        for x in o:
            if isinstance(x, RI):
                ts.append(x.dt)
            elif isinstance(x, (np.generic, R)):
                t = tag_of(x)
                if t.kind not in "iub":
                    return r
                ts.append(t)
            elif not isinstance(x, int):
                return r
        dt = np.result_type(*ts)
        if dt.kind not in "iu" or dt.itemsize >= 8:
            return r
        return RI.mk(narrow(r, dt), dt)

    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "neg", "abs"):
    if hasattr(R, "__%s__" % _n):
        setattr(RI, "__%s__" % _n, _ri_op("__%s__" % _n))


class RX(R):
    """numpy floating scalar of a type other than float64 (values are exact reals; only the type is tracked)"""

    __slots__ = ("dt",)

    @staticmethod
    def mk(r, dt):
        x = RX(r.c, r.nf, r.df, r.sp)
        x.dt = dt
        return x

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (RX.mk, (R(self.c, self.nf, self.df, self.sp), self.dt))


def _rx_op(name):
    base = getattr(R, name)

    def f(self, *o):
        r = base(self, *o)
        if not isinstance(r, R):
            return r
        ts = [self.dt]
        for x in o:
            if isinstance(x, (RI, RX, np.generic, R)):
                ts.append(tag_of(x))
            elif not isinstance(x, (int, float, F)):
                return r
        dt = np.result_type(*ts)
        return RX.mk(r, dt) if dt.kind == "f" and dt != F64 else r

    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "neg", "abs", "truediv", "rtruediv", "pow"):
    if hasattr(R, "__%s__" % _n):
        setattr(RX, "__%s__" % _n, _rx_op("__%s__" % _n))


def _linalg_type(*xs):
    for x in xs:
        t = tag_of(arr(x))
        if t.kind == "f" and t not in (np.dtype("float32"), F64):
            raise TypeError("array type %s is unsupported in linalg" % t.name)


def tag_of(x):
    """numpy dtype of a scalar/array as the real code would see it; None for weak python scalars"""
    if isinstance(x, Lazy):
        x = x.force()
    if isinstance(x, SymArray):
        return x._tag
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, (RI, RX)):
        return x.dt
    if isinstance(x, R):
        return I64 if x.isint else F64
    if isinstance(x, B):
        return BOOL
    if isinstance(x, C):
        return np.dtype("complex128")
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (list, tuple)):
        ts = [tag_of(y) for y in x]
        ts = [BOOL if isinstance(y, bool) else (t or (I64 if isinstance(y, int) else F64)) for y, t in zip(x, ts)]
        return np.result_type(*ts) if ts else F64
    return None


def weak(x):
    if isinstance(x, bool):
        return BOOL
    if isinstance(x, int):
        return 0
    if isinstance(x, float):
        return 0.0
    if isinstance(x, complex):
        return 0j
    return 0.0


def rtype(*xs):
    ts = []
    for x in xs:
        t = tag_of(x)
        ts.append(t if t is not None else weak(x))
    return np.result_type(*ts)


def has_sym(x):
    if isinstance(x, (SymArray, R, B, C)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def strip(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [strip(y) for y in x]
    if isinstance(x, tuple):
        return tuple(strip(y) for y in x)
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    return x


def toobj(x):
    """object ndarray view of anything array-like"""
    if isinstance(x, Lazy):
        x = x.force()
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != OBJ else x
    if isinstance(x, (R, B, C)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return _stack_list(x)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _stack_list(x):
    if len(x) == 0:
        return np.empty((0,), dtype=object)
    subs = [toobj(y) for y in x]
    sh = subs[0].shape
    if any(s.shape != sh for s in subs):
        raise ValueError(
            "setting an array element with a sequence. The requested array has an inhomogeneous shape"
        )
    out = np.empty((len(subs),) + sh, dtype=object)
    for i, s in enumerate(subs):
        out[i] = s if sh else s[()]
    return out


def wrap(objarr, tag, scalar_ok=True):
    """object ndarray -> SymArray with converted elements (or plain numpy when concrete ints/bools)"""
    tag = np.dtype(tag)
    if not isinstance(objarr, np.ndarray):
        return sconv(objarr, tag) if scalar_ok else objarr
    if objarr.ndim == 0 and scalar_ok:
        return sconv(objarr[()], tag)
    out = np.empty(objarr.shape, dtype=object)
    fo, fi = out.reshape(-1), objarr.reshape(-1) if objarr.size else objarr
    allc = True
    for i in range(out.size):
        v = conv(fi[i], tag)
        fo[i] = v
        if isinstance(v, (B, C)) or (isinstance(v, R) and not v.is_const()):
            allc = False
    if out.size:
        out = fo.reshape(objarr.shape)
    if tag.kind == "b" and allc:
        return cc(out.astype(bool))
    if tag.kind in "iu" and allc:
        res = np.empty(out.shape, dtype=object)
        rf = res.reshape(-1)
        of = out.reshape(-1)
        for i in range(out.size):
            rf[i] = int(of[i].c)
        return cc(rf.reshape(out.shape).astype(tag))
    return mk(out, tag)


def mk(objarr, tag):
    a = objarr.view(SymArray)
    a._tag = np.dtype(tag)
    return a


def conc_index(ix):
    if isinstance(ix, Lazy):
        ix = ix.force()
    if isinstance(ix, tuple):
        return tuple(conc_index(i) for i in ix)
    if isinstance(ix, SymArray):
        k = ix._tag.kind
        if k == "b":
            return conc_mask(ix)
        if k in "iu":
            return conc_int(ix)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(ix, slice):
        f = lambda v: v.__index__() if isinstance(v, (R, B)) else v
        return slice(f(ix.start), f(ix.stop), f(ix.step))
    if isinstance(ix, R):
        if not ix.isint:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        return ix.__index__()
    if isinstance(ix, B):
        return bool(ix)
    if isinstance(ix, list):
        if has_sym(ix):
            o = _stack_list(ix)
            return conc_index(wrap(o, tag_of(ix)))
        if len(ix) == 0:
            return np.array([], dtype=np.intp)
        return ix
    return ix


def conc_mask(a):
    o = toobj(a)
    out = np.empty(o.shape, dtype=bool)
    for i in np.ndindex(o.shape):
        out[i] = bool(o[i])
    return out


def conc_int(a):
    o = toobj(a)
    out = np.empty(o.shape, dtype=np.int64)
    for i in np.ndindex(o.shape):
        out[i] = o[i].__index__() if isinstance(o[i], (R, B)) else int(o[i])
    return out


class CArr(np.ndarray):
    """concrete (int/bool) array that accepts symbolic indices"""

    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self, conc_index(ix))
        return r

    def __setitem__(self, ix, v):
        ix = conc_index(ix)
        if has_sym(v):
            v = _plain(v, self) if isinstance(v, (np.ndarray, list, tuple)) else (
                v.__index__() if self.dtype.kind in "iu" and isinstance(v, (R, B)) else (bool(v) if self.dtype.kind == "b" else v)
            )
        np.ndarray.__setitem__(self, ix, v)

    def __array_function__(self, func, types_, args, kwargs):
        if has_sym(args) or has_sym(tuple(kwargs.values())):
            return func_dispatch(func, args, kwargs)
        return cc(np.ndarray.__array_function__(self, func, types_, args, kwargs))

    def astype(self, dt, *a, **k):
        dt = np.dtype(_realdt(dt))
        r = np.ndarray.astype(self, dt, *a, **k)
        return _lift(r)


def cc(x):
    """plain concrete arrays -> CArr"""
    if type(x) is np.ndarray and x.dtype != OBJ:
        return x.view(CArr)
    if isinstance(x, (tuple, list)):
        return type(x)(cc(y) for y in x)
    return x


class SymArray(np.ndarray):
    def __array_finalize__(self, obj):
        self._tag = getattr(obj, "_tag", F64)

    @property
    def dtype(self):
        return self._tag

    @property
    def itemsize(self):
        return self._tag.itemsize

    @property
    def nbytes(self):
        return self._tag.itemsize * self.size

    def __deepcopy__(self, memo):
        return mk(self.view(np.ndarray).copy(), self._tag)

    def __copy__(self):
        return self.__deepcopy__(None)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    # -- indexing
    def __getitem__(self, ix):
        r = self.view(np.ndarray)[conc_index(ix)]
        if isinstance(r, np.ndarray):
            return mk(r, self._tag)
        if self._tag.kind in "iu" and self._tag.itemsize < 8 and isinstance(r, R) and not r.sp:
            return RI.mk(r, self._tag)
        if self._tag.kind == "f" and isinstance(r, R):
            if self._tag != F64:
                return RX.mk(r, self._tag)
            if isinstance(r, (RX, RI)):
                return R(r.c, r.nf, r.df, r.sp)
        return r

    def __setitem__(self, ix, v):
        ix = conc_index(ix)
        tag = self._tag
        if isinstance(v, (np.ndarray, list, tuple)):
            o = toobj(v)
            if o.ndim == 0:
                self.view(np.ndarray)[ix] = conv(o[()], tag)
                return
            vt = tag_of(v)
            if tag.kind in "fiu" and vt is not None and vt.kind == "c":
                raise TypeError("complex to real cast")
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                out[i] = conv(o[i], tag)
            self.view(np.ndarray)[ix] = out
        else:
            self.view(np.ndarray)[ix] = conv(v, tag)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(red_any(ufcall(np.equal, (self, x))))

    def __bool__(self):
        if self.size == 1:
            return bool(toobj(self).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(toobj(self).reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __int__(self):
        return int(toobj(self).reshape(-1)[0])

    def __index__(self):
        if self._tag.kind in "iu" and self.ndim == 0:
            return toobj(self)[()].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    # -- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return func_dispatch(func, args, kwargs)

    # -- methods
    def astype(self, dt, order=None, casting="unsafe", subok=True, copy=True):
        dt = np.dtype(_realdt(dt))
        if dt == OBJ:
            return mk(self.view(np.ndarray).copy(), self._tag)
        if self._tag.kind in "iu" and dt.kind in "iu" and not copy:
            return self
        return _as_sym_or_plain(wrap(self.view(np.ndarray), dt, scalar_ok=False), dt)

    def copy(self, order="C"):
        return mk(self.view(np.ndarray).copy(), self._tag)

    def view(self, *a, **k):
        if not a and not k:
            return mk(np.ndarray.view(self, np.ndarray), self._tag)
        if a and a[0] is np.ndarray or a and a[0] is SymArray:
            return np.ndarray.view(self, a[0])
        raise Unsupported("array view with dtype")

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return FUNCS["sum"](self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return FUNCS["mean"](self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return FUNCS["std"](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return FUNCS["var"](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return FUNCS["max"](self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return FUNCS["min"](self, axis=axis, keepdims=keepdims)

    def ptp(self, axis=None, out=None, keepdims=False):
        return FUNCS["ptp"](self, axis=axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return FUNCS["any"](self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return FUNCS["all"](self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return FUNCS["prod"](self, axis=axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return FUNCS["cumsum"](self, axis=axis)

    def nonzero(self):
        return cc(FUNCS["nonzero"](self))

    def round(self, decimals=0, out=None):
        return FUNCS["round"](self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return FUNCS["clip"](self, min, max)

    def dot(self, o):
        return FUNCS["dot"](self, o)

    def __matmul__(self, o):
        return FUNCS["dot"](self, o)

    def __rmatmul__(self, o):
        return FUNCS["dot"](o, self)

    def argmax(self, axis=None, out=None, **k):
        return cc(FUNCS["argmax"](self, axis=axis))

    def argmin(self, axis=None, out=None, **k):
        return cc(FUNCS["argmin"](self, axis=axis))

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return cc(FUNCS["argsort"](self, axis=axis))

    def sort(self, axis=-1, kind=None, order=None, **k):
        self[...] = FUNCS["sort"](self, axis=axis)

    def fill(self, v):
        self[...] = v

    def searchsorted(self, v, side="left", sorter=None):
        return cc(FUNCS["searchsorted"](self, v, side))

    def tobytes(self, order="C"):
        o = self.view(np.ndarray).reshape(-1)
        return repr([x.key() if isinstance(x, R) else x for x in o]).encode()

    def conj(self):
        return wrap(np.array([x.conjugate() for x in toobj(self).reshape(-1)], dtype=object).reshape(self.shape), self._tag)

    conjugate = conj

    @property
    def real(self):
        if self._tag.kind != "c":
            return self
        return _emap(lambda x: x.real, self, F64)

    @property
    def imag(self):
        if self._tag.kind != "c":
            return mk_full(self.shape, 0, F64)
        return _emap(lambda x: x.imag, self, F64)

    def __repr__(self):
        return "SymArray(%s, %r)" % (self._tag, self.view(np.ndarray).tolist())

    __str__ = __repr__


def _as_sym_or_plain(a, dt):
    return a


def _emap(fn, a, tag):
    o = toobj(a)
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        out[i] = fn(o[i])
    return wrap(out, tag)


def mk_full(shape, v, tag):
    if isinstance(shape, (R, B)):
        shape = shape.__index__()
    if isinstance(shape, (tuple, list)):
        shape = tuple(s.__index__() if isinstance(s, R) else s for s in shape)
    tag = np.dtype(tag)
    o = np.empty(shape, dtype=object)
    if o.size:
        c = conv(v, tag)
        of = o.reshape(-1)
        for i in range(of.size):
            of[i] = c
        o = of.reshape(o.shape)
    return mk(o, tag)


def _realdt(dt):
    """map shimmed python types to numpy dtypes"""
    if dt is None:
        return F64
    n = getattr(dt, "__symx_real__", None)
    if n is not None:
        return np.dtype(n)
    return dt


# ----------------------------------------------------------------------------
# ufuncs


def b_and(a, b):
    return B.mk(f_and(bf(a), bf(b)))


def b_or(a, b):
    return B.mk(f_or(bf(a), bf(b)))


def b_not(a):
    return B.mk(f_not(bf(a)))


def b_xor(a, b):
    return B.mk(f_or(f_and(bf(a), f_not(bf(b))), f_and(f_not(bf(a)), bf(b))))


def _cx(a, b):
    return isinstance(a, (C, complex, np.complexfloating)) or isinstance(b, (C, complex, np.complexfloating))


def _rr(fn):
    def g(a, b):
        if _cx(a, b):
            return fn(C.of(a), C.of(b))
        return fn(R.of(a), R.of(b))

    return g


def s_sign(x):
    x = R.of(x)
    if x.sp:
        return NAN if x.sp == "nan" else R(F(1 if x.sp == "inf" else -1))
    if bool(x > 0):
        return R(F(1), isint=x.isint)
    if bool(x < 0):
        return R(F(-1), isint=x.isint)
    return R(F(0), isint=x.isint)


def s_rint(x):
    x = R.of(x)
    if x.is_const():
        return R(F(round(x.c)))
    if x.isint:
        return x
    h = x + R(F(1, 2))
    t = s_floor(h)
    if bool(h == t):  # a tie goes to the even neighbour
        return s_floor(t / R(F(2))) * 2
    return t


def s_floor(x):
    x = R.of(x)
    if x.is_const():
        return R(F(math.floor(x.c)))
    if x.isint:
        return x
    t = r_trunc(x)
    return t - 1 if bool(x < t) else t


def s_ceil(x):
    return -s_floor(-R.of(x))


def s_isnan(x):
    if isinstance(x, C):
        return x.real.sp == "nan" or x.imag.sp == "nan"
    return R.of(x).sp == "nan"


def s_isinf(x):
    return R.of(x).sp in ("inf", "-inf")


def s_isfinite(x):
    return R.of(x).sp is None


def _trans(name):
    mf = getattr(math, {"log": "log", "exp": "exp"}.get(name, name))

    def f(x):
        x = R.of(x)
        if x.is_const() and not x.sp:
            return R.of(mf(float(x.c)))
        if x.sp:
            return R.of(getattr(np, name)(x.value()))
        if name == "log":
            if bool(x > 0):
                return r_log(x)
            return NINF if bool(x == 0) else NAN
        if name == "exp":
            return r_exp(x)
        return r_ufun(name, [x])

    return f


def s_angle(x):
    x = C.of(x)
    return r_ufun("angle", [x.real, x.imag], F(-math.pi), F(math.pi))


def s_pow(a, b):
    if isinstance(a, C):
        n = int(R.of(b).c)
        r = C(1, 0)
        for _ in range(n):
            r = r * a
        return r
    return R.of(a) ** R.of(b)


def s_fmod_like(a, b):
    return R.of(a) % R.of(b)


# name -> (fn, result-kind)   result-kind: 'same' promote, 'float', 'bool'
UF = {
    "add": (_rr(lambda a, b: a + b), "same"),
    "subtract": (_rr(lambda a, b: a - b), "same"),
    "multiply": (_rr(lambda a, b: a * b), "same"),
    "divide": (_rr(lambda a, b: a / b), "float"),
    "true_divide": (_rr(lambda a, b: a / b), "float"),
    "floor_divide": (_rr(lambda a, b: a // b), "same"),
    "remainder": (s_fmod_like, "same"),
    "power": (s_pow, "same"),
    "float_power": (s_pow, "float"),
    "negative": (lambda a: -(a if isinstance(a, C) else R.of(a)), "same"),
    "positive": (lambda a: R.of(a), "same"),
    "square": (lambda a: (a if isinstance(a, C) else R.of(a)) * (a if isinstance(a, C) else R.of(a)), "same"),
    "absolute": (lambda a: r_sqrt(a.real * a.real + a.imag * a.imag) if isinstance(a, C) else r_abs(R.of(a)), "abs"),
    "fabs": (lambda a: r_abs(R.of(a)), "float"),
    "sqrt": (lambda a: r_sqrt(R.of(a)), "float"),
    "reciprocal": (lambda a: R(F(1)) / R.of(a), "same"),
    "maximum": (lambda a, b: r_max([a, b]), "same"),
    "minimum": (lambda a, b: r_min([a, b]), "same"),
    "fmax": (lambda a, b: r_max([a, b]), "same"),
    "fmin": (lambda a, b: r_min([a, b]), "same"),
    "less": (_rr(lambda a, b: a < b), "bool"),
    "less_equal": (_rr(lambda a, b: a <= b), "bool"),
    "greater": (_rr(lambda a, b: a > b), "bool"),
    "greater_equal": (_rr(lambda a, b: a >= b), "bool"),
    "equal": (_rr(lambda a, b: a == b), "bool"),
    "not_equal": (_rr(lambda a, b: a != b), "bool"),
    "logical_and": (b_and, "bool"),
    "logical_or": (b_or, "bool"),
    "logical_not": (b_not, "bool"),
    "logical_xor": (b_xor, "bool"),
    "bitwise_and": (b_and, "bitbool"),
    "bitwise_or": (b_or, "bitbool"),
    "bitwise_xor": (b_xor, "bitbool"),
    "invert": (b_not, "bitbool"),
    "isnan": (s_isnan, "bool"),
    "isinf": (s_isinf, "bool"),
    "isfinite": (s_isfinite, "bool"),
    "signbit": (lambda a: R.of(a) < 0, "bool"),
    "sign": (s_sign, "same"),
    "rint": (s_rint, "float"),
    "floor": (s_floor, "float"),
    "ceil": (s_ceil, "float"),
    "trunc": (lambda a: r_trunc(R.of(a)), "float"),
    "exp": (_trans("exp"), "float"),
    "log": (_trans("log"), "float"),
    "log2": (lambda a: _trans("log")(a) / R(F(0.6931471805599453)), "float"),
    "log10": (lambda a: _trans("log")(a) / R(F(2.302585092994046)), "float"),
    "fmod": (lambda a, b: R.of(a) - r_trunc(R.of(a) / R.of(b)) * R.of(b), "same"),
    "heaviside": (lambda a, b: R(F(0)) if bool(R.of(a) < 0) else R(F(1)) if bool(R.of(a) > 0) else R.of(b), "float"),
    "deg2rad": (lambda a: R.of(a) * R(F(0.017453292519943295)), "float"),
    "sin": (_trans("sin"), "float"),
    "cos": (_trans("cos"), "float"),
    "conjugate": (lambda a: a.conjugate() if isinstance(a, C) else R.of(a), "same"),
    "hypot": (lambda a, b: r_sqrt(R.of(a) * a + R.of(b) * b), "float"),
    "copysign": (lambda a, b: r_abs(R.of(a)) if bool(R.of(b) >= 0) else -r_abs(R.of(a)), "float"),
    "arctan2": (lambda a, b: s_angle(C(b, a)), "float"),
}


def uf_tag(name, kind, inputs):
    if kind == "bool":
        return BOOL
    t = rtype(*inputs)
    if kind == "bitbool":
        if t.kind != "b":
            raise Unsupported("bitwise op on non-boolean symbolic arrays")
        return BOOL
    if kind == "float" and t.kind in "biu":
        return F64
    if kind == "abs" and t.kind == "c":
        return F64
    if t.kind == "b":
        if name in ("subtract", "negative"):
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported, use the bitwise_xor, the `^` operator, or the logical_xor function instead.")
        if name in ("add", "maximum"):
            return BOOL
    return t


def ufcall(ufunc, inputs):
    name = ufunc.__name__
    if name not in UF:
        raise Unsupported("ufunc " + name)
    fn, kind = UF[name]
    tag = uf_tag(name, kind, inputs)
    if tag.kind == "b" and name in ("add", "maximum"):
        fn = b_or
    if tag.kind == "b" and name in ("multiply", "minimum"):
        fn = b_and
    objs = [toobj(x) for x in inputs]
    r = np.frompyfunc(fn, len(objs), 1)(*objs)
    return wrap(r, tag)


def ufunc_dispatch(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    for k in ("casting", "subok", "order", "initial"):
        if k in kw and kw[k] in (None, True, "same_kind", "K", np._NoValue):
            kw.pop(k)
    name = ufunc.__name__
    if method == "__call__":
        if name == "matmul":
            res = FUNCS["dot"](*inputs)
        elif name == "divmod":
            return ufcall(np.floor_divide, inputs), ufcall(np.remainder, inputs)
        else:
            res = ufcall(ufunc, inputs)
        if where is not True:
            w = toobj(where)
            if out is None:
                raise Unsupported("ufunc where= without out")
            o = out[0]
            ob, rb = toobj(o), toobj(res)
            w, rb, _ = np.broadcast_arrays(w, rb, ob)
            for i in np.ndindex(ob.shape):
                if bool(w[i]):
                    o[i] = rb[i]
            return o
        if out is not None:
            o = out[0]
            rt = rtype(*inputs) if UF[name][1] != "bool" else BOOL
            if UF[name][1] == "float" and rt.kind in "iub":
                rt = F64
            ot = tag_of(o)
            if not np.can_cast(rt, ot, "same_kind"):
                raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'" % (name, rt, ot))
            if not isinstance(o, SymArray):
                o[...] = _plain(res, o)
            else:
                o[...] = res
            return o
        return res
    if method == "reduce":
        a = inputs[0]
        axis = kw.pop("axis", 0)
        keep = kw.pop("keepdims", False)
        m = {"add": "sum", "maximum": "max", "minimum": "min", "logical_or": "any", "logical_and": "all", "multiply": "prod"}
        if name in m:
            r = FUNCS[m[name]](a, axis=axis, keepdims=keep)
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        raise Unsupported("reduce of " + name)
    if method == "accumulate":
        fn = UF[name][0]
        o = toobj(inputs[0])
        if o.ndim != 1:
            raise Unsupported("accumulate nd")
        res, acc = [], None
        for x in o:
            acc = x if acc is None else fn(acc, x)
            res.append(acc)
        return wrap(_stack_list(res), rtype(inputs[0]))
    if method == "outer":
        a, b = toobj(inputs[0]), toobj(inputs[1])
        return ufcall(ufunc, (wrap(a, tag_of(inputs[0]) or F64, False)[..., None], inputs[1]))
    raise Unsupported("ufunc method " + method)


def _plain(res, o):
    """a symbolic result stored into a plain numpy array: only possible when constant"""
    r = toobj(res)
    out = np.empty(r.shape, dtype=o.dtype)
    for i in np.ndindex(r.shape):
        v = r[i]
        if isinstance(v, R):
            if not v.is_const() and not v.sp:
                raise Unsupported("symbolic value stored into a concrete array")
            out[i] = float(v) if o.dtype.kind == "f" else int(v)
        elif isinstance(v, B):
            out[i] = bool(v)
        else:
            out[i] = v
    return out


# ----------------------------------------------------------------------------
# numpy functions

FUNCS = {}


def fn(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f

    return deco


def _axis_reduce(a, axis, red, tag, keepdims=False):
    o = toobj(a)
    if axis is None:
        r = sconv(red(list(o.reshape(-1))), tag) if tag is not None else red(list(o.reshape(-1)))
        if keepdims:
            x = np.empty((1,) * o.ndim, dtype=object)
            x[...] = r
            return wrap(x, tag)
        return r
    if isinstance(axis, tuple):
        axs = tuple(x % o.ndim for x in axis)
        rest = [i for i in range(o.ndim) if i not in axs]
        o2 = np.transpose(o, rest + list(axs)).reshape([o.shape[i] for i in rest] + [-1])
        return _axis_reduce(mk(o2, tag_of(a)), -1, red, tag)
    axis = int(axis)
    if axis < -o.ndim or axis >= o.ndim:
        raise np.exceptions.AxisError(axis, o.ndim)
    o2 = np.moveaxis(o, axis, -1)
    out = np.empty(o2.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = red(list(o2[i]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return wrap(out, tag)


def arr(a):
    """argument -> array-like with tag"""
    if isinstance(a, np.ndarray):
        return a
    if isinstance(a, (list, tuple)):
        return wrap(_stack_list(a), tag_of(a), False)
    return wrap(toobj(a), tag_of(a) or rtype(a), False)


def rsum(xs):
    s = R(F(0), isint=True)
    cx = any(isinstance(x, C) for x in xs)
    if cx:
        s = C(0, 0)
    for x in xs:
        s = s + (x if isinstance(x, C) else R.of(x))
    return s


@fn("sum", "nansum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    a = arr(a)
    if where is not None and where is not True:
        a = arr(_where(where, a, 0))
    t = tag_of(a)
    if t.kind == "b" or t.kind in "iu" and t.itemsize < 8:
        t = I64
    if dtype is not None:
        t = np.dtype(_realdt(dtype))
    r = _axis_reduce(a, axis, rsum, t, keepdims is True)
    if out is not None:
        out[...] = r
        return out
    return r


@fn("mean", "average")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None, weights=None):
    if weights is not None:
        w = arr(weights)
        a = arr(a)
        if w.ndim != a.ndim:
            sh = [1] * a.ndim
            sh[axis] = -1
            w = w.reshape(sh)
        ws = ufcall(np.add, (w, ufcall(np.multiply, (a, 0))))
        return ufcall(np.divide, (_sum(ufcall(np.multiply, (a, w)), axis=axis), _sum(ws, axis=axis)))
    if where is not None and where is not True:
        w = ufcall(np.add, (_where(where, 1.0, 0.0), ufcall(np.multiply, (a, 0))))
        return ufcall(np.divide, (_sum(_where(where, a, 0.0), axis=axis, keepdims=keepdims), _sum(w, axis=axis, keepdims=keepdims)))
    a = arr(a)
    t = tag_of(a)
    t = t if t.kind in "fc" else F64

    def red(xs):
        if not xs:
            return NAN
        s = rsum(xs)
        return s / R(F(len(xs)))

    return _axis_reduce(a, axis, red, t, keepdims is True)


def _varred(ddof):
    def red(xs):
        n = len(xs)
        if n - ddof <= 0:
            return NAN
        m = rsum(xs) / R(F(n))
        return rsum([(R.of(x) - m) * (R.of(x) - m) for x in xs]) / R(F(n - ddof))

    return red


@fn("var")
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = arr(a)
    return _axis_reduce(a, axis, _varred(ddof), F64, keepdims is True)


def std_red(ddof):
    v = _varred(ddof)

    def red(xs):
        if len(xs) >= 1 and all(not isinstance(x, C) for x in xs):
            if ddof == 0 and len(xs) == 1:
                return R(F(0))
            # homogeneous: std of c*x is |c|*std(x): pull a common scalar variable out when visible
            return r_sqrt_var(v(xs))
        return r_sqrt(v(xs))

    return red


def r_sqrt_var(x):
    """sqrt of a value that is a sum of squares: non-negative by construction, no fork"""
    from .core import POS, ZER, f_sign, _poly_def

    x = R.of(x)
    if x.is_const() or x.sp:
        return r_sqrt(x)
    e = eng()
    e.learn(x.sign(POS | ZER))
    # factor out even powers and the constant if it is a perfect square
    nf = list(x.nf)
    outf = []
    for p in set(nf):
        while nf.count(p) >= 2:
            nf.remove(p)
            nf.remove(p)
            outf.append(p)
    df = list(x.df)
    outd = []
    for p in set(df):
        while df.count(p) >= 2:
            df.remove(p)
            df.remove(p)
            outd.append(p)
    c = x.c
    rest = R(c, tuple(nf), tuple(df))
    base = r_sqrt_nofork(rest)
    res = base
    for p in outf:
        res = res * r_abs(R(F(1), (p,)))
    for p in outd:
        res = res / r_abs(R(F(1), (p,)))
    return res


def r_sqrt_nofork(x):
    from .core import POS, ZER, f_sign, f_and, _poly_def

    if x.is_const():
        return r_sqrt(x)
    e = eng()
    p = _poly_def(x)
    e.known[p.normal()[1]] = e.known.get(p.normal()[1], 7)

    def ev(m):
        v = p.ev(m)
        if v < 0:
            return None
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return F(a, b)
        return None

    def mkf(v):
        return f_and(f_sign(v, POS | ZER), f_sign(v.mul(v).add(p, -1), ZER)), ev

    v = e.define(("sqrt", p.key), "sqrt", mkf)
    return R.var(v)


@fn("std", "nanstd")
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = arr(a)
    return _axis_reduce(a, axis, std_red(ddof), F64, keepdims is True)


@fn("max", "amax", "nanmax")
def _max(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    a = arr(a)
    return _axis_reduce(a, axis, r_max, tag_of(a), keepdims is True)


@fn("min", "amin", "nanmin")
def _min(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    a = arr(a)
    return _axis_reduce(a, axis, r_min, tag_of(a), keepdims is True)


@fn("ptp")
def _ptp(a, axis=None, **k):
    return _max(a, axis) - _min(a, axis)


@fn("prod")
def _prod(a, axis=None, **k):
    a = arr(a)

    def red(xs):
        r = R(F(1), isint=True)
        for x in xs:
            r = r * R.of(x)
        return r

    return _axis_reduce(a, axis, red, tag_of(a))


def red_any(a):
    return B.mk(f_or(*[bf(x) for x in toobj(a).reshape(-1)]))


def red_all(a):
    return B.mk(f_and(*[bf(x) for x in toobj(a).reshape(-1)]))


@fn("any", "sometrue")
def _any(a, axis=None, out=None, keepdims=False, where=None):
    a = arr(a)
    if axis is None:
        return red_any(a)
    return _axis_reduce(a, axis, lambda xs: B.mk(f_or(*[bf(x) for x in xs])), BOOL)


@fn("all", "alltrue")
def _all(a, axis=None, out=None, keepdims=False, where=None):
    a = arr(a)
    if axis is None:
        return red_all(a)
    return _axis_reduce(a, axis, lambda xs: B.mk(f_and(*[bf(x) for x in xs])), BOOL)


@fn("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    A, Bb = np.broadcast_arrays(toobj(a), toobj(b))
    out = np.empty(A.shape, dtype=object)
    for i in np.ndindex(A.shape):
        x, y = R.of(A[i]), R.of(Bb[i])
        if x.sp or y.sp:
            out[i] = (x.sp == y.sp) and (x.sp != "nan" or equal_nan)
        else:
            out[i] = r_abs(x - y) <= R.of(atol) + R.of(rtol) * r_abs(y)
    return wrap(out, BOOL)


@fn("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol, equal_nan)
    return red_all(r) if isinstance(r, np.ndarray) else r


@fn("array_equal")
def _array_equal(a, b, equal_nan=False):
    A, Bb = toobj(a), toobj(b)
    if A.shape != Bb.shape:
        return False
    return B.mk(f_and(*[bf(R.of(x) == R.of(y)) for x, y in zip(A.reshape(-1), Bb.reshape(-1))]))


@fn("array_equiv")
def _array_equiv(a, b):
    A, Bb = np.broadcast_arrays(toobj(a), toobj(b))
    return _array_equal(A, Bb)


@fn("nonzero")
def _nonzero(a):
    a = arr(a)
    o = toobj(a)

    def go():
        m = np.empty(o.shape, dtype=bool)
        for i in np.ndindex(o.shape):
            m[i] = bool(o[i])
        return cc(np.nonzero(m))

    if o.ndim == 1:
        e = CUR.e
        und = sum(1 for x in o if (isinstance(x, B) and e.simp(x.f) is None))
        if und > 1:
            o = o.copy()
            return (Lazy(lambda: go()[0], lambda: rsum([_cnt(x) for x in o])),)
    return go()


@fn("flatnonzero")
def _flatnonzero(a):
    a = arr(a)
    return _nonzero(mk(toobj(a).reshape(-1), tag_of(a)))[0]


@fn("argwhere")
def _argwhere(a):
    return np.transpose(_nonzero(a))


@fn("count_nonzero")
def _count_nonzero(a, axis=None, **k):
    a = arr(a)
    o = toobj(a)
    if tag_of(a).kind != "b":
        a = ufcall(np.not_equal, (a, 0))
    return _sum(a, axis=axis)


@fn("where")
def _where(c, x=None, y=None):
    if x is None and y is None:
        return _nonzero(c)
    co, xo, yo = np.broadcast_arrays(toobj(c), toobj(x), toobj(y))
    tag = rtype(x, y)
    out = np.empty(co.shape, dtype=object)
    for i in np.ndindex(co.shape):
        cc = co[i]
        if isinstance(cc, B) and tag.kind in "f":
            s = eng().simp(cc.f)
            if s is None:
                out[i] = ite(cc, R.of(xo[i]), R.of(yo[i]))
                continue
            cc = s
        out[i] = xo[i] if bool(cc) else yo[i]
    return wrap(out, tag)


def ite(c, a, b):
    from .core import ZER, Poly, f_eval, f_sign, _poly_def

    if a.sp or b.sp or a.key() == b.key():
        return a if bool(c) else b
    e = eng()
    pa, pb = _poly_def(a), _poly_def(b)
    f = c.f

    def mkf(v):
        return (
            f_or(f_and(f, f_sign(v.add(pa, -1), ZER)), f_and(f_not(f), f_sign(v.add(pb, -1), ZER))),
            lambda m: pa.ev(m) if f_eval(f, m) else pb.ev(m),
        )

    v = e.define(("ite", f, pa.key, pb.key), "ite", mkf)
    return R.var(v)


@fn("diff")
def _diff(a, n=1, axis=-1, prepend=None, append=None):
    a = arr(a)
    if prepend is not None and prepend is not np._NoValue:
        p = prepend
        a = concat([arr(p) if np.ndim(strip(p)) else [p], a])
    if append is not None and append is not np._NoValue:
        p = append
        a = concat([a, arr(p) if np.ndim(strip(p)) else [p]])
    for _ in range(n):
        if not isinstance(a, SymArray):
            a = np.diff(a, axis=axis)
            continue
        o = a
        sl1 = [slice(None)] * o.ndim
        sl2 = [slice(None)] * o.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        if a._tag.kind == "b":
            a = ufcall(np.logical_xor, (o[tuple(sl1)], o[tuple(sl2)]))
        else:
            a = ufcall(np.subtract, (o[tuple(sl1)], o[tuple(sl2)]))
    return a


def concat(seq, axis=0):
    parts = [arr(x) for x in seq]
    if not parts:
        raise ValueError("need at least one array to concatenate")
    tag = np.result_type(*[tag_of(p) for p in parts])
    objs = [toobj(p) for p in parts]
    if axis is None:
        objs = [o.reshape(-1) for o in objs]
        axis = 0
    r = np.concatenate(objs, axis=axis)
    return wrap(r, tag, False)


@fn("concatenate")
def _concatenate(seq, axis=0, out=None, dtype=None, casting=None):
    r = concat(list(seq), axis)
    return r.astype(dtype) if dtype is not None else r


def _atl(n):
    def f(x):
        a = arr(x)
        o = toobj(a)
        t = tag_of(a)
        o = (np.atleast_1d, np.atleast_2d, np.atleast_3d)[n - 1](o)
        return wrap(o, t, False)

    return f


FUNCS["atleast_1d"] = _atl(1)
FUNCS["atleast_2d"] = _atl(2)


@fn("vstack", "row_stack")
def _vstack(tup, **k):
    return concat([_atl(2)(x) for x in tup], 0)


@fn("hstack")
def _hstack(tup, **k):
    ps = [_atl(1)(x) for x in tup]
    if ps and ps[0].ndim == 1:
        return concat(ps, 0)
    return concat(ps, 1)


@fn("column_stack")
def _column_stack(tup):
    ps = []
    for x in tup:
        a = arr(x)
        ps.append(a.reshape(-1, 1) if a.ndim < 2 else a)
    return concat(ps, 1)


@fn("stack")
def _stack(seq, axis=0, **k):
    ps = [arr(x) for x in seq]
    tag = np.result_type(*[tag_of(p) for p in ps])
    return wrap(np.stack([toobj(p) for p in ps], axis=axis), tag, False)


@fn("append")
def _append(a, v, axis=None):
    if axis is None:
        x, y = arr(a), arr(v)
        return concat([x.reshape(-1), y.reshape(-1)], 0)
    return concat([a, v], axis)


@fn("insert")
def _insert(a, obj, values, axis=None):
    a = arr(a)
    tag = tag_of(a)
    v = toobj(values) if np.ndim(strip(values)) or isinstance(values, (list, tuple, np.ndarray)) else values
    return wrap(np.insert(toobj(a), conc_index(obj), v, axis=axis), tag, False)


@fn("delete")
def _delete(a, obj, axis=None):
    a = arr(a)
    return wrap(np.delete(toobj(a), conc_index(obj) if not isinstance(obj, tuple) else tuple(conc_index(o) for o in obj), axis=axis), tag_of(a), False)


def _along(f, o, axis, tag, dt=None, red=False):
    """apply a one-dimensional function along an axis"""
    o2 = np.moveaxis(o, axis, -1)
    out = np.empty(o2.shape[:-1] if red else o2.shape, dtype=dt or object)
    for i in np.ndindex(o2.shape[:-1]):
        r = f(mk(o2[i], tag))
        out[i] = r if red or dt else toobj(r)
    out = out if red else np.moveaxis(out, -1, axis)
    return out if dt else wrap(out, tag, False)


@fn("sort")
def _sort(a, axis=-1, kind=None, order=None, **k):
    a = arr(a)
    o = toobj(a)
    if axis is None:
        o = o.reshape(-1)
    if o.ndim != 1:
        return _along(_sort, o, axis, tag_of(a))
    import functools

    def cmp(x, y):
        if bool(R.of(x) < R.of(y)):
            return -1
        if bool(R.of(x) > R.of(y)):
            return 1
        return 0

    return wrap(_stack_list(sorted(o, key=functools.cmp_to_key(cmp))), tag_of(a), False)


@fn("argsort")
def _argsort(a, axis=-1, kind=None, order=None, **k):
    o = toobj(arr(a))
    if axis is None:
        o = o.reshape(-1)
    if o.ndim != 1:
        return _along(_argsort, o, axis, tag_of(arr(a)), np.int64)
    import functools

    def cmp(i, j):
        if bool(R.of(o[i]) < R.of(o[j])):
            return -1
        if bool(R.of(o[i]) > R.of(o[j])):
            return 1
        return i - j

    return np.array(sorted(range(len(o)), key=functools.cmp_to_key(cmp)), dtype=np.int64)


@fn("argmax")
def _argmax(a, axis=None, **k):
    o = toobj(arr(a))
    if axis is not None and o.ndim > 1:
        return _along(_argmax, o, axis, tag_of(arr(a)), np.int64, True)
    o = o.reshape(-1)
    if not len(o):
        raise ValueError("attempt to get argmax of an empty sequence")
    b = 0
    for i in range(1, len(o)):
        if bool(R.of(o[i]) > R.of(o[b])):
            b = i
    return np.int64(b)


@fn("argmin")
def _argmin(a, axis=None, **k):
    a = arr(a)
    return _argmax(ufcall(np.negative, (a,)), axis)


@fn("unique")
def _unique(a, return_index=False, **k):
    if any(k.values()):
        raise Unsupported("unique options")
    a = arr(a)
    idx = list(_argsort(mk(toobj(a).reshape(-1), tag_of(a))))
    o = toobj(a).reshape(-1)
    keep = []
    for i in idx:
        if keep and bool(R.of(o[keep[-1]]) == R.of(o[i])):
            continue
        keep.append(i)
    r = wrap(_stack_list([o[i] for i in keep]), tag_of(a), False)
    return (r, np.array(keep, dtype=np.int64)) if return_index else r


@fn("cumsum")
def _cumsum(a, axis=None, dtype=None, out=None):
    a = arr(a)
    o = toobj(a)
    if o.ndim != 1:
        if axis is None:
            o = o.reshape(-1)
        else:
            o2 = np.moveaxis(o, axis, 0)
            out_ = np.empty(o2.shape, dtype=object)
            acc = None
            for i in range(len(o2)):
                acc = o2[i] if acc is None else acc + o2[i]
                out_[i] = acc
            return wrap(np.moveaxis(out_, 0, axis), tag_of(a), False)
    res, acc = [], R(F(0), isint=True)
    for x in o:
        acc = acc + R.of(x)
        res.append(acc)
    return wrap(_stack_list(res), tag_of(a) if tag_of(a).kind != "b" else I64, False)


@fn("round", "around", "round_")
def _round(a, decimals=0, out=None):
    a = arr(a)
    if tag_of(a).kind in "iub" and decimals >= 0:
        return a
    if decimals:
        k = R(F(10) ** int(decimals))
        return _emap(lambda x: s_rint(R.of(x) * k) / k, a, tag_of(a))
    return _emap(s_rint, a, tag_of(a))


@fn("clip")
def _clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = a
    if a_min is not None:
        r = ufcall(np.maximum, (r, a_min))
    if a_max is not None:
        r = ufcall(np.minimum, (r, a_max))
    return r


@fn("dot", "matmul", "inner", "vdot")
def _dot(a, b, out=None):
    A, Bm = toobj(arr(a)), toobj(arr(b))
    tag = np.result_type(tag_of(arr(a)), tag_of(arr(b)))
    if A.ndim == 0 or Bm.ndim == 0:
        return ufcall(np.multiply, (a, b))

    def ip(u, v):
        s = R(F(0), isint=True)
        for x, y in zip(u, v):
            s = s + R.of(x) * R.of(y)
        return s

    if A.shape[-1] != Bm.shape[-2 if Bm.ndim > 1 else 0]:
        raise ValueError("shapes %s and %s not aligned" % (A.shape, Bm.shape))
    if A.ndim == 1 and Bm.ndim == 1:
        return conv(ip(A, Bm), tag)
    if A.ndim == 2 and Bm.ndim == 1:
        return wrap(_stack_list([ip(r, Bm) for r in A]), tag, False)
    if A.ndim == 1 and Bm.ndim == 2:
        return wrap(_stack_list([ip(A, Bm[:, j]) for j in range(Bm.shape[1])]), tag, False)
    if A.ndim == 2 and Bm.ndim == 2:
        return wrap(_stack_list([[ip(r, Bm[:, j]) for j in range(Bm.shape[1])] for r in A]), tag, False)
    raise Unsupported("dot nd")


def lin_solve(A, bcols):
    """Gaussian elimination with symbolic pivots (forks on zero pivots)."""
    A = [[R.of(x) for x in row] for row in A]
    bb = [[R.of(x) for x in row] for row in bcols]
    n = len(A)
    for i in range(n):
        p = None
        for r in range(i, n):
            x = A[r][i]
            if x.is_const() and x.c == 0:
                continue
            if x.is_const() or not bool(x == 0):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        A[i], A[p] = A[p], A[i]
        bb[i], bb[p] = bb[p], bb[i]
        inv = A[i][i].inv()
        for r in range(n):
            if r != i:
                if A[r][i].is_const() and A[r][i].c == 0:
                    continue
                k = A[r][i] * inv
                for c in range(i, n):
                    A[r][c] = A[r][c] - k * A[i][c]
                for c in range(len(bb[r])):
                    bb[r][c] = bb[r][c] - k * bb[i][c]
    return [[bb[i][c] * A[i][i].inv() for c in range(len(bb[i]))] for i in range(n)]


@fn("linalg.solve")
def _solve(A, b):
    _linalg_type(A, b)
    Ao, bo = toobj(arr(A)), toobj(arr(b))
    if Ao.shape[0] != Ao.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if bo.ndim == 1:
        r = lin_solve(Ao.tolist(), [[x] for x in bo])
        return wrap(_stack_list([x[0] for x in r]), F64, False)
    return wrap(_stack_list(lin_solve(Ao.tolist(), bo.tolist())), F64, False)


@fn("linalg.inv")
def _inv(A):
    _linalg_type(A)
    n = len(A)
    eye = [[R(F(1 if i == j else 0)) for j in range(n)] for i in range(n)]
    return wrap(_stack_list(lin_solve(toobj(arr(A)).tolist(), eye)), F64, False)


@fn("linalg.norm")
def _norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported("norm options")
    o = toobj(arr(x)).reshape(-1)
    return r_sqrt_var(rsum([R.of(v) * R.of(v) for v in o]))


@fn("gradient")
def _gradient(f, *varargs, axis=None, edge_order=1):
    y = [R.of(v) for v in toobj(arr(f))]
    n = len(y)
    if n < 2:
        raise ValueError("Shape of array too small to calculate a numerical gradient, at least (edge_order + 1) elements are required.")
    if not varargs:
        x = [R(F(i)) for i in range(n)]
    elif np.ndim(strip(varargs[0])) == 0 and not isinstance(varargs[0], np.ndarray):
        h = R.of(varargs[0])
        x = [h * i for i in range(n)]
    else:
        x = [R.of(v) for v in toobj(arr(varargs[0]))]
    if edge_order != 1 or len(varargs) > 1:
        raise Unsupported("gradient options")
    out = [None] * n
    out[0] = (y[1] - y[0]) / (x[1] - x[0])
    out[-1] = (y[-1] - y[-2]) / (x[-1] - x[-2])
    for i in range(1, n - 1):
        h1, h2 = x[i] - x[i - 1], x[i + 1] - x[i]
        a = -h2 / (h1 * (h1 + h2))
        b = (h2 - h1) / (h1 * h2)
        c = h1 / (h2 * (h1 + h2))
        out[i] = a * y[i - 1] + b * y[i] + c * y[i + 1]
    return wrap(_stack_list(out), F64, False)


@fn("interp")
def _interp(x, xp, fp, left=None, right=None, period=None):
    X = [R.of(v) for v in toobj(arr(xp))]
    Y = [R.of(v) for v in toobj(arr(fp))]
    if period is not None:
        raise Unsupported("interp period")

    def one(t):
        t = R.of(t)
        if bool(t < X[0]):
            return Y[0] if left is None else R.of(left)
        if bool(t > X[-1]):
            return Y[-1] if right is None else R.of(right)
        for i in range(len(X) - 1):
            if bool(t <= X[i + 1]):
                return Y[i] + (Y[i + 1] - Y[i]) * ((t - X[i]) / (X[i + 1] - X[i]))
        return Y[-1]

    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        return _emap(one, arr(x), F64)
    return one(x)


@fn("searchsorted")
def _searchsorted(a, v, side="left", sorter=None):
    A = [R.of(x) for x in toobj(arr(a))]

    def one(t):
        t = R.of(t)
        for i, x in enumerate(A):
            if bool(x >= t) if side == "left" else bool(x > t):
                return i
        return len(A)

    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        o = toobj(arr(v))
        return np.array([one(t) for t in o.reshape(-1)], dtype=np.int64).reshape(o.shape)
    return np.int64(one(v))


@fn("isin", "in1d")
def _isin(a, test, **k):
    T = list(toobj(arr(test)).reshape(-1))
    return _emap(lambda x: B.mk(f_or(*[bf(R.of(x) == R.of(t)) for t in T])), arr(a), BOOL)


@fn("full_like")
def _full_like(a, v, dtype=None, **k):
    return mk_full(a.shape, v, _realdt(dtype) if dtype is not None else tag_of(a))


@fn("zeros_like")
def _zeros_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return mk_full(shape if shape is not None else a.shape, 0, _realdt(dtype) if dtype is not None else tag_of(a))


@fn("empty_like")
def _empty_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return mk_empty(shape if shape is not None else a.shape, _realdt(dtype) if dtype is not None else tag_of(a))


@fn("ones_like")
def _ones_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return mk_full(shape if shape is not None else a.shape, 1, _realdt(dtype) if dtype is not None else tag_of(a))


def mk_empty(shape, tag):
    """uninitialised memory: fresh unconstrained values"""
    a = mk_full(shape, 0, tag)
    if np.dtype(tag).kind == "f" and a.size:
        e = CUR.e
        if e is not None:
            o = a.view(np.ndarray)
            for i in np.ndindex(o.shape):
                v = e.fresh("uninit")
                if e.model is not None:
                    e.model[v] = F(-77777, 7)
                o[i] = R.var(v)
    return a


@fn("array")
def _array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    a = arr(x)
    if dtype is not None:
        a = a.astype(np.dtype(_realdt(dtype))) if not isinstance(a, (R, B)) else a
    else:
        a = a.copy()
    while a.ndim < ndmin:
        a = a[None]
    return a


@fn("asarray", "asanyarray", "ascontiguousarray", "asfarray")
def _asarray(x, dtype=None, **k):
    a = arr(x)
    if dtype is not None and np.dtype(_realdt(dtype)) != tag_of(a):
        a = a.astype(np.dtype(_realdt(dtype)))
    return a


@fn("copy")
def _copy(a, **k):
    return arr(a).copy()


@fn("angle")
def _angle(z, deg=False):
    return _emap(s_angle, arr(z), F64)


@fn("unwrap")
def _unwrap(p, discont=None, axis=-1, period=None, **k):
    raise Unsupported("unwrap")


@fn("real")
def _real(a):
    return a.real


@fn("imag")
def _imag(a):
    return a.imag


@fn("isreal")
def _isreal(a):
    return np.ones(a.shape, dtype=bool)


@fn("iscomplexobj")
def _iscomplexobj(a):
    return tag_of(a).kind == "c"


@fn("copyto")
def _copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        raise Unsupported("copyto where")
    dst[...] = src


@fn("einsum")
def _einsum(spec, *ops, **k):
    t = rtype(*ops)
    return wrap(np.einsum(spec, *[toobj(arr(x)) for x in ops]), t, False)


@fn("quantile", "nanquantile")
def _quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **k):
    if method != "linear" or keepdims is True:
        raise Unsupported("quantile method")
    if np.ndim(q):
        return _stack([_quantile(a, x, axis) for x in q])
    a = arr(a)
    q = R.of(q)
    t = tag_of(a) if tag_of(a).kind == "f" else F64

    def red(xs):
        if not xs:
            return NAN
        if any(isinstance(x, R) and x.sp for x in xs):
            raise Unsupported("quantile of infinite values")
        s = [R.of(x) for x in toobj(_sort(wrap(_stack_list(xs), tag_of(a), False)))]
        pos = q * R(F(len(s) - 1))
        if not pos.is_const():
            raise Unsupported("symbolic quantile")
        lo = pos.c.numerator // pos.c.denominator
        fr = pos.c - lo
        return s[lo] if not fr else s[lo] + (s[lo + 1] - s[lo]) * R(fr)

    return _axis_reduce(a, axis, red, t)


@fn("median", "nanmedian")
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    r = _quantile(a, R(F(1, 2)), axis)
    return r[..., None] if keepdims is True and axis in (-1, np.ndim(a) - 1) else r


@fn("percentile", "nanpercentile")
def _percentile(a, q, axis=None, **k):
    return _quantile(a, [R.of(x) / R(F(100)) for x in q] if np.ndim(q) else R.of(q) / R(F(100)), axis, **k)


@fn("convolve")
def _convolve(a, v, mode="full"):
    a, v = arr(a), arr(v)
    x, y = [R.of(z) for z in toobj(a).reshape(-1)], [R.of(z) for z in toobj(v).reshape(-1)]
    if len(y) > len(x):
        x, y = y, x
    full = [rsum([x[i - j] * y[j] for j in range(len(y)) if 0 <= i - j < len(x)]) for i in range(len(x) + len(y) - 1)]
    if mode == "same":
        k = (len(y) - 1) // 2
        full = full[k : k + len(x)]
    elif mode == "valid":
        full = full[len(y) - 1 : len(x)]
    return wrap(_stack_list(full), rtype(a, v), False)


@fn("correlate")
def _correlate(a, v, mode="valid"):
    a, v = arr(a), arr(v)
    if len(v) > len(a):
        return _correlate(v, a, mode)[::-1]
    return _convolve(a, v[::-1], mode)


@fn("cumprod")
def _cumprod(a, axis=None, dtype=None, out=None):
    a = arr(a)
    o = toobj(a)
    if o.ndim > 1 and axis is not None:
        return _along(_cumprod, o, axis, tag_of(a))
    res, acc = [], R(F(1), isint=True)
    for x in o.reshape(-1):
        acc = acc * R.of(x)
        res.append(acc)
    return wrap(_stack_list(res), tag_of(a) if tag_of(a).kind != "b" else I64, False)


@fn("outer")
def _outer(a, b, out=None):
    return ufcall(np.multiply, (arr(a).reshape(-1)[:, None], arr(b).reshape(-1)[None, :]))


@fn("ediff1d")
def _ediff1d(a, to_end=None, to_begin=None):
    r = _diff(arr(a).reshape(-1))
    parts = ([arr(to_begin).reshape(-1)] if to_begin is not None else []) + [r] + ([arr(to_end).reshape(-1)] if to_end is not None else [])
    return _concatenate(parts)


@fn("trapezoid", "trapz")
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = arr(y)
    d = dx if x is None else _diff(arr(x))
    if y.ndim != 1:
        raise Unsupported("trapz nd")
    return _sum(ufcall(np.multiply, (ufcall(np.add, (y[1:], y[:-1])), ufcall(np.multiply, (d, 0.5)))))


@fn("nanmean")
def _nanmean(a, axis=None, **k):
    return _mean(a, axis=axis, where=ufcall(np.logical_not, (ufcall(np.isnan, (arr(a),)),)))


@fn("nan_to_num")
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = arr(x)
    return _where(ufcall(np.isnan, (x,)), nan, x)


@fn("union1d")
def _union1d(a, b):
    return _unique(_concatenate([arr(a).reshape(-1), arr(b).reshape(-1)]))


@fn("intersect1d")
def _intersect1d(a, b, assume_unique=False, **k):
    u = _unique(a)
    return u[np.array([bool(x) for x in toobj(arr(FUNCS["isin"](u, b))).reshape(-1)], dtype=bool)] if len(u) else u


@fn("setdiff1d")
def _setdiff1d(a, b, assume_unique=False):
    u = _unique(a)
    return u[np.array([not bool(x) for x in toobj(arr(FUNCS["isin"](u, b))).reshape(-1)], dtype=bool)] if len(u) else u


@fn("select")
def _select(conds, choices, default=0):
    r = default
    for c, x in list(zip(conds, choices))[::-1]:
        r = _where(c, x, r)
    return r


@fn("apply_along_axis")
def _apply_along_axis(f, axis, a, *args, **k):
    o = toobj(arr(a))
    o2 = np.moveaxis(o, axis, -1)
    rs = {i: f(mk(o2[i], tag_of(a)), *args, **k) for i in np.ndindex(o2.shape[:-1])}
    one = next(iter(rs.values()))
    if np.ndim(one) == 0:
        out = np.empty(o2.shape[:-1], dtype=object)
        for i, v in rs.items():
            out[i] = v
        return wrap(out, tag_of(arr(one)) if has_sym(one) else F64, False)
    out = np.empty(o2.shape[:-1] + (len(one),), dtype=object)
    for i, v in rs.items():
        out[i] = toobj(arr(v))
    return wrap(np.moveaxis(out, -1, axis), tag_of(arr(one)), False)


@fn("polyval")
def _polyval(p, x):
    r = 0
    for c in (toobj(arr(p)).reshape(-1) if not isinstance(p, (list, tuple)) else p):
        r = r * x + c
    return r


@fn("digitize")
def _digitize(x, bins, right=False):
    return FUNCS["searchsorted"](bins, x, side="left" if right else "right")


@fn("fix")
def _fix(x, out=None):
    return ufcall(np.trunc, (x,))


@fn("compress", "extract")
def _compress(c, a, axis=None, out=None):
    m = np.array([bool(x) for x in toobj(arr(c)).reshape(-1)], dtype=bool)
    return arr(a)[m] if axis is None and np.ndim(a) == 1 else _where_nd(m, a, axis)


def _where_nd(m, a, axis):
    raise Unsupported("compress nd")


@fn("partition")
def _partition(a, kth, axis=-1, **k):
    return _sort(a, axis)


@fn("dstack")
def _dstack(xs):
    xs = [arr(x) for x in xs]
    return _concatenate([x.reshape((1, -1, 1)) if x.ndim == 1 else x[:, :, None] if x.ndim == 2 else x for x in xs], axis=2)


@fn("block")
def _block(xs):
    if not isinstance(xs, list):
        return arr(xs)
    if isinstance(xs[0], list):
        return _vstack([_block(x) for x in xs])
    return _hstack(xs)


@fn("histogram", "polyfit", "corrcoef", "cov")
def _nope(*a, **k):
    raise Unsupported("numpy function not encoded")


@fn("can_cast")
def _can_cast(a, b, casting="safe"):
    return np.can_cast(tag_of(a) or a, b, casting)


@fn("result_type")
def _result_type(*xs):
    return np.result_type(*[(tag_of(x) if has_sym(x) else x) for x in xs])


@fn("promote_types")
def _promote_types(a, b):
    return np.promote_types(_realdt(a), _realdt(b))


@fn("shape")
def _shape(a):
    return arr(a).shape


@fn("size")
def _size(a, axis=None):
    a = arr(a)
    return a.size if axis is None else a.shape[axis]


@fn("ndim")
def _ndim(a):
    return arr(a).ndim


@fn("maximum_filter")
def _mf(*a, **k):
    raise Unsupported("maximum_filter")


# functions whose real implementation works on object arrays by pure data movement
MOVE = {
    "reshape", "ravel", "transpose", "swapaxes", "moveaxis", "rollaxis", "squeeze", "expand_dims", "flip", "fliplr",
    "flipud", "rot90", "roll", "repeat", "tile", "take", "split", "array_split", "hsplit", "vsplit", "broadcast_to",
    "broadcast_arrays", "diag", "diagonal", "tril", "triu", "pad", "resize", "trim_zeros",
    "take_along_axis",
}


def func_dispatch(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    if "linalg" in mod:
        name = "linalg." + name
    if name in FUNCS:
        kwargs = {k: v for k, v in kwargs.items() if v is not np._NoValue}
        return cc(FUNCS[name](*args, **kwargs))
    if name in MOVE:
        syms = [a for a in args if isinstance(a, np.ndarray)] + [a for a in kwargs.values() if isinstance(a, np.ndarray)]
        tag = None
        for a in args:
            if isinstance(a, SymArray):
                tag = a._tag
                break
            if isinstance(a, (list, tuple)) and has_sym(a):
                tag = tag_of(a)
                break
        args = [conc_index(a) if isinstance(a, SymArray) and i > 0 and name in ("take", "compress", "repeat", "roll") else a for i, a in enumerate(args)]
        r = func(*strip(tuple(args)), **strip(kwargs))
        return _rewrap(r, tag or F64)
    raise Unsupported("numpy function " + name)


def _rewrap(r, tag):
    if isinstance(r, np.ndarray) and r.dtype == OBJ:
        return mk(r, tag)  # keep views (aliasing) intact
    if isinstance(r, (list, tuple)):
        return type(r)(_rewrap(x, tag) for x in r)
    return r


# ----------------------------------------------------------------------------
# numpy module shim


class _RClass:
    """np.r_ replacement"""

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        parts = []
        for x in ix:
            if isinstance(x, slice):
                parts.append(np.r_[conc_index(x)])
            elif isinstance(x, str):
                raise Unsupported("np.r_ directive")
            else:
                a = arr(x)
                parts.append(a if a.ndim else a.reshape(1))
        return concat(parts, 0)


class NumpyShim(types.ModuleType):
    """numpy as seen by the analysed code: constructors give symbolic-capable
    arrays, everything else is numpy itself (dispatching back to us for symbolic
    operands)."""

    def __init__(self, rng_factory, exact_T=True):
        super().__init__("numpy")
        self.__dict__["__path__"] = []
        self._rng = rng_factory
        d = self.__dict__
        for n in ("float64", "float32", "float16", "int64", "intp", "uint8", "uint16", "uint32", "uint64", "int32", "bool_", "ndarray"):
            d[n] = getattr(np, n)
        d["r_"] = _RClass()
        d["random"] = rng_factory
        d["linalg"] = _Linalg()

    def __getattr__(self, name):
        r = getattr(np, name)
        if name in FUNCS and not isinstance(r, np.ufunc):
            f = FUNCS[name]

            def g(*a, **k):
                if has_lazy(a) or has_lazy(tuple(k.values())):
                    if name in LAZY_OK and not k:
                        b = _snap(a)
                        return Lazy(lambda: g(*unlazy(b)), lambda: _lazy_len(name, b))
                    a, k = unlazy(a), {kk: unlazy(v) for kk, v in k.items()}
                if has_sym(a) or has_sym(tuple(k.values())):
                    return cc(f(*a, **k))
                return cc(r(*_clean(a), **{kk: _clean1(v) for kk, v in k.items()}))

            g.__name__ = name
            return g
        if isinstance(r, np.ufunc):
            return UfProxy(r)
        return r

    # constructors
    def zeros(self, shape, dtype=None, order="C", **k):
        return _ctor(shape, 0, dtype)

    def ones(self, shape, dtype=None, order="C", **k):
        return _ctor(shape, 1, dtype)

    def empty(self, shape, dtype=None, order="C", **k):
        dt = np.dtype(_realdt(dtype))
        if dt.kind == "f":
            return mk_empty(shape, dt)
        return cc(np.zeros(_shape1(shape), dtype=dt))

    def full(self, shape, v, dtype=None, order="C", **k):
        if dtype is None:
            dtype = tag_of(v) or rtype(v)
            if isinstance(v, int) and not isinstance(v, bool):
                dtype = I64
            elif isinstance(v, float):
                dtype = F64
        return _ctor(shape, v, dtype)

    def eye(self, *a, **k):
        return wrap(np.eye(*_clean(a), **k).astype(object), F64, False)

    identity = eye

    def zeros_like(self, a, dtype=None, **k):
        return _ctor(a.shape, 0, dtype if dtype is not None else tag_of(a))

    def ones_like(self, a, dtype=None, **k):
        return _ctor(a.shape, 1, dtype if dtype is not None else tag_of(a))

    def empty_like(self, a, dtype=None, **k):
        return self.empty(a.shape, dtype if dtype is not None else tag_of(a))

    def arange(self, *a, dtype=None, **k):
        from .special import SymTimeline, sym_arange

        a = list(a)
        if any(isinstance(x, R) and not x.is_const() for x in a):
            t = sym_arange(a, dtype)
            if t is not None:
                return t
            a = [x.__index__() if isinstance(x, R) else x for x in a]
        a = [(int(x.c) if x.c.denominator == 1 else float(x)) if isinstance(x, R) else x for x in a]
        r = np.arange(*a, dtype=None if dtype is None else np.dtype(_realdt(dtype)), **k)
        return _lift(r)

    def linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        n = num.__index__() if isinstance(num, R) else num
        s, e = R.of(start), R.of(stop)
        div = n - 1 if endpoint else n
        vals = [s + (e - s) * F(i, div) if div else s for i in range(n)]
        return wrap(_stack_list(vals), F64 if dtype is None else np.dtype(_realdt(dtype)), False)

    def array(self, x, dtype=None, **k):
        x = unlazy(x)
        if isinstance(x, SymMatrix):
            return wrap(x.o.copy(), F64 if dtype is None else np.dtype(_realdt(dtype)), False)
        if isinstance(x, SymArray) or has_sym(x) or (isinstance(x, (list, tuple)) and _deep_sym(x)):
            return _array(x, dtype=dtype, **k)
        r = np.array(x, dtype=None if dtype is None else np.dtype(_realdt(dtype)), **k)
        return _lift(r)

    def asarray(self, x, dtype=None, **k):
        x = unlazy(x)
        if isinstance(x, SymMatrix):
            return wrap(x.o, F64 if dtype is None else np.dtype(_realdt(dtype)), False)
        if isinstance(x, SymArray) or has_sym(x):
            return _asarray(x, dtype=dtype)
        return _lift(np.asarray(x, dtype=None if dtype is None else np.dtype(_realdt(dtype)), **k))

    asanyarray = asarray
    ascontiguousarray = asarray

    def matrix(self, x):
        return SymMatrix(x)

    def meshgrid(self, *xs, **k):
        return np.meshgrid(*xs, **k)

    def dtype(self, x, *a, **k):
        return np.dtype(_realdt(x), *a, **k)

    def issubdtype(self, a, b):
        return np.issubdtype(_realdt(a), _realdt(b) if hasattr(b, "__symx_real__") else b)

    def finfo(self, d):
        return np.finfo(_realdt(d))

    def iinfo(self, d):
        return np.iinfo(_realdt(d))

    def isscalar(self, x):
        return isinstance(x, (R, B)) or np.isscalar(x)

    def errstate(self, *a, **k):
        return np.errstate(*a, **k)

    def vectorize(self, f, **k):
        return lambda a: _emap(f, arr(a), tag_of(arr(a)))

    def fromiter(self, it, dtype, count=-1, **k):
        return self.array(list(it), dtype=dtype)


class UfProxy:
    """ufunc seen by analysed code: sends symbolic scalars/lists to us"""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        a = unlazy(a)
        if any(isinstance(x, SymArray) for x in a) or not any(has_sym(x) for x in a):
            return self._uf(*a, **k)
        return ufunc_dispatch(self._uf, "__call__", a, k)

    def reduce(self, a, **k):
        return self._uf.reduce(a if isinstance(a, np.ndarray) else arr(a), **k)

    def accumulate(self, a, **k):
        return self._uf.accumulate(a if isinstance(a, np.ndarray) else arr(a), **k)

    def __getattr__(self, n):
        return getattr(self._uf, n)


class SymMatrix:
    """minimal np.matrix: product, transpose"""

    def __init__(self, x):
        o = toobj(x) if not isinstance(x, SymMatrix) else x.o
        self.o = np.atleast_2d(o)

    @property
    def T(self):
        m = SymMatrix(self.o)
        m.o = self.o.T
        return m

    def __mul__(self, o):
        b = o.o if isinstance(o, SymMatrix) else toobj(arr(o))
        return SymMatrix(toobj(_dot(mk(self.o, F64), mk(b, F64))))

    __matmul__ = __mul__

    @property
    def I(self):
        return SymMatrix(toobj(_inv(mk(self.o, F64))))

    @property
    def A1(self):
        return wrap(self.o.reshape(-1), F64, False)

    @property
    def A(self):
        return wrap(self.o, F64, False)


class _Linalg:
    LinAlgError = np.linalg.LinAlgError

    def solve(self, A, b):
        if has_sym(A) or has_sym(b):
            return _solve(A, b)
        return _lift(np.linalg.solve(A, b))

    def inv(self, A):
        if isinstance(A, SymMatrix):
            return SymMatrix(toobj(_inv(mk(A.o, F64))))
        return _inv(A)

    def norm(self, x, *a, **k):
        return _norm(x, *a, **k)

    def __getattr__(self, n):
        raise Unsupported("np.linalg." + n)


def _deep_sym(x):
    if isinstance(x, (SymArray, R, B, C)):
        return True
    if isinstance(x, SymMatrix):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    return False


def _lift(r):
    """concrete numpy result -> SymArray for floats (exact), plain otherwise"""
    if isinstance(r, np.ndarray) and r.dtype.kind == "f":
        return wrap(r.astype(object), r.dtype, False)
    return cc(r)


def _clean1(v):
    if isinstance(v, type) and hasattr(v, "__symx_real__"):
        return v.__symx_real__
    return v


def _clean(a):
    return tuple(_clean1(x) for x in a)


def _shape1(shape):
    if isinstance(shape, (R, B)):
        return shape.__index__()
    if isinstance(shape, (tuple, list)):
        return tuple(s.__index__() if isinstance(s, (R, B)) else s for s in shape)
    return shape


def _ctor(shape, v, dtype):
    dt = np.dtype(_realdt(dtype))
    if dt.kind in "fc":
        return mk_full(_shape1(shape), v, dt)
    if dt.kind in "iu" and has_sym(v):
        return mk_full(_shape1(shape), v, dt)
    if dt.kind == "b":
        return mk_full(_shape1(shape), v, dt)
    return cc(np.full(_shape1(shape), v, dtype=dt))


def _scalar_ufunc(self, ufunc, method, *inputs, **kw):
    return ufunc_dispatch(ufunc, method, inputs, kw)


R.__array_ufunc__ = _scalar_ufunc
B.__array_ufunc__ = _scalar_ufunc
C.__array_ufunc__ = _scalar_ufunc
