"""Symbolic arrays: numpy object arrays whose elements may be symbolic scalars.

Indexing, slicing, views, broadcasting and in-place semantics are numpy's own; this module supplies the
element arithmetic (universal functions), the functions that need comparisons, and the functions numpy would
hand to compiled code that cannot work on objects.
"""
import itertools
import math

import weakref

import numpy as np

from . import terms as tm
from .engine import *  # noqa: F401,F403
from .engine import _Base, _q, NAN, PINF, NINF
from . import engine as en

_RANK = {"b": 0, "i": 1, "f": 2}
_DT = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(np.float64), "o": np.dtype(object)}


def ld_of(dtype):
    if dtype is None:
        return "f"
    k = np.dtype(dtype).kind
    return {"b": "b", "i": "i", "u": "i", "f": "f", "O": "o"}.get(k, "o")


_LDT = {np.float64: "f", float: "f", bool: "b", np.bool_: "b", int: "i", np.int64: "i"}


def ld_el(x):
    k = _LDT.get(type(x))
    if k:
        return k
    if isinstance(x, SymB) or isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, Sym):
        return "i" if x.t.sort == "I" else "f"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    return "o"


def cast(x, ld):
    """Store element x into an array of logical dtype ld."""
    if ld == "f":
        if isinstance(x, Sym):
            return x if x.t.sort == "R" else wrap(tm.toreal(x.t))
        if isinstance(x, SymB):
            return wrap(tm.toreal(x.t))
        if isinstance(x, (float, int, np.floating, np.integer, np.bool_)):
            return np.float64(x)
        return np.float64(x)
    if ld == "i":
        if isinstance(x, Sym):
            return x if x.t.sort == "I" else el_trunc_int(x)
        if isinstance(x, SymB):
            return wrap(tm.toint(x.t))
        return el_trunc_int(x)
    if ld == "b":
        return wrap(el_bool(x)) if is_sym(x) else np.bool_(x)
    return x


class SymArray(np.ndarray):
    _ld = "f"

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ld = getattr(obj, "_ld", "f")

    @property
    def dtype(self):
        return _DT[self._ld]

    # -- conversions ---------------------------------------------------------------------------

    def raw(self):
        return self.view(np.ndarray)

    def concrete(self):
        return not any(isinstance(x, _Base) for x in self.raw().flat)

    def native(self):
        """The machine array of an all-concrete array."""
        r = self.raw()
        out = np.empty(r.shape, dtype=_DT[self._ld])
        for i in np.ndindex(r.shape):
            out[i] = r[i]
        return out

    # -- universal functions ---------------------------------------------------------------------

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_call(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_call(func, args, kwargs)

    # -- indexing --------------------------------------------------------------------------------

    def _key(self, key):
        """(native key, symbolic?)"""
        tup = isinstance(key, tuple)
        out = []
        sym = False
        for k in key if tup else (key,):
            k, s = _norm_index(k)
            sym = sym or s
            out.append(k)
        return (tuple(out) if tup else out[0]), sym

    def __getitem__(self, key):
        key, sym = self._key(key)
        if not sym:
            r = np.ndarray.__getitem__(self, key)
            return r if isinstance(r, (np.ndarray, _Base)) else _out(r)
        return _sym_get(self, key)

    def __setitem__(self, key, value):
        self._store(key, value)
        if _VIEWS:
            _written(self)

    def _store(self, key, value):
        key, sym = self._key(key)
        if sym:
            return _sym_set(self, key, value)
        ld = self._ld
        if isinstance(value, SymMasked):
            value = value.concretize()
        if isinstance(value, (list, tuple, np.ndarray)):
            v = sarray(value)
            if v._ld != ld:
                v = v._cast(ld)
            np.ndarray.__setitem__(self, key, v.raw() if v.ndim else v.raw()[()])
        else:
            v = cast(value, ld)
            tgt = np.ndarray.__getitem__(self, key)
            if isinstance(tgt, np.ndarray) and _basic(key):
                t = tgt.view(np.ndarray)
                for i in np.ndindex(t.shape):
                    t[i] = v
            elif not isinstance(tgt, np.ndarray):
                np.ndarray.__setitem__(self, key, v)
            else:
                box = np.empty((), dtype=object)
                box[()] = v
                np.ndarray.__setitem__(self, key, box)

    def _cast(self, ld):
        out = np.empty(self.shape, dtype=object).view(SymArray)
        out._ld = ld
        o, r = out.raw(), self.raw()
        for i in np.ndindex(r.shape):
            o[i] = cast(r[i], ld)
        return out

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return truth(self.raw().flat[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __index__(self):
        if self.ndim == 0:
            return self.raw()[()].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __contains__(self, x):
        return bool(np.any(self == x))

    def __format__(self, spec):
        return "<SymArray>"

    def __repr__(self):
        return f"SymArray({self.raw().tolist()!r})"

    __str__ = __repr__

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    # -- methods ---------------------------------------------------------------------------------

    def copy(self, order="C"):
        r = np.array(self.raw(), dtype=object, copy=True).view(SymArray)
        r._ld = self._ld
        return r

    def astype(self, dtype, *a, copy=True, **k):
        ld = ld_of(dtype)
        return self._cast(ld) if ld != self._ld or copy else self

    def item(self, *args):
        if args:
            return _out(np.ndarray.__getitem__(self, args if len(args) > 1 else np.unravel_index(args[0], self.shape)))
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.raw().flat[0]

    def tolist(self):
        return self.raw().tolist()

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
        return _reduce(self, el_add, axis, keepdims, init=_zero(self), where=where)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
        return _reduce(self, el_mul, axis, keepdims, init=np.int64(1) if self._ld != "f" else np.float64(1))

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=None):
        return _reduce(self, el_min, axis, keepdims, init=initial, name="minimum")

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=None):
        return _reduce(self, el_max, axis, keepdims, init=initial, name="maximum")

    def any(self, axis=None, out=None, keepdims=False, where=None):
        return _reduce(self, el_or, axis, keepdims, init=np.bool_(False))

    def all(self, axis=None, out=None, keepdims=False, where=None):
        return _reduce(self, el_and, axis, keepdims, init=np.bool_(True))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else self.shape[axis]
        return s / np.float64(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis=axis, keepdims=keepdims) / np.float64(n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def ptp(self, axis=None, out=None, keepdims=False):
        return self.max(axis=axis) - self.min(axis=axis)

    def argmin(self, axis=None, out=None, keepdims=False):
        return _argext(self, axis, el_lt)

    def argmax(self, axis=None, out=None, keepdims=False):
        return _argext(self, axis, el_gt)

    def argsort(self, axis=-1, kind=None, order=None):
        return _axis_apply(self, axis, _argsort1)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = _axis_apply(self, axis, lambda v: v[_argsort1(v)])

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = elementwise(el_max, (r, min))
        if max is not None:
            r = elementwise(el_min, (r, max))
        return r

    def dot(self, other, out=None):
        return _dot(self, sarray(other))

    def cumsum(self, axis=None, dtype=None, out=None):
        return _cum(self, axis, el_add)

    def cumprod(self, axis=None, dtype=None, out=None):
        return _cum(self, axis, el_mul)

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported("round to digits")
        return elementwise(el_rint, (self,))

    def nonzero(self):
        return tuple(sarray(x) for x in np.nonzero(_bools(self)))

    def conj(self):
        return self

    conjugate = conj

    def trace(self, *a, **k):
        r = np.float64(0)
        for i in range(min(self.shape)):
            r = el_add(r, self.raw()[i, i])
        return r

    def searchsorted(self, v, side="left", sorter=None):
        return _searchsorted(self, v, side)

    def partition(self, kth, axis=-1, kind=None, order=None):
        self.sort(axis)

    def argpartition(self, kth, axis=-1, kind=None, order=None):
        return self.argsort(axis)

    def tobytes(self, *a, **k):
        if self.concrete():
            return self.native().tobytes()
        raise Unsupported("bytes of a symbolic array")


def _basic(key):
    for k in key if isinstance(key, tuple) else (key,):
        if not (isinstance(k, (int, np.integer, slice)) or k is Ellipsis or k is None) \
                or isinstance(k, (bool, np.bool_)):
            return False
    return True


def _out(x):
    """A scalar taken out of an array."""
    if isinstance(x, _Base):
        return x
    return en._npscalar(x)


def _zero(a):
    return np.float64(0) if a._ld == "f" else np.int64(0)


def sarray(x, ld=None):
    """SymArray (object) from anything array-like; does not copy a SymArray."""
    if isinstance(x, SymMasked):
        x = x.concretize()
    if isinstance(x, SymArray):
        return x if ld is None or x._ld == ld else x._cast(ld)
    if isinstance(x, np.ndarray) and x.dtype != object:
        out = np.empty(x.shape, dtype=object)
        l0 = ld_of(x.dtype)
        for i in np.ndindex(x.shape):
            out[i] = x[i]
        out = out.view(SymArray)
        out._ld = l0
        return out if ld is None or ld == l0 else out._cast(ld)
    if isinstance(x, np.ndarray):
        src, shape = x, x.shape
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            e = src[i]
            out[i] = e
    else:
        x, shape = _nested(x)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            e = x
            for j in i:
                e = e[j]
            if isinstance(e, np.ndarray):
                e = e[()]
            out[i] = en._npscalar(e)
    lds = {ld_el(e) for e in out.flat}
    l0 = "f" if not lds else max(lds, key=lambda k: _RANK.get(k, 9))
    out = out.view(SymArray)
    out._ld = l0
    if ld is None:
        ld = l0
    if l0 != "o" and (ld != l0 or len(lds) > 1):
        out = out._cast(ld)
    return out


def _nested(x):
    """(nested sequence, shape), checking that it is rectangular."""
    if isinstance(x, _Base) or np.isscalar(x) or x is None or isinstance(x, (str, bytes)):
        return x, ()
    if isinstance(x, SymMasked):
        x = x.concretize()
    if isinstance(x, np.ndarray):
        return x, x.shape
    if isinstance(x, (range, map, filter, zip, set, dict)) or hasattr(x, "__next__"):
        if isinstance(x, range):
            x = list(x)
        else:
            raise TypeError(f"cannot build an array from {type(x).__name__}")
    if not isinstance(x, (list, tuple)):
        if hasattr(x, "__len__") and hasattr(x, "__getitem__"):
            x = [x[i] for i in range(len(x))]
        else:
            return x, ()
    subs = [_nested(e) for e in x]
    if not subs:
        return [], (0,)
    shapes = {s for _, s in subs}
    if len(shapes) > 1:
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    return [e for e, _ in subs], (len(subs),) + subs[0][1]


def symbolic(x):
    """Does x hold anything symbolic?"""
    if isinstance(x, (_Base, SymArray, SymMasked)):
        return True
    if isinstance(x, (list, tuple)):
        return any(symbolic(e) for e in x)
    return False


def _norm_index(k):
    """(index usable by numpy or symbolic, symbolic?)"""
    if isinstance(k, SymMasked):
        k = k.concretize()
    if isinstance(k, (list, tuple)) and symbolic(k):
        k = sarray(k)
    if isinstance(k, SymArray):
        if k._ld == "f" and k.size == 0:
            return np.zeros(k.shape, dtype=int), False
        if k._ld not in ("i", "b"):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if k.concrete():
            n = k.native()
            return (n if n.ndim else n[()]), False
        return k, True
    if isinstance(k, Sym):
        if k.t.sort != "I":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer "
                             "or boolean arrays are valid indices")
        return k, True
    if isinstance(k, SymB):
        return np.bool_(truth(k)), False
    if isinstance(k, slice):
        f = [x.__index__() if isinstance(x, _Base) else x for x in (k.start, k.stop, k.step)]
        return slice(*f), False
    return k, False


def _bools(a):
    """Native boolean array (forks)."""
    out = np.empty(a.shape, dtype=bool)
    r = a.raw()
    for i in np.ndindex(r.shape):
        out[i] = truth(r[i])
    return out


def _int_range(t, n):
    """Feasible index values of an integer term for an axis of length n (as a list)."""
    lo = -n if t.lo is None else max(-n, int(t.lo))
    hi = n - 1 if t.hi is None else min(n - 1, int(t.hi))
    out_of_range = tm.not_(tm.and_(tm.le(tm.const(-n, "I"), t), tm.le(t, tm.const(n - 1, "I"))))
    if out_of_range is not tm.FALSE and not eng().must(tm.not_(out_of_range)):
        if eng().decide(out_of_range):
            raise IndexError(f"index is out of bounds for axis with size {n}")
    if lo < 0 and eng().must(tm.le(tm.const(0, "I"), t)):
        lo = 0
    return list(range(lo, hi + 1))


def _ite_nested(c, a, b):
    """Element or array if-then-else."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return elementwise(lambda x, y: el_ite(c, x, y), (a, b))
    return el_ite(c, a, b)


# A basic index at a symbolic position is a view in numpy.  It is encoded as a copy kept equal to its source:
# a write to either is carried over to the other as long as somebody holds the copy.
_VIEWS = []
_BUSY = [False]


def _owner(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def _linked(copy, a, key):
    o = _owner(copy)
    _VIEWS[:] = [v for v in _VIEWS if v[0]() is not None]
    _VIEWS.append((weakref.ref(o), o.shape, a, key))


def _written(a):
    if _BUSY[0]:
        return
    _BUSY[0] = True
    try:
        todo = [_owner(a)]
        seen = set()
        while todo:
            w = todo.pop()
            if id(w) in seen:
                continue
            seen.add(id(w))
            for ref, _, src, key in list(_VIEWS):
                o = ref()
                if o is None:
                    continue
                if o is w:  # the view was written: write its source
                    v = o.view(SymArray)
                    v._ld = src._ld
                    _sym_set(src, key, v.copy())
                    todo.append(_owner(src))
            for ref, _, src, key in list(_VIEWS):
                o = ref()
                if o is not None and o is not w and _owner(src) is w:  # the source was written: refresh the view
                    o[...] = _sym_get(src, key).raw()
                    todo.append(o)
    finally:
        _BUSY[0] = False
        _VIEWS[:] = [v for v in _VIEWS if v[0]() is not None]


def _sym_get(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = _expand(key, a.ndim)
    # a single symbolic mask
    masks = [k for k in key if isinstance(k, SymArray) and k._ld == "b"]
    if masks:
        if len(key) - sum(1 for k in key if isinstance(k, slice) and k == slice(None)) == 1 \
                and key[0] is masks[0] and all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
            m = masks[0]
            if m.ndim == 1 and a.ndim >= 1:
                if m.shape[0] != a.shape[0]:
                    raise IndexError("boolean index did not match indexed array along dimension 0")
                return SymMasked(a.copy(), [el_bool(x) for x in m.raw()])
            if m.ndim == a.ndim:
                if m.shape != a.shape:
                    raise IndexError("boolean index did not match indexed array")
                return SymMasked(a.copy().reshape(-1), [el_bool(x) for x in m.raw().flat])
        key = tuple(_bools(k) if isinstance(k, SymArray) and k._ld == "b" else k for k in key)
        return a[key]
    # symbolic integers: first scalars, then arrays
    for pos, k in enumerate(key):
        if isinstance(k, Sym):
            axis = _axis_of(key, pos)
            vals = _int_range(k.t, a.shape[axis])
            res = None
            for v in reversed(vals):
                x = a[key[:pos] + (v,) + key[pos + 1:]]
                res = x if res is None else _ite_nested(tm.eq(k.t, tm.const(v, "I")), x, res)
            if res is None:
                raise Infeasible()
            if not isinstance(res, SymArray):
                return res
            res = res.copy()
            if not any(isinstance(q, (np.ndarray, list)) for q in key):
                _linked(res, a, key)
            return res
    # index arrays: broadcast all of them together
    arrs = {p: k for p, k in enumerate(key) if isinstance(k, (np.ndarray, list)) or isinstance(k, (int, np.integer))}
    sy = [p for p in arrs if isinstance(arrs[p], np.ndarray) and arrs[p].ndim > 0]
    if any(isinstance(k, np.ndarray) and k.dtype == bool and not isinstance(k, SymArray) for k in key):
        raise Unsupported("boolean and symbolic integer index arrays together")
    bshape = np.broadcast_shapes(*[np.shape(arrs[p]) for p in arrs])
    bc = {p: np.broadcast_to(np.asarray(arrs[p].raw() if isinstance(arrs[p], SymArray) else arrs[p], dtype=object),
                             bshape) for p in arrs}
    adjacent = sorted(arrs) == list(range(min(arrs), max(arrs) + 1))
    cells = {}
    for i in np.ndindex(bshape):
        kk = tuple(_out(bc[p][i]) if p in arrs else k for p, k in enumerate(key))
        cells[i] = a[kk]
    sub = next(iter(cells.values()), None)
    if sub is None:
        raise Unsupported("empty symbolic index")
    sshape = sub.shape if isinstance(sub, np.ndarray) else ()
    out = np.empty(bshape + sshape, dtype=object)
    for i, v in cells.items():
        if sshape:
            for j in np.ndindex(sshape):
                out[i + j] = v.raw()[j]
        else:
            out[i] = v
    if adjacent and sshape:
        first = sum(1 for k in key[: min(arrs)] if k is None or isinstance(k, slice))
        nb = len(bshape)
        out = np.moveaxis(out, list(range(nb)), list(range(first, first + nb)))
    out = np.array(out, dtype=object).view(SymArray)
    out._ld = a._ld
    return out


def _expand(key, ndim):
    """Replace an ellipsis, and pad with full slices."""
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        n += k.ndim if isinstance(k, np.ndarray) and k.dtype == bool else 1
    if any(k is Ellipsis for k in key):
        i = next(i for i, k in enumerate(key) if k is Ellipsis)
        return key[:i] + (slice(None),) * (ndim - n) + key[i + 1:]
    return key + (slice(None),) * (ndim - n)


def _axis_of(key, pos):
    ax = 0
    for k in key[:pos]:
        if k is None:
            continue
        ax += k.ndim if isinstance(k, np.ndarray) and k.dtype == bool else 1
    return ax


def _sym_set(a, key, value):
    if not isinstance(key, tuple):
        key = (key,)
    key = _expand(key, a.ndim)
    masks = [k for k in key if isinstance(k, SymArray) and k._ld == "b"]
    if masks:
        m = masks[0]
        rest = all(isinstance(k, slice) and k == slice(None) for k in key[1:])
        if len(masks) == 1 and key[0] is m and rest and (m.ndim == 1 or m.ndim == a.ndim):
            conds = [el_bool(x) for x in m.raw().flat]
            lanes = list(np.ndindex(m.shape))
            if m.shape != a.shape[: m.ndim]:
                raise IndexError("boolean index did not match indexed array along dimension 0")
            src = None
            if isinstance(value, SymMasked):
                if len(value.conds) == len(conds) and all(x is y for x, y in zip(value.conds, conds)):
                    src = [value.data[i] for i in range(len(conds))]
                else:
                    value = value.concretize()
            if src is None and not isinstance(value, SymMasked):
                v = value if not isinstance(value, (list, tuple)) else sarray(value)
                vnd = v.ndim if isinstance(v, np.ndarray) else 0
                if vnd <= a.ndim - m.ndim:
                    src = [v] * len(conds)
            if src is not None:
                for i, c, s in zip(lanes, conds, src):
                    if c is tm.FALSE:
                        continue
                    ik = i if len(i) > 1 else i[0]
                    old = a[ik]
                    if isinstance(old, np.ndarray):
                        new = elementwise(lambda x, y: el_ite(c, cast(x, a._ld), y),
                                          (s if isinstance(s, np.ndarray) else s, old))
                        old[...] = new
                    else:
                        a[ik] = el_ite(c, cast(s, a._ld), old)
                return
        key = tuple(_bools(k) if isinstance(k, SymArray) and k._ld == "b" else k for k in key)
        if isinstance(value, SymMasked):
            value = value.concretize()
        a[key] = value
        return
    if isinstance(value, SymMasked):
        value = value.concretize()
    for pos, k in enumerate(key):
        if isinstance(k, Sym):
            axis = _axis_of(key, pos)
            for v in _int_range(k.t, a.shape[axis]):
                kk = key[:pos] + (v,) + key[pos + 1:]
                old = a[kk]
                c = tm.eq(k.t, tm.const(v, "I"))
                if isinstance(old, np.ndarray):
                    val = value if isinstance(value, np.ndarray) else (
                        sarray(value) if isinstance(value, (list, tuple)) else value)
                    new = elementwise(lambda x, y: el_ite(c, cast(x, a._ld), y), (val, old.copy()))
                    a[kk] = new
                else:
                    val = value.item() if isinstance(value, np.ndarray) else value
                    a[kk] = el_ite(c, cast(val, a._ld), old)
            return
    arrs = {p: k for p, k in enumerate(key) if isinstance(k, np.ndarray) or isinstance(k, (int, np.integer))}
    bshape = np.broadcast_shapes(*[np.shape(arrs[p]) for p in arrs])
    bc = {p: np.broadcast_to(np.asarray(arrs[p].raw() if isinstance(arrs[p], SymArray) else arrs[p], dtype=object),
                             bshape) for p in arrs}
    slices = [p for p in range(len(key)) if p not in arrs]
    if isinstance(value, (list, tuple)):
        value = sarray(value)
    if isinstance(value, np.ndarray):
        if slices and min(slices) < max(arrs):
            raise Unsupported("assignment through interleaved symbolic index arrays")
        sshape = tuple(a.shape[_axis_of(key, p)] for p in slices)
        value = np.broadcast_to(sarray(value).raw(), bshape + sshape).view(SymArray)
        value._ld = a._ld
    for i in np.ndindex(bshape):
        kk = tuple(_out(bc[p][i]) if p in arrs else k for p, k in enumerate(key))
        a[kk] = value[i] if isinstance(value, np.ndarray) and i else value


class SymMasked:
    """data[mask] for a mask with symbolic entries: the lanes are kept, the selection stays symbolic."""

    _sym_masked = True
    __array_priority__ = 3000
    __hash__ = None

    def __init__(self, data, conds):
        self.data = data
        self.conds = conds

    def concretize(self):
        m = np.array([eng().decide(c) for c in self.conds], dtype=bool)
        return self.data[m]

    def _same(self, other):
        return len(self.conds) == len(other.conds) and all(x is y for x, y in zip(self.conds, other.conds))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_call(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_call(func, args, kwargs)

    def copy(self):
        return SymMasked(self.data.copy(), list(self.conds))

    @property
    def size(self):
        n = self.count()
        return n if not self.data.ndim > 1 else n * int(np.prod(self.data.shape[1:]))

    def count(self):
        n = np.int64(0)
        for c in self.conds:
            n = el_add(n, wrap(tm.toint(c)))
        return n

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def shape(self):
        return self.concretize().shape

    def __len__(self):
        return int(self.count())

    def _nonempty(self, name):
        e = eng()
        some = tm.or_(*self.conds)
        if not e.decide(some):
            raise ValueError(f"zero-size array to reduction operation {name} which has no identity")

    def _fold(self, better, name):
        if self.data.ndim != 1:
            return None
        self._nonempty(name)
        has, val = tm.FALSE, None
        for c, x in zip(self.conds, self.data.raw()):
            if c is tm.FALSE:
                continue
            if val is None:
                has, val = c, x
                continue
            take = tm.and_(c, tm.or_(tm.not_(has), el_bool(better(x, val))))
            val = el_ite(take, x, val)
            has = tm.or_(has, c)
        return val

    def min(self, axis=None, **k):
        r = self._fold(el_lt, "minimum") if axis in (None, 0, -1) else None
        return self.concretize().min(axis, **k) if r is None else r

    def max(self, axis=None, **k):
        r = self._fold(el_gt, "maximum") if axis in (None, 0, -1) else None
        return self.concretize().max(axis, **k) if r is None else r

    def sum(self, axis=None, **k):
        if self.data.ndim != 1:
            return self.concretize().sum(axis, **k)
        r = _zero(self.data)
        for c, x in zip(self.conds, self.data.raw()):
            r = el_add(r, el_ite(c, x, np.float64(0) if self.data._ld == "f" else np.int64(0)))
        return r

    def any(self, axis=None, **k):
        if self.data.ndim != 1:
            return self.concretize().any(axis, **k)
        return wrap(tm.or_(*[tm.and_(c, el_bool(x)) for c, x in zip(self.conds, self.data.raw())]))

    def all(self, axis=None, **k):
        if self.data.ndim != 1:
            return self.concretize().all(axis, **k)
        return wrap(tm.and_(*[tm.implies(c, el_bool(x)) for c, x in zip(self.conds, self.data.raw())]))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concretize(), name)

    def __getitem__(self, key):
        return self.concretize()[key]

    def __iter__(self):
        return iter(self.concretize())

    def __bool__(self):
        return bool(self.concretize())

    def __setitem__(self, key, v):
        raise Unsupported("assignment into a temporary selected by a symbolic mask")

    def _op(f):
        def g(self, other):
            return elementwise(f, (self, other))
        return g

    def _rop(f):
        def g(self, other):
            return elementwise(f, (other, self))
        return g

    __add__, __radd__ = _op(el_add), _rop(el_add)
    __sub__, __rsub__ = _op(el_sub), _rop(el_sub)
    __mul__, __rmul__ = _op(el_mul), _rop(el_mul)
    __truediv__, __rtruediv__ = _op(el_div), _rop(el_div)
    __pow__, __rpow__ = _op(el_pow), _rop(el_pow)
    __lt__, __le__, __gt__, __ge__ = _op(el_lt), _op(el_le), _op(el_gt), _op(el_ge)
    __eq__, __ne__ = _op(el_eq), _op(el_ne)
    __and__, __or__ = _op(el_bitand), _op(el_bitor)

    def __neg__(self):
        return elementwise(el_neg, (self,))

    def __invert__(self):
        return elementwise(el_invert, (self,))

    def __abs__(self):
        return elementwise(el_abs, (self,))


# -- element-wise application ----------------------------------------------------------------------

_BOOLRES = {el_lt, el_le, el_gt, el_ge, el_eq, el_ne, el_not, el_and, el_or, el_xor, el_isnan, el_isinf, el_isfinite}
_FLOATRES = {el_div, el_sqrt, el_exp, el_log, el_cos, el_sin, el_floor, el_ceil, el_trunc, el_rint}


def _ld_any(x):
    if isinstance(x, SymArray):
        return x._ld
    if isinstance(x, np.ndarray):
        return ld_of(x.dtype)
    return ld_el(x)


def elementwise(f, inputs, ld=None):
    """Apply an element function with broadcasting."""
    ms = [x for x in inputs if isinstance(x, SymMasked)]
    if ms:
        m = ms[0]
        ok = all(x._same(m) for x in ms[1:])
        for x in inputs:
            if isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.ndim >= m.data.ndim and x.size > 1):
                ok = False
        if ok:
            lanes = [[(x.data[i] if isinstance(x, SymMasked) else x) for x in inputs] for i in range(len(m.conds))]
            safe = []
            for i, l in enumerate(lanes):
                if m.conds[i] is tm.FALSE:
                    safe.append(l[0])
                    continue
                safe.append(_guarded(f, l, m.conds[i]))
            return SymMasked(sarray(safe), m.conds)
        inputs = [x.concretize() if isinstance(x, SymMasked) else x for x in inputs]
    arrs = []
    for x in inputs:
        if isinstance(x, SymArray):
            arrs.append(x.raw())
        elif isinstance(x, np.ndarray):
            arrs.append(sarray(x).raw())
        elif isinstance(x, (list, tuple)):
            arrs.append(sarray(x).raw())
        else:
            b = np.empty((), dtype=object)
            b[()] = x
            arrs.append(b)
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    if shape == () and not any(isinstance(x, np.ndarray) for x in inputs if True):
        return f(*[a[()] for a in arrs])
    if len(arrs) == 1:
        it = [(x,) for x in arrs[0].flat]
    else:
        it = zip(*[np.broadcast_to(a, shape).flat for a in arrs])
    vals = [f(*e) for e in it]
    if shape == ():
        return _out(vals[0])
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        out[i] = v
    out = out.reshape(shape).view(SymArray)
    if ld is None:
        if f in _BOOLRES:
            ld = "b"
        elif f in _FLOATRES:
            ld = "f"
        else:
            lds = [_ld_any(x) for x in inputs]
            if all(k in _RANK for k in lds):
                ld = max(lds, key=_RANK.get)
                if ld == "b" and f not in (el_bitand, el_bitor, el_bitxor, el_invert, el_max, el_min):
                    ld = "b" if f in (el_add, el_mul) else "i"
            else:
                ld = None
        got = {ld_el(v) for v in vals}
        if ld is None or any(_RANK.get(g, 9) > _RANK[ld] for g in got):
            ld = max(got, key=lambda k: _RANK.get(k, 9)) if got else "f"
    out._ld = ld
    if ld in _RANK and any(ld_el(v) != ld for v in vals):
        out = out._cast(ld)
    return out


def _guarded(f, args, cond):
    """Apply f on a lane that is selected under cond only: divisions need not be defined elsewhere."""
    if f is el_div and is_sym(args[1]) and not isinstance(args[1], np.ndarray) and not isinstance(args[0], np.ndarray):
        tb = num(args[1])
        t0 = tm.eq(tb, tm.const(0, tb.sort))
        if t0 is not tm.FALSE and not special(args[0]):
            e = eng()
            if e.must(tm.not_(tm.and_(cond, t0))):
                return wrap(tm.div(num(args[0]), tb))
            if not e.decide(cond):
                return np.float64(0.0)
    return f(*args)


_UFUNC = {
    "add": el_add, "subtract": el_sub, "multiply": el_mul, "divide": el_div, "true_divide": el_div,
    "floor_divide": el_floordiv, "remainder": el_mod, "mod": el_mod, "power": el_pow, "float_power": el_pow,
    "negative": el_neg, "positive": lambda a: a, "absolute": el_abs, "fabs": el_abs, "sign": el_sign,
    "sqrt": el_sqrt, "square": el_square, "exp": el_exp, "log": el_log, "cos": el_cos, "sin": el_sin,
    "less": el_lt, "less_equal": el_le, "greater": el_gt, "greater_equal": el_ge, "equal": el_eq,
    "not_equal": el_ne, "logical_not": el_not, "logical_and": el_and, "logical_or": el_or, "logical_xor": el_xor,
    "bitwise_and": el_bitand, "bitwise_or": el_bitor, "bitwise_xor": el_bitxor, "invert": el_invert,
    "minimum": el_min, "maximum": el_max, "fmin": el_fmin, "fmax": el_fmax,
    "floor": el_floor, "ceil": el_ceil, "trunc": el_trunc, "rint": el_rint,
    "isnan": el_isnan, "isinf": el_isinf, "isfinite": el_isfinite,
    "conjugate": lambda a: a,
    "reciprocal": lambda a: el_div(np.float64(1), a),
    "hypot": lambda a, b: el_sqrt(el_add(el_mul(a, a), el_mul(b, b))),
    "log1p": lambda a: el_log(el_add(np.float64(1), a)),
    "expm1": lambda a: el_sub(el_exp(a), np.float64(1)),
    "log2": lambda a: el_div(el_log(a), np.log(np.float64(2))),
    "log10": lambda a: el_div(el_log(a), np.log(np.float64(10))),
    "exp2": lambda a: el_exp(el_mul(a, np.log(np.float64(2)))),
    "heaviside": lambda a, b: el_ite(el_lt(a, np.float64(0)), np.float64(0),
                                     el_ite(el_eq(a, np.float64(0)), b, np.float64(1))),
    "copysign": lambda a, b: el_ite(el_lt(b, np.float64(0)), el_neg(el_abs(a)), el_abs(a)),
    "deg2rad": lambda a: el_mul(a, np.float64(np.pi / 180)),
}

_REDUCE = {
    "add": "sum", "multiply": "prod", "minimum": "min", "maximum": "max", "logical_and": "all", "logical_or": "any",
}


def ufunc_call(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    if out is not None and isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    name = ufunc.__name__
    if name == "matmul" and method == "__call__":
        r = _dot(sarray(inputs[0]), sarray(inputs[1]))
        return _store(out, r, name)
    if method == "reduce" and name in _REDUCE:
        a = sarray(inputs[0]) if not isinstance(inputs[0], SymMasked) else inputs[0]
        kw.pop("dtype", None)
        axis = kw.pop("axis", 0)
        if isinstance(a, SymMasked):
            return getattr(a, _REDUCE[name])()
        return getattr(a, _REDUCE[name])(axis=axis, **{k: v for k, v in kw.items() if k == "keepdims"})
    f = _UFUNC.get(name)
    if f is None:
        args = [x.native() if isinstance(x, SymArray) and x.concrete() else x for x in inputs]
        if any(symbolic(x) for x in args):
            raise Unsupported(f"universal function {name}")
        return _store(out, back(getattr(ufunc, method)(*args, **kw)), name)
    if method == "outer":
        a, b = sarray(inputs[0]), sarray(inputs[1])
        r = elementwise(f, (a.reshape(a.shape + (1,) * b.ndim), b))
        return _store(out, r, name)
    if method == "accumulate":
        return _cum(sarray(inputs[0]), kw.get("axis", 0), f)
    if method == "at":
        a, idx = inputs[0], sarray(inputs[1]).native()
        vals = np.broadcast_to(sarray(inputs[2]).raw(), idx.shape) if len(inputs) > 2 else None
        for n, i in enumerate(idx.flat):
            a[i] = f(a[i], vals.flat[n]) if vals is not None else f(a[i])
        return None
    if method != "__call__":
        raise Unsupported(f"universal function method {name}.{method}")
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    if kw:
        raise Unsupported(f"universal function {name} with {sorted(kw)}")
    r = elementwise(f, inputs)
    if where is not True:
        base = out if out is not None else elementwise(lambda x: garbage(), (r,))
        r = elementwise(lambda c, x, y: el_ite(el_bool(c), x, y), (where, r, base))
    if dtype is not None and isinstance(r, SymArray):
        r = r._cast(ld_of(dtype))
    return _store(out, r, name)


def _store(out, r, name):
    if out is None:
        return r
    if isinstance(out, SymMasked):
        raise Unsupported("in-place operation on a masked selection")
    if not isinstance(out, SymArray):
        if isinstance(out, np.ndarray) and out.dtype == object:
            out = out.view(SymArray)
        elif isinstance(out, np.ndarray):
            rr = sarray(r)
            if not rr.concrete():
                raise Unsupported("symbolic result stored into a machine array")
            out[...] = rr.native()
            return out
        else:
            raise Unsupported("out argument")
    ld = _ld_any(r)
    if _RANK.get(ld, 9) > _RANK.get(out._ld, 9):
        raise np.core._exceptions._UFuncOutputCastingError(
            getattr(np, name), "same_kind", _DT[ld], _DT[out._ld], 0)
    if isinstance(r, SymMasked):
        r = r.concretize()
    rs = np.shape(r)
    if np.broadcast_shapes(rs, out.shape) != out.shape:
        raise ValueError(f"non-broadcastable output operand with shape {out.shape} doesn't match the broadcast "
                         f"shape {np.broadcast_shapes(rs, out.shape)}")
    out[...] = r
    return out


# -- reductions and friends ------------------------------------------------------------------------

def _reduce(a, f, axis, keepdims=False, init=None, name="", where=None):
    if where is not None and where is not True:
        raise Unsupported("reduction with where")
    if axis is None:
        if a.size == 0 and init is None:
            raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
        r = init
        for x in a.raw().flat:
            r = x if r is None else f(r, x)
        if f in (el_add, el_mul) and a._ld == "f":
            r = el_float(r)
        r = _out(r)
        if keepdims:
            return sarray([r]).reshape((1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = _reduce(a, f, ax, keepdims, init, name)
        return a
    axis = int(axis)
    if not -a.ndim <= axis < a.ndim:
        raise np.AxisError(axis, a.ndim)
    axis %= a.ndim
    b = np.moveaxis(a.raw(), axis, -1)
    if b.shape[-1] == 0 and init is None:
        raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        r = init
        for x in b[i]:
            r = x if r is None else f(r, x)
        out[i] = r
    ld = "b" if f in (el_and, el_or) else ("i" if a._ld == "b" and f is el_add else a._ld)
    out = out.view(SymArray)
    out._ld = ld
    out = out._cast(ld) if ld in _RANK else out
    if out.ndim == 0:
        return _out(out.raw()[()]) if not keepdims else out.reshape((1,) * a.ndim)
    if keepdims:
        out = sarray(np.expand_dims(out.raw(), axis), None)
        out._ld = ld
    return out


def _argext(a, axis, better):
    if axis is None:
        v = a.reshape(-1).raw()
        if len(v) == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
        idx, val = np.int64(0), v[0]
        for i in range(1, len(v)):
            c = el_bool(better(v[i], val))
            idx = el_ite(c, np.int64(i), idx)
            val = el_ite(c, v[i], val)
        return idx
    return _axis_reduce(a, axis, lambda v: _argext(v, None, better), "i")


def _axis_reduce(a, axis, f, ld):
    b = np.moveaxis(a.raw(), axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        v = np.array(b[i], dtype=object).view(SymArray)
        v._ld = a._ld
        out[i] = f(v)
    if out.ndim == 0:
        return _out(out[()])
    out = out.view(SymArray)
    out._ld = ld
    return out


def _axis_apply(a, axis, f):
    if axis is None:
        return f(a.reshape(-1))
    if a.ndim == 1:
        return f(a)
    b = np.moveaxis(a.raw(), axis, -1)
    out = np.empty(b.shape, dtype=object)
    ld = a._ld
    for i in np.ndindex(b.shape[:-1]):
        v = np.array(b[i], dtype=object).view(SymArray)
        v._ld = a._ld
        w = f(v)
        ld = w._ld
        for j in range(b.shape[-1]):
            out[i + (j,)] = w.raw()[j]
    out = np.array(np.moveaxis(out, -1, axis), dtype=object).view(SymArray)
    out._ld = ld
    return out


def _argsort1(v):
    """Stable argsort of a 1-D array."""
    if v.concrete():
        return sarray(np.argsort(v.native(), kind="stable"))
    x = v.raw()
    n = len(x)
    if en.FORK[0]:  # binary insertion into the order of the known values
        fix = [i for i in range(n) if not is_sym(x[i])]
        order = [fix[k] for k in np.argsort(np.array([x[i] for i in fix], dtype=float), kind="stable")] if fix else []
        for i in range(n):
            if not is_sym(x[i]):
                continue
            lo, hi = 0, len(order)
            while lo < hi:
                j = order[(lo + hi) // 2]
                if special(x[j]):
                    first = not x[j] == -np.inf
                else:
                    first = en.eng().decide(el_bool(el_le(x[i], x[j]) if i < j else el_lt(x[i], x[j])))
                if first:
                    hi = (lo + hi) // 2
                else:
                    lo = (lo + hi) // 2 + 1
            order.insert(lo, i)
        out = np.array(order, dtype=np.int64)
        return sarray(out)
    below = {}
    for i in range(n):
        for j in range(i + 1, n):
            below[i, j] = el_bool(el_le(x[i], x[j]))  # i goes before j
    ranks = []
    for i in range(n):
        r = tm.const(0, "I")
        for j in range(n):
            if j < i:
                r = tm.add(r, tm.toint(below[j, i]))
            elif j > i:
                r = tm.add(r, tm.toint(tm.not_(below[i, j])))
        ranks.append(r)
    out = np.empty(n, dtype=object)
    for k in range(n):
        t = tm.const(n - 1, "I")
        for i in reversed(range(n - 1)):
            t = tm.ite(tm.eq(ranks[i], tm.const(k, "I")), tm.const(i, "I"), t)
        out[k] = wrap(t)
    out = out.view(SymArray)
    out._ld = "i"
    return out


def _cum(a, axis, f):
    if axis is None:
        a = a.reshape(-1)
        axis = 0

    def g(v):
        out, r = [], None
        for x in v.raw():
            r = x if r is None else f(r, x)
            out.append(r)
        return sarray(out)
    return _axis_apply(a, axis, g)


def _dot(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(el_mul, (a if a.ndim else a.raw()[()], b if b.ndim else b.raw()[()]))
    x, y = a.raw(), b.raw()
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = _inner(x[i], y)
    else:
        if a.shape[-1] != b.shape[-2]:
            raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
        if b.ndim > 2:
            raise Unsupported("dot of arrays with more than two dimensions")
        out = np.empty(a.shape[:-1] + (b.shape[-1],), dtype=object)
        for i in np.ndindex(a.shape[:-1]):
            for j in range(b.shape[-1]):
                out[i + (j,)] = _inner(x[i], y[:, j])
    ld = "f" if "f" in (a._ld, b._ld) else "i"
    if out.ndim == 0:
        return _out(cast(out[()], ld))
    out = out.view(SymArray)
    out._ld = ld
    return out._cast(ld)


def _inner(u, v):
    r = np.float64(0.0)
    for p, q in zip(u, v):
        r = el_add(r, el_mul(p, q))
    return r


def _searchsorted(a, v, side):
    def one(x):
        n = np.int64(0)
        for e in a.raw():
            c = el_lt(e, x) if side == "left" else el_le(e, x)
            n = el_add(n, c)
        return n
    return elementwise(one, (v,), ld="i") if isinstance(v, np.ndarray) else one(v)


def _percentile(a, q, axis=None, factor=0.01, method="linear"):
    a = sarray(a)
    if axis is None:
        a = a.reshape(-1)
    elif a.ndim != 1:
        raise Unsupported("percentile along an axis")
    if method != "linear":
        raise Unsupported("percentile method")
    s = a[_argsort1(a)].raw()
    n = len(s)

    def one(p):
        h = (n - 1) * float(p) * factor
        k = int(math.floor(h))
        k = min(max(k, 0), n - 1)
        k1 = min(k + 1, n - 1)
        t = np.float64(h - k)
        if t >= 0.5 and (special(s[k]) or special(s[k1])):  # as numpy interpolates, which tells with infinities
            return el_sub(s[k1], el_mul(el_sub(s[k1], s[k]), 1 - t))
        return el_add(s[k], el_mul(el_sub(s[k1], s[k]), t))
    if np.ndim(q) == 0:
        return el_float(one(q))
    return sarray([el_float(one(p)) for p in q])


def _median(a, axis=None, **k):
    a = sarray(a)
    n = a.size
    if axis is not None or n == 0:
        return _percentile(a, 50.0, axis)
    a = a.reshape(-1)
    s = a[_argsort1(a)].raw()
    return el_float(s[n // 2]) if n % 2 else el_float(el_div(el_add(s[n // 2 - 1], s[n // 2]), np.float64(2.0)))


def _norm(x, ord=None, axis=None, keepdims=False):
    x = sarray(x)
    if ord in (None, 2) or (ord == "fro" and axis is None):
        if axis is None:
            if ord == 2 and x.ndim == 2:
                raise Unsupported("spectral norm")
            return el_sqrt(_reduce(elementwise(el_square, (x,)), el_add, None, init=np.float64(0)))
        return elementwise(el_sqrt, (_reduce(elementwise(el_square, (x,)), el_add, axis, keepdims,
                                             init=np.float64(0)),))
    if ord in (np.inf, float("inf")):
        return _reduce(elementwise(el_abs, (x,)), el_max, axis, keepdims, name="maximum")
    if ord == 1:
        return _reduce(elementwise(el_abs, (x,)), el_add, axis, keepdims, init=np.float64(0))
    raise Unsupported("norm order")


_fresh = {"n": 0, "garbage": None, "linalg": None}


def garbage():
    """The content of uninitialised memory."""
    return _fresh["garbage"]()


def _eigh(a, *args, **kw):
    """Positive eigenvalues in ascending order and an orthogonal matrix: supplied by the harness."""
    a = sarray(a)
    if a.concrete():
        w, v = np.linalg.eigh(a.native())
        return _EighResult(sarray(w), sarray(v))
    if _fresh["linalg"] is None:
        raise Unsupported("eigh of a symbolic matrix")
    w, v = _fresh["linalg"](a)
    return _EighResult(w, v)


class _EighResult(tuple):
    def __new__(cls, w, v):
        self = tuple.__new__(cls, (w, v))
        return self

    eigenvalues = property(lambda self: self[0])
    eigenvectors = property(lambda self: self[1])


def _where(cond, x=None, y=None):
    if x is None and y is None:
        return tuple(sarray(i) for i in np.nonzero(_bools(sarray(cond))))
    return elementwise(lambda c, a, b: el_ite(el_bool(c), a, b), (cond, x, y),
                       ld=_join(x, y) if _shape_any(cond, x, y) else None)


def _shape_any(*xs):
    return any(isinstance(x, (np.ndarray, list, tuple)) for x in xs)


def _join(*xs):
    lds = [(sarray(x)._ld if isinstance(x, (list, tuple)) else _ld_any(x)) for x in xs]
    return max(lds, key=lambda k: _RANK.get(k, 9))


def _like(val):
    def f(a, dtype=None, *args, **kw):
        kw.pop("order", None)
        kw.pop("subok", None)
        shape = kw.pop("shape", None)
        a = sarray(a)
        return full(a.shape if shape is None else shape, val, ld_of(dtype) if dtype is not None else a._ld)
    return f


def full(shape, val, ld):
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s) for s in shape)
    elif isinstance(shape, np.ndarray):
        shape = tuple(int(s) for s in shape)
    else:
        shape = (int(shape),)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = cast(val() if callable(val) else val, ld)
    out = out.view(SymArray)
    out._ld = ld
    return out


def _clip(a, a_min=None, a_max=None, out=None, **k):
    r = a if isinstance(a, (np.ndarray, _Base)) else sarray(a)
    if a_min is None:
        a_min = k.get("min")
    if a_max is None:
        a_max = k.get("max")
    if a_min is not None:
        r = elementwise(el_max, (r, a_min))
    if a_max is not None:
        r = elementwise(el_min, (r, a_max))
    return _store(out, r, "minimum") if out is not None else r


def _method(name):
    def f(a, *args, **kw):
        if isinstance(a, SymMasked) and name in ("min", "max", "sum", "any", "all"):
            return getattr(a, name)(*args, **kw)
        kw.pop("out", None)
        return getattr(sarray(a), name)(*args, **kw)
    return f


def _nonzero(a):
    return sarray(a).nonzero()


def _count_nonzero(a, axis=None, **k):
    a = sarray(a)
    b = elementwise(lambda x: wrap(el_bool(x)), (a,), ld="b")
    return b.sum(axis=axis)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    return np.all(r)


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = sarray(a), sarray(b)
    return elementwise(el_le, (elementwise(el_abs, (a - b,)),
                               elementwise(el_abs, (b,)) * np.float64(rtol) + np.float64(atol)))


def _array_equal(a, b, equal_nan=False):
    a, b = sarray(a), sarray(b)
    if a.shape != b.shape:
        return False
    return truth(_reduce(elementwise(el_eq, (a, b)), el_and, None, init=np.bool_(True)))


def _average(a, axis=None, weights=None, returned=False):
    a = sarray(a)
    if weights is None:
        return a.mean(axis=axis)
    w = sarray(weights)
    if axis is None and a.shape == w.shape:
        return (a * w).sum() / w.sum()
    if axis in (0, -a.ndim) and w.ndim == 1:
        ww = w.reshape((-1,) + (1,) * (a.ndim - 1))
        return (a * ww).sum(axis=0) / w.sum()
    if axis in (a.ndim - 1, -1) and w.ndim == 1:
        return (a * w).sum(axis=-1) / w.sum()
    raise Unsupported("average")


def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = elementwise(lambda c, x, y: el_ite(el_bool(c), x, y), (where, src, dst.copy()))


def _putmask(a, mask, values):
    _copyto(a, values, where=mask)


def _take(a, indices, axis=None, **k):
    a = sarray(a)
    if axis is None:
        return a.reshape(-1)[indices if not isinstance(indices, list) else sarray(indices)]
    key = [slice(None)] * a.ndim
    key[axis] = indices if not isinstance(indices, (list, tuple)) else sarray(indices)
    return a[tuple(key)]


def _take_along(a, idx, axis):
    a, idx = sarray(a), sarray(idx)
    if axis is None or a.ndim == 1:
        return a.reshape(-1)[idx]
    b, j = np.moveaxis(a.raw(), axis, -1), np.moveaxis(idx.raw(), axis, -1)
    out = np.empty(j.shape, dtype=object)
    for i in np.ndindex(j.shape[:-1]):
        v = np.array(b[i], dtype=object).view(SymArray)
        v._ld = a._ld
        for k in range(j.shape[-1]):
            out[i + (k,)] = v[j[i + (k,)]]
    out = np.array(np.moveaxis(out, -1, axis), dtype=object).view(SymArray)
    out._ld = a._ld
    return out


def _delete(arr, obj, axis=None):
    arr = sarray(arr)
    if isinstance(obj, SymArray) and obj._ld == "b":
        obj = _bools(obj)
    if isinstance(obj, Sym) and (axis == 0 or (axis is None and arr.ndim == 1)):
        # the rows that remain: row i of the result is row i or i + 1
        n = arr.shape[0]
        vals = _int_range(obj.t, n)
        if vals and vals[0] >= 0:
            rows = []
            for i in range(n - 1):
                keep = tm.lt(tm.const(i, "I"), obj.t)
                rows.append(_ite_nested(keep, arr[i], arr[i + 1]))
            if not rows:
                return arr[:0].copy()
            r = sarray(rows)
            r._ld = arr._ld
            return r
        obj = obj.__index__()
    obj, _ = _norm_index(obj)
    if isinstance(obj, (Sym, SymArray)):
        obj = [int(x) for x in sarray(obj).raw().flat]
    r = np.delete(arr.raw(), obj, axis)
    r = r.view(SymArray)
    r._ld = arr._ld
    return r


def _unique(a, **k):
    raise Unsupported("unique of symbolic values")


def _tri(f):
    def g(m, k=0):
        m = sarray(m)
        out = m.copy()
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                if f(i, j, k):
                    out[i, j] = 0
        return out
    return g


_COUNTS = {"tile", "repeat", "broadcast_to", "roll", "resize", "array_split", "split", "reshape", "expand_dims"}


def _structural(name):
    """Functions that only move elements around."""
    fn = getattr(np, name)

    def g(*args, **kw):
        lds = []

        def strip(x):
            if isinstance(x, SymMasked):
                x = x.concretize()
            if isinstance(x, SymArray):
                lds.append(x._ld)
                return x.raw()
            if isinstance(x, _Base):
                lds.append(ld_el(x))
                b = np.empty((), dtype=object)
                b[()] = x
                return b
            if isinstance(x, np.ndarray) and x.dtype != object:
                lds.append(ld_of(x.dtype))
                return sarray(x).raw()
            if isinstance(x, (list, tuple)) and any(
                    isinstance(e, (list, tuple, np.ndarray, _Base, SymMasked)) for e in x):
                return [strip(e) if not isinstance(e, (list, tuple)) else strip(sarray(e)) for e in x]
            return x

        def whole(x):  # counts and shapes
            if isinstance(x, _Base) and num(x).sort == "I":
                return x.__index__()
            return type(x)(whole(e) for e in x) if isinstance(x, (tuple, list)) else x
        args = [strip(a if k == 0 else whole(a)) if name in _COUNTS else strip(a) for k, a in enumerate(args)]
        if name in _COUNTS:
            kw = {k: whole(v) for k, v in kw.items()}
        kw.pop("dtype", None)
        kw.pop("casting", None)
        r = fn(*args, **{k: strip(v) for k, v in kw.items()})
        ld = max(lds, key=lambda k: _RANK.get(k, 9)) if lds else None

        def fix(o):
            if isinstance(o, np.ndarray) and o.dtype == object:
                o = o.view(SymArray)
                if ld is not None:
                    o._ld = ld
                    if ld in _RANK and any(ld_el(e) != ld for e in o.raw().flat):
                        base = o
                        o = base._cast(ld)
                return o
            if isinstance(o, (list, tuple)):
                return type(o)(fix(e) for e in o)
            return o
        return fix(r)
    return g


_FUN = {
    "where": _where, "argmin": _method("argmin"), "argmax": _method("argmax"), "argsort": _method("argsort"),
    "min": _method("min"), "amin": _method("min"), "max": _method("max"), "amax": _method("max"),
    "sum": _method("sum"), "prod": _method("prod"), "product": _method("prod"), "any": _method("any"),
    "all": _method("all"), "sometrue": _method("any"), "alltrue": _method("all"), "mean": _method("mean"),
    "std": _method("std"), "var": _method("var"),
    "ptp": _method("ptp"), "cumsum": _method("cumsum"), "cumprod": _method("cumprod"), "round": _method("round"),
    "around": _method("round"), "copy": _method("copy"), "trace": _method("trace"),
    "nanmin": _method("min"), "nanmax": _method("max"), "nanargmin": _method("argmin"), "nansum": _method("sum"),
    "nanargmax": _method("argmax"), "nanmean": _method("mean"),
    "searchsorted": lambda a, v, side="left", sorter=None: _searchsorted(sarray(a), v, side),
    "sort": lambda a, axis=-1, **k: _axis_apply(sarray(a), axis, lambda v: v[_argsort1(v)]),
    "partition": lambda a, kth, axis=-1, **k: _axis_apply(sarray(a), axis, lambda v: v[_argsort1(v)]),
    "argpartition": lambda a, kth, axis=-1, **k: sarray(a).argsort(axis),
    "dot": lambda a, b, out=None: _dot(sarray(a), sarray(b)),
    "vdot": lambda a, b: _dot(sarray(a).reshape(-1), sarray(b).reshape(-1)),
    "inner": lambda a, b: _dot(sarray(a), sarray(b).T if np.ndim(b) > 1 else sarray(b)),
    "outer": lambda a, b, out=None: elementwise(el_mul, (sarray(a).reshape(-1, 1), sarray(b).reshape(1, -1))),
    "percentile": lambda a, q, axis=None, **k: _percentile(a, q, axis, method=k.get("method", "linear")),
    "quantile": lambda a, q, axis=None, **k: _percentile(a, q, axis, factor=1.0),
    "median": _median, "clip": _clip, "nonzero": _nonzero, "count_nonzero": _count_nonzero,
    "flatnonzero": lambda a: sarray(a).reshape(-1).nonzero()[0],
    "argwhere": lambda a: sarray(np.argwhere(_bools(sarray(a)))),
    "allclose": _allclose, "isclose": _isclose, "array_equal": _array_equal, "average": _average,
    "copyto": _copyto, "putmask": _putmask, "take": _take, "take_along_axis": _take_along, "delete": _delete,
    "unique": _unique, "triu": _tri(lambda i, j, k: j - i < k), "tril": _tri(lambda i, j, k: j - i > k),
    "empty_like": _like(garbage), "zeros_like": _like(0), "ones_like": _like(1),
    "full_like": lambda a, v, dtype=None, **k: _full_like(a, v, dtype),
    "array": None, "norm": _norm, "eigh": _eigh,
    "diff": lambda a, n=1, axis=-1, **k: _diff(sarray(a), n, axis),
    "extract": lambda c, a: sarray(a)[sarray(c)],
    "fill_diagonal": lambda a, v, wrap=False: _fill_diag(a, v),
    "isin": lambda *a, **k: _unsup("isin"),
    "einsum": lambda *a, **k: _einsum(*a, **k),
    "linspace": lambda *a, **k: _linspace(*a, **k),
    "interp": lambda *a, **k: _unsup("interp"),
    "shape": lambda a: sarray(a).shape if not isinstance(a, SymMasked) else a.shape,
    "ndim": lambda a: sarray(a).ndim, "size": lambda a, axis=None: sarray(a).size if axis is None else sarray(a).shape[axis],
    "result_type": lambda *a: _DT[max((_ld_any(x) for x in a), key=lambda k: _RANK.get(k, 9))],
    "cov": lambda *a, **k: _unsup("cov"),
    "isscalar": lambda a: isinstance(a, _Base) or np.isscalar(a),
    "iscomplexobj": lambda a: False, "isrealobj": lambda a: True,
    "cross": lambda *a, **k: _unsup("cross"),
    "sinc": lambda *a, **k: _unsup("sinc"),
    "nan_to_num": lambda a, *x, **k: elementwise(
        lambda v: v if is_sym(v) else np.float64(np.nan_to_num(v)), (a,)),
    "apply_along_axis": lambda f, axis, a, *x, **k: _apply_along(f, axis, sarray(a), x, k),
    "array2string": lambda *a, **k: "<SymArray>", "array_repr": lambda *a, **k: "<SymArray>",
    "array_str": lambda *a, **k: "<SymArray>",
}


def _apply_along(f, axis, a, x, k):
    b = np.moveaxis(a.raw(), axis, -1)
    cells = []
    for i in np.ndindex(b.shape[:-1]):
        v = np.array(b[i], dtype=object).view(SymArray)
        v._ld = a._ld
        cells.append(f(v, *x, **k))
    r = sarray(cells)
    r = r.reshape(b.shape[:-1] + r.shape[1:])
    if r.ndim == b.ndim:
        r = sarray(np.moveaxis(r.raw(), -1, axis))
    return r


def _unsup(name):
    raise Unsupported(f"numpy.{name} on symbolic values")


def _linspace(start, stop, num=50, endpoint=True, **k):
    num_ = int(num)
    step = el_div(el_sub(stop, start), np.float64((num_ - 1) if endpoint else num_))
    return sarray([el_add(start, el_mul(np.float64(i), step)) for i in range(num_)])


def _einsum(spec, *ops, **k):
    ins, _, out = spec.replace(" ", "").partition("->")
    ins = ins.split(",")
    arrs = [sarray(o) for o in ops]
    if not _:
        letters = sorted(set("".join(ins)))
        out = "".join(c for c in letters if "".join(ins).count(c) == 1)
    if "." in spec:
        _unsup("einsum")
    dims = {}
    for s, a in zip(ins, arrs):
        for c, n in zip(s, a.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for i in np.ndindex(res.shape):
        env = dict(zip(out, i))
        acc = np.float64(0)
        for j in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, j))
            p = None
            for s, a in zip(ins, arrs):
                e = a.raw()[tuple(env[c] for c in s)]
                p = e if p is None else el_mul(p, e)
            acc = el_add(acc, p)
        res[i] = acc
    if res.ndim == 0:
        return _out(res[()])
    return sarray(res)


def _full_like(a, v, dtype=None):
    a = sarray(a)
    out = full(a.shape, 0, ld_of(dtype) if dtype is not None else a._ld)
    out[...] = v
    return out


def _diff(a, n, axis):
    for _ in range(n):
        k1, k2 = [slice(None)] * a.ndim, [slice(None)] * a.ndim
        k1[axis], k2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(k1)] - a[tuple(k2)]
    return a


def _fill_diag(a, v):
    for i in range(min(a.shape)):
        a[i, i] = v


_STRUCT = [
    "transpose", "concatenate", "vstack", "hstack", "stack", "dstack", "column_stack", "row_stack", "append",
    "insert", "tile", "repeat", "reshape", "ravel", "squeeze", "expand_dims", "diag", "diagonal", "diagflat", "roll", "flip",
    "fliplr", "flipud", "swapaxes", "moveaxis", "rollaxis", "broadcast_to", "broadcast_arrays", "atleast_1d",
    "atleast_2d", "atleast_3d", "split", "array_split", "vsplit", "hsplit", "meshgrid", "ix_", "rot90", "resize",
    "block", "pad",
]
for _n in _STRUCT:
    if hasattr(np, _n):
        _FUN[_n] = _structural(_n)


def function_call(func, args, kwargs):
    name = func.__name__
    f = _FUN.get(name)
    if f is not None:
        return f(*args, **kwargs)
    whole = lambda a: a.__index__() if isinstance(a, _Base) and num(a).sort == "I" else a  # noqa: E731
    args, kwargs = [whole(a) for a in args], {k: whole(v) for k, v in kwargs.items()}
    if not any(not a.concrete() if isinstance(a, SymArray) else symbolic(a) for a in args):
        def nat(x):
            if isinstance(x, SymArray):
                return x.native()
            if isinstance(x, (list, tuple)):
                return type(x)(nat(e) for e in x)
            return x
        return back(func(*[nat(a) for a in args], **{k: nat(v) for k, v in kwargs.items()}))
    raise Unsupported(f"numpy.{name} on symbolic values")


def back(r):
    """Results of machine functions become SymArrays again (so that they can hold symbols later)."""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        return sarray(r) if r.dtype.kind in "biufO" else r
    if type(r) in (list, tuple):
        return type(r)(back(e) for e in r)
    return r


# -- the module handed to the code under test ------------------------------------------------------

class Proxy:
    """Stands in for a module: overrides first, then the real attribute, wrapped if it is a function."""

    def __init__(self, real, overrides, name):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = overrides
        self.__dict__["__name__"] = name
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        v = getattr(self._real, name)
        if name.startswith("__"):
            return v
        c = self._cache
        if name not in c:
            c[name] = _wrapfn(v) if (callable(v) and not isinstance(v, type)) else v
        return c[name]

    def __dir__(self):
        return dir(self._real)


class _UProxy:
    """A universal function."""

    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *args, **kw):
        if any(symbolic(a) for a in args) or any(symbolic(v) for v in kw.values()):
            args = [sarray(a) if isinstance(a, (list, tuple)) else a for a in args]
            return ufunc_call(self._u, "__call__", args, dict(kw))
        return back(self._u(*args, **kw))

    def __getattr__(self, name):
        m = getattr(self._u, name)
        if not callable(m):
            return m

        def f(*args, **kw):
            if any(symbolic(a) for a in args):
                return ufunc_call(self._u, name, [sarray(a) if isinstance(a, (list, tuple)) else a for a in args],
                                  dict(kw))
            return back(m(*args, **kw))
        return f


def _wrapfn(fn):
    if isinstance(fn, np.ufunc):
        return _UProxy(fn)

    def f(*args, **kw):
        if any(symbolic(a) for a in args) or any(symbolic(v) for v in kw.values()):
            return function_call(fn, args, kw)
        return back(fn(*args, **kw))
    f.__name__ = getattr(fn, "__name__", "f")
    return f


def _array(x, dtype=None, *, copy=True, ndmin=0, **k):
    if isinstance(x, SymMasked):
        x = x.concretize()
    if isinstance(x, SymArray):
        r = x.copy() if copy else x
        if dtype is not None and ld_of(dtype) != r._ld:
            r = r._cast(ld_of(dtype))
    else:
        r = sarray(x, ld_of(dtype) if dtype is not None else None)
        if isinstance(x, np.ndarray) and r is x and copy:
            r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


def _asarray(x, dtype=None, *a, **k):
    return _array(x, dtype, copy=False)


def _mk_full(val):
    def f(shape, dtype=None, *a, **k):
        return full(shape, val, ld_of(dtype))
    return f


def _full(shape, fill_value, dtype=None, *a, **k):
    if dtype is None:
        ld = sarray(fill_value)._ld if isinstance(fill_value, (list, tuple)) else _ld_any(fill_value)
    else:
        ld = ld_of(dtype)
    if isinstance(fill_value, (list, tuple, np.ndarray)):
        out = full(shape, 0, ld)
        out[...] = fill_value
        return out
    return full(shape, fill_value, ld)


def _fromiter(it, dtype, count=-1, **k):
    return sarray(list(it), ld_of(dtype))


def _vectorize(f, **k):
    def g(*args):
        return elementwise(f, [sarray(a) if isinstance(a, (list, tuple)) else a for a in args])
    return g


def _empty(shape, dtype=None, *a, **k):
    ld = ld_of(dtype)
    if ld == "f":
        return full(shape, garbage, ld)
    if ld == "i":
        return full(shape, lambda: _fresh["garbage"]("I"), ld)
    return full(shape, lambda: _fresh["garbage"]("B"), ld)


def numpy_proxy(random_module):
    over = {
        "array": _array, "asarray": _asarray, "asanyarray": _asarray, "ascontiguousarray": _asarray,
        "asfarray": lambda x, dtype=None: _asarray(x, float),
        "empty": _empty, "zeros": _mk_full(0), "ones": _mk_full(1), "full": _full, "fromiter": _fromiter,
        "vectorize": _vectorize, "frompyfunc": lambda f, a, b: _vectorize(f),
        "random": random_module,
        "float64": _Caster("f", np.float64), "int64": _Caster("i", np.int64), "bool_": _Caster("b", np.bool_),
        "float_": _Caster("f", np.float64), "intp": _Caster("i", np.int64),
        "isscalar": lambda a: isinstance(a, _Base) or np.isscalar(a),
        "linalg": Proxy(np.linalg, {}, "numpy.linalg"),
        "nditer": _nditer, "ndenumerate": _ndenumerate,
        "r_": _RC(0), "c_": _RC(1),
        "errstate": np.errstate,
    }
    return Proxy(np, over, "numpy")


def _nditer(*a, **k):
    raise Unsupported("nditer")


def _ndenumerate(a):
    a = sarray(a)
    for i in np.ndindex(a.shape):
        yield i, a.raw()[i]


class _Caster:
    """numpy scalar types: callable, and usable as a dtype."""

    def __init__(self, ld, real):
        self._ld, self._real = ld, real
        self.dtype = np.dtype(real)

    def __call__(self, x=0):
        if isinstance(x, (np.ndarray, list, tuple)):
            return sarray(x, self._ld)
        return cast(x, self._ld)

    def __eq__(self, o):
        return o is self or o == self._real

    def __hash__(self):
        return hash(self._real)

    def __getattr__(self, n):
        return getattr(self._real, n)


class _RC:
    def __init__(self, kind):
        self.kind = kind

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(sarray(np.r_[k]))
            else:
                parts.append(sarray(k) if np.ndim(k) else sarray([k]))
        if self.kind == 0:
            return _FUN["concatenate"](parts)
        return _FUN["column_stack"](parts)
