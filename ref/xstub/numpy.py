"""Stand-in for the part of numpy that nappy's conversions use: small arrays of known
shape whose elements may be anything.  A missing number is the marker below."""

NAN = "<nan>"


class dtype(object):
    def __init__(self, type):
        self.type = type


class generic(object):
    pass


class number(generic):
    pass


class float64(number):
    pass


class int64(number):
    pass


class int32(number):
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v

    def __str__(self):
        return str(self.v)

    def __eq__(self, o):
        return self.v == (o.v if isinstance(o, int32) else o)


class bool_(generic):
    pass


class str_(generic):
    pass


class bytes_(generic):
    pass


class object_(generic):
    pass


class datetime64(generic):
    pass


floating = number
integer = int64
float32 = float64


class _ma(object):
    def __init__(self):
        self.MaskedArray = ndarray

    def masked_array(self, data, mask=None, fill_value=None):
        return array(data)

    def array(self, data, mask=None, fill_value=None):
        return array(data)

    def __getattr__(self, name):
        return __unmodelled__("numpy.ma." + name)


def _shape(v):
    if isinstance(v, (list, tuple)):
        if len(v) == 0:
            return (0,)
        return (len(v),) + _shape(v[0])
    return ()


def _first(v):
    while isinstance(v, list):
        if len(v) == 0:
            return 0.0
        v = v[0]
    return v


def _kind(v):
    if isinstance(v, str):
        return float64 if v == NAN else str_
    if isinstance(v, bool):
        return bool_
    if isinstance(v, bytes):
        return bytes_
    if isinstance(v, int):
        return int64
    if isinstance(v, float):
        return float64
    return object_


def _kinds(v):
    # the type of the elements; a marker among numbers makes them real
    if isinstance(v, list):
        k = None
        for x in v:
            n = _kinds(x)
            if k is None:
                k = n
            elif n is float64 and k is int64:
                k = float64
        return float64 if k is None else k
    return _kind(v)


def _copy(v):
    if isinstance(v, (list, tuple)):
        return [_copy(x) for x in v]
    if isinstance(v, ndarray):
        return _copy(v._v)
    return v


def _flat(v):
    if isinstance(v, list):
        out = []
        for x in v:
            out = out + _flat(x)
        return out
    return [v]


def _map(f, v):
    if isinstance(v, list):
        return [_map(f, x) for x in v]
    return f(v)


def _depth(v):
    n = 0
    while isinstance(v, list):
        n = n + 1
        if len(v) == 0:
            return n
        v = v[0]
    return n


def _map2(f, a, b):
    if isinstance(a, ndarray):
        a = a._v
    if isinstance(b, ndarray):
        b = b._v
    if isinstance(a, tuple):
        a = list(a)
    if isinstance(b, tuple):
        b = list(b)
    if not isinstance(a, list) and not isinstance(b, list):
        return f(a, b)
    n, m = _depth(a), _depth(b)
    if n > m:
        return [_map2(f, x, b) for x in a]
    if m > n:
        return [_map2(f, a, x) for x in b]
    if len(a) == 1 and len(b) != 1:
        return [_map2(f, a[0], x) for x in b]
    if len(b) == 1 and len(a) != 1:
        return [_map2(f, x, b[0]) for x in a]
    if len(a) != len(b):
        raise ValueError("operands could not be broadcast together")
    return [_map2(f, a[i], b[i]) for i in range(len(a))]


def _isnan1(x):
    if isinstance(x, str):
        if x == NAN:
            return True
        raise TypeError("isnan of text")
    return False


def _mul1(a, b):
    if isinstance(a, str) and a == NAN or isinstance(b, str) and b == NAN:
        return NAN
    return a * b


def _raw(o):
    if isinstance(o, ndarray):
        return o._v
    if hasattr(o, "_arr"):
        return o._arr._v
    return o


def _wrap(v):
    if isinstance(v, list):
        return ndarray(v)
    return v


class ndarray(object):
    def __init__(self, v, kind=None, shape=None):
        self._v = v
        self.shape = _shape(v) if shape is None else shape
        self.ndim = len(self.shape)
        self.dtype = dtype(_kinds(v) if kind is None else kind)
        n = 1
        for k in self.shape:
            n = n * k
        self.size = n
        self.flat = _flat(v)

    def tolist(self):
        return _copy(self._v)

    def item(self):
        return self.flat[0]

    def copy(self):
        return ndarray(_copy(self._v), self.dtype.type, self.shape)

    def flatten(self):
        return ndarray(_flat(self._v))

    ravel = flatten

    def astype(self, t):
        return self.copy()

    def any(self):
        return any(self.flat)

    def all(self):
        return all(self.flat)

    def max(self):
        return max(self.flat)

    def min(self):
        return min(self.flat)

    def __len__(self):
        if len(self.shape) == 0:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        return iter([_wrap(x) for x in self._v])

    def __getitem__(self, i):
        if isinstance(i, ndarray):
            if i.dtype.type is bool_:
                return _chosen(self._v, i._v)
            return ndarray([self._v[k] for k in i._v], self.dtype.type)
        if isinstance(i, tuple):
            r = _pick(self._v, i)
            return ndarray(r, self.dtype.type) if isinstance(r, list) else r
        r = self._v[i]
        if isinstance(r, list):
            return ndarray(r, self.dtype.type, (len(r),) + self.shape[1:])
        return r

    def __setitem__(self, i, x):
        if isinstance(i, ndarray):
            if isinstance(x, _chosen):
                x = x._v
            self._v = _map2(lambda p, q: q if p is None else p, _map2(lambda p, q: q if p else None, i._v, x), self._v)
        elif isinstance(i, tuple):
            r = self._v
            for k in i[:-1]:
                if isinstance(k, slice):
                    return __unmodelled__("assignment to part of an array")
                r = r[k]
            _put(r, i[-1], _raw(x))
        else:
            _put(self._v, i, _raw(x))
        self.flat = _flat(self._v)

    def _op(self, f, o):
        return ndarray(_map2(f, self._v, _raw(o)))

    def __mul__(self, o):
        return self._op(_mul1, o)

    def __rmul__(self, o):
        return self._op(_mul1, o)

    def __add__(self, o):
        return self._op(lambda a, b: a + b, o)

    def __radd__(self, o):
        return self._op(lambda a, b: a + b, o)

    def __sub__(self, o):
        return self._op(lambda a, b: a - b, o)

    def __rsub__(self, o):
        return self._op(lambda a, b: b - a, o)

    def __truediv__(self, o):
        return self._op(lambda a, b: a / b, o)

    def __rtruediv__(self, o):
        return self._op(lambda a, b: b / a, o)

    def __mod__(self, o):
        return self._op(lambda a, b: a % b, o)

    def __floordiv__(self, o):
        return self._op(lambda a, b: a // b, o)

    def __pow__(self, o):
        return self._op(lambda a, b: a ** b, o)

    def __abs__(self):
        return ndarray(_map(abs, self._v))

    def __neg__(self):
        return ndarray(_map(lambda a: -a, self._v))

    def __eq__(self, o):
        return self._op(lambda a, b: a == b, o)

    def __ne__(self, o):
        return self._op(lambda a, b: a != b, o)

    def __lt__(self, o):
        return self._op(lambda a, b: a < b, o)

    def __gt__(self, o):
        return self._op(lambda a, b: a > b, o)

    def __le__(self, o):
        return self._op(lambda a, b: a <= b, o)

    def __ge__(self, o):
        return self._op(lambda a, b: a >= b, o)

    def __and__(self, o):
        return self._op(lambda a, b: a and b, o)

    def __or__(self, o):
        return self._op(lambda a, b: a or b, o)

    def __invert__(self):
        return ndarray(_map(lambda a: not a, self._v))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.flat[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.flat[0])

    def __str__(self):
        return str(self._v)


def _put(r, i, x):
    # the value is repeated over the part it is assigned to
    if isinstance(i, slice):
        n = len(r[i])
        r[i] = x if isinstance(x, list) and len(x) == n else [_copy(x) for k in range(n)]
    elif isinstance(r[i], list):
        r[i] = _map2(lambda p, q: q, r[i], x)
    else:
        r[i] = x


class _chosen(object):
    """the elements a mask selects, kept in place"""
    def __init__(self, v, m):
        self._v = v
        self._m = m

    def __mul__(self, o):
        return _chosen(_map2(_mul1, self._v, o._v if isinstance(o, _chosen) else _raw(o)), self._m)

    def __rmul__(self, o):
        return _chosen(_map2(_mul1, self._v, o._v if isinstance(o, _chosen) else _raw(o)), self._m)

    def __add__(self, o):
        return _chosen(_map2(lambda a, b: a + b, self._v, o._v if isinstance(o, _chosen) else _raw(o)), self._m)

    def __truediv__(self, o):
        return _chosen(_map2(lambda a, b: a / b, self._v, o._v if isinstance(o, _chosen) else _raw(o)), self._m)


def _pick(v, idx):
    if len(idx) == 0:
        return v
    i, rest = idx[0], idx[1:]
    if i is None:
        return [_pick(v, rest)]
    if isinstance(i, slice):
        return [_pick(x, rest) for x in v[i]]
    return _pick(v[i], rest)


ma = _ma()
nan = NAN


def array(x, dtype=None):
    if isinstance(x, ndarray):
        return x.copy()
    if hasattr(x, "_arr"):
        return x._arr.copy()
    _regular(x)
    return ndarray(_copy(x))


def _regular(x):
    if isinstance(x, (list, tuple)) and len(x) > 1 and isinstance(x[0], (list, tuple)):
        for y in x:
            _regular(y)
            if len(y) != len(x[0]):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")


def asarray(x, dtype=None):
    if isinstance(x, ndarray):
        return x
    if hasattr(x, "_arr"):
        return x._arr
    return ndarray(_copy(x))


def atleast_1d(x):
    x = asarray(x)
    if len(x.shape) == 0:
        return ndarray([x._v], x.dtype.type)
    return x


def linspace(start, end, n):
    if n == 1:
        return ndarray([start])
    return ndarray([start + (end - start) * i / (n - 1) for i in range(n)])


def isnan(x):
    if isinstance(x, ndarray) or hasattr(x, "_arr"):
        k = asarray(x).dtype.type
        if k is str_ or k is object_ or k is bytes_:
            raise TypeError("ufunc 'isnan' not supported for the input types")
        return ndarray(_map(_isnan1, _raw(x)), bool_)
    return _isnan1(x)


def any_(x):
    return asarray(x).any()


def all_(x):
    return asarray(x).all()


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return (a == b).all()


def diff(x):
    v = _raw(asarray(x))
    return ndarray([v[i + 1] - v[i] for i in range(len(v) - 1)])


def _close1(a, b, rtol, atol):
    return abs(a - b) <= atol + rtol * abs(b)


def isclose(a, b, rtol=1e-05, atol=1e-08):
    return _wrap(_map2(lambda p, q: _close1(p, q, rtol, atol), _raw(a), _raw(b)))


def allclose(a, b, rtol=1e-05, atol=1e-08):
    return all_(isclose(a, b, rtol, atol))


def multiply(a, b):
    return ndarray(_map2(_mul1, _raw(a), _raw(b)))


def equal(a, b):
    return ndarray(_map2(lambda p, q: p == q, _raw(a), _raw(b)))


def not_equal(a, b):
    return ndarray(_map2(lambda p, q: p != q, _raw(a), _raw(b)))


def logical_not(a):
    return ndarray(_map(lambda p: not p, _raw(a)))


def _fill(shape, x):
    if isinstance(shape, int):
        shape = (shape,)
    if len(shape) == 0:
        return x
    return [_fill(shape[1:], x) for i in range(shape[0])]


def full(shape, x, dtype=None):
    return ndarray(_fill(shape, x))


def zeros(shape, dtype=None):
    return ndarray(_fill(shape, 0.0))


def ones(shape, dtype=None):
    return ndarray(_fill(shape, 1.0))


def full_like(a, x, dtype=None):
    return ndarray(_fill(asarray(a).shape, x))


def zeros_like(a, dtype=None):
    return ndarray(_fill(asarray(a).shape, 0.0))


def where(c, a, b):
    return ndarray(_map2(lambda p, q: q if p is None else p, _map2(lambda p, q: q if p else None, _raw(c), _raw(a)), _raw(b)))


def issubdtype(d, t):
    k = d.type if isinstance(d, dtype) else d
    return issubclass(k, t)


def isscalar(x):
    if isinstance(x, (str, int, float, bool, bytes)):
        return True
    return isinstance(x, generic)


def size(x):
    return asarray(x).size


def shape(x):
    return asarray(x).shape


def ndim(x):
    return asarray(x).ndim
