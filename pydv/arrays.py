"""Symbolic NumPy arrays of one or two dimensions over z3 arrays. Rows of a 2-D array are views on the same buffer."""
import z3
from .engine import *
from . import engine

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SORT = {'i': I, 'f': R, 'b': B, 'x': R}     # x: extended real (real, or minus infinity)


def nested(sort, ndim):
    for _ in range(ndim):
        sort = z3.ArraySort(I, sort)
    return sort


def const(value, sort, ndim):
    for _ in range(ndim):
        value = z3.K(I, value)
    return value


class Buf:
    """Storage: comps = list of z3 array terms (value[, is-minus-infinity])"""
    def __init__(self, kind, ndim, comps, name=''):
        c = ctx()
        self.kind, self.ndim, self.comps, self.name = kind, ndim, list(comps), name
        self.id = c.bufs
        c.bufs += 1
        c.ghost.setdefault('bufs', {})[self.id] = self
        self.readonly = False

    def havoc(self):
        c = ctx()
        self.comps = [c.fresh(self.name or 'h', x.sort()) for x in self.comps]

    def snapshot(self):
        return list(self.comps)


def fresh_buf(kind, ndim, name):
    c = ctx()
    comps = [c.fresh(name, nested(SORT[kind], ndim))]
    if kind == 'x':
        comps.append(c.fresh(name + '_inf', nested(B, ndim)))
    return Buf(kind, ndim, comps, name)


def wrap(kind, vals):
    if kind == 'i':
        return SInt(vals[0])
    if kind == 'b':
        return SBool(vals[0])
    if kind == 'x':
        return SReal(vals[0], vals[1])
    return SReal(vals[0])


def unwrap(kind, v, what='stored value'):
    if kind == 'i':
        return [zint(v)]
    if kind == 'b':
        return [zbool(v)]
    z, i = zreal(v)
    if kind == 'x':
        return [z, zb(i)]
    if i is not False:
        ctx().prove('%s is finite' % what, z3.Not(zb(i)))
    return [z]


def uint(n):
    """Index term"""
    return zint(n)


class SArr(Proxy):
    __hash__ = object.__hash__

    def __init__(self, buf, shape, row=None):
        self.buf, self._shape, self.row = buf, tuple(shape), row     # row: z3 int when this is a row of a 2-D buffer
        self.kind = buf.kind

    # ---- raw access (specifications)
    def terms(self):
        """z3 array terms of the current content (1-D)"""
        if self.row is None:
            return list(self.buf.comps)
        return [z3.Select(c, self.row) for c in self.buf.comps]

    def at(self, *idx):
        vals = self.terms()
        for i in idx:
            vals = [z3.Select(v, zint(i)) for v in vals]
        return wrap(self.kind, vals)

    def frozen(self):
        """Read-only copy of the current content, for specifications"""
        b = Buf.__new__(Buf)
        b.kind, b.ndim, b.comps, b.name, b.id, b.readonly = self.kind, len(self._shape), self.terms(), self.buf.name, -1, True
        return SArr(b, self._shape)

    # ---- NumPy interface
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        n = self._shape[0]
        for k in self._shape[1:]:
            n = n * k
        return n

    @property
    def dtype(self):
        return self.kind

    def sym_len(self):
        return self._shape[0]

    def length(self):
        return self._shape[0]

    def item(self, k):
        return self[k]

    def __iter__(self):
        raise Unsupported('iteration over a symbolic array outside of a for loop')

    def _check(self, i, dim):
        n = self._shape[dim]
        c = ctx()
        c.prove('array index in bounds', z3.And(zint(i) >= 0, zint(i) < zint(n)))

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            key = tuple(k for k in key if k is not Ellipsis)
        while len(key) < self.ndim:
            key = key + (slice(None),)
        if len(key) > self.ndim:
            raise Unsupported('too many indices')
        out = []
        for d, k in enumerate(key):
            if isinstance(k, slice):
                if k != slice(None) and not (k.start in (None, 0) and k.step in (None, 1) and k.stop is None):
                    raise Unsupported('slice %r' % (k,))
                out.append(None)
            else:
                if not _isnumlike(k):
                    raise Unsupported('index %r' % (k,))
                out.append(self._wrapneg(k, d))
        return out

    def _wrapneg(self, k, d):
        z = z3.simplify(zint(k))
        if z3.is_int_value(z) and z.as_long() < 0:
            return SInt(zint(self._shape[d]) + z)
        return SInt(zint(k))

    def __getitem__(self, key):
        if type(key).__name__ == 'OpaqueSlice':
            return key.of(self)
        if isinstance(key, Proxy) and hasattr(key, 'ndim') or isinstance(key, Proxy) and hasattr(key, 'index') or \
           isinstance(key, tuple) and any(isinstance(x, Proxy) and (hasattr(x, 'ndim') or hasattr(x, 'index')) for x in key):
            from .pdshim import farr
            return farr(self)[key]
        k = self._key(key)
        c = ctx()
        if all(x is None for x in k):
            return SArr(self.buf, self._shape, self.row)
        for d, x in enumerate(k):
            if x is not None:
                self._check(x, d)
        if self.ndim == 1:
            c.access('r', self, (k[0],))
            return self.at(k[0])
        if k[1] is None:
            return SArr(self.buf, self._shape[1:], row=k[0].z)
        if k[0] is None:
            return SArrColumn(self, k[1])
        c.access('r', self, tuple(k))
        return self.at(*k)

    def __setitem__(self, key, value):
        if isinstance(key, tuple) and any(hasattr(x, 'positions') for x in key):
            return self._set_where(key, value)
        if hasattr(key, 'grid') or isinstance(key, tuple) and any(isinstance(x, Proxy) and hasattr(x, 'ndim') for x in key):
            return self.scatter(key, value)
        if isinstance(key, Proxy) and self.ndim == 1 and (getattr(key, 'kind', None) == 'b' or hasattr(key, 'chosen')):
            return self._set_selected(key, value)
        k = self._key(key)
        c = ctx()
        if self.buf.readonly:
            c.fail('frame', 'write to a read-only array %s' % self.buf.name)
        for d, x in enumerate(k):
            if x is not None:
                self._check(x, d)
        idx = ([] if self.row is None else [self.row]) + [x.z for x in k if x is not None]
        c.access('w', self, tuple(k))
        nd = self.buf.ndim
        if len(idx) == nd:
            vals = unwrap(self.kind, value)
        else:
            rest = self._shape[-1] if nd - len(idx) == 1 else None
            if isinstance(value, SArr):
                if value.ndim != nd - len(idx):
                    raise Unsupported('broadcast assignment')
                for a, b in zip(self._shape[len(self._shape) - value.ndim:], value._shape):
                    c.prove('shapes of the assignment match', zint(a) == zint(b))
                vals = convert(value, self.kind)
            elif _isnumlike(value):
                vals = [const(v, None, nd - len(idx)) for v in unwrap(self.kind, value)]
            else:
                raise Unsupported('assigning %r' % type(value))
        if not idx:
            self.buf.comps = list(vals)
            return
        new = []
        for comp, v in zip(self.buf.comps, vals):
            t = c.fresh(self.buf.name or 'a', comp.sort())       # named, so that it can serve in patterns
            c.assume(t == store(comp, idx, v))
            new.append(t)
        self.buf.comps = new

    def _set_selected(self, key, value):
        """a[Boolean array or its positions] = scalar or the values in order"""
        from .pdshim import mask_of
        c = ctx()
        if self.buf.readonly:
            c.fail('frame', 'write to a read-only array %s' % self.buf.name)
        cond = key.cond if hasattr(key, 'chosen') else key
        m = mask_of(cond)
        c.prove('the mask has the length of the axis', zint(m.n) == zint(self._shape[0]))
        scalar = _isnumlike(value)
        if not scalar:
            c.prove('as many values as selected elements', zint(value.shape[0]) == m.m)
        new, j = [], z3.Int(c.fresh_name('j'))
        c.nofork += 1
        inside = zbool(cond.at(SInt(j)))
        vals = unwrap(self.kind, value if scalar else value.at(SInt(z3.Select(m.dst, j))))
        c.nofork -= 1
        for comp, v in zip(self.terms(), vals):
            t = c.fresh(self.buf.name or 'a', comp.sort())
            e = z3.Select(t, j)
            c.assume(z3.ForAll([j], e == z3.If(z3.And(j >= 0, j < zint(self._shape[0]), inside), v, z3.Select(comp, j)), patterns=[e]))
            new.append(t)
        c.access('w', self, (None,))
        if self.row is None:
            self.buf.comps = new
        else:
            raise Unsupported('assignment to selected elements of a row')

    def _set_where(self, key, value):
        """a[r, where] = scalar, `where`: a set of positions"""
        c = ctx()
        r, where = key
        if self.ndim != 2 or not _isnumlike(r) or not hasattr(where, 'positions'):
            raise Unsupported('assignment to %r' % (key,))
        self._check(SInt(zint(r)), 0)
        if self.buf.readonly:
            c.fail('frame', 'write to a read-only array %s' % self.buf.name)
        new = []
        for comp, v in zip(self.buf.comps, unwrap(self.kind, value)):
            row = c.fresh(self.buf.name or 'a', comp.sort().range())
            t = c.fresh(self.buf.name or 'a', comp.sort())
            j = z3.Int(c.fresh_name('j'))
            e = z3.Select(row, j)
            c.assume(z3.ForAll([j], e == z3.If(where.positions(j), v, z3.Select(z3.Select(comp, zint(r)), j)), patterns=[e]))
            c.assume(t == z3.Store(comp, zint(r), row))
            new.append(t)
        c.access('w', self, (SInt(zint(r)), None))
        self.buf.comps = new

    def astype(self, dtype, copy=True):
        return newarr(kind_of(dtype, self.kind), self._shape, convert(self, kind_of(dtype, self.kind)), self.buf.name)

    def copy(self):
        return newarr(self.kind, self._shape, self.terms(), self.buf.name)

    def max(self):
        return extreme(self, True)

    def min(self):
        return extreme(self, False)

    def sum(self):
        c = ctx()
        f = c.ghost.get('sum')
        if f is None:
            raise Unsupported('sum() without a specification')
        return f(self)

    def tolist(self):
        return self

    def _elementwise(self, f, kind):
        """fresh array with R[j] = f(A[j])"""
        c = ctx()
        out = fresh_buf(kind, self.ndim, 'e')
        a = SArr(out, self._shape)
        j = z3.Int(c.fresh_name('j'))
        if self.ndim != 1:
            raise Unsupported('elementwise operation on a 2-D array')
        n = zint(self._shape[0])
        # side conditions (e.g. divisor not 0) must hold for an arbitrary element
        sk = c.fresh('j', I)
        mark = len(c.pc)
        c.pc.append(z3.And(sk >= 0, sk < n))
        f(self.at(SInt(sk)))
        del c.pc[mark:]
        mode, c.mode = c.mode, 'infer'
        mark = len(c.pc)
        v = f(self.at(SInt(j)))
        del c.pc[mark:]
        c.mode = mode
        body = z3.And([x == y for x, y in zip(a.terms_at(j), unwrap(kind, v))])
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), body), patterns=[a.terms_at(j)[0]]))
        return a

    def terms_at(self, j):
        return [z3.Select(t, j) for t in self.terms()]

    def __truediv__(self, o):
        if isinstance(o, SArr):
            raise Unsupported('array / array')
        return self._elementwise(lambda v: v / o, 'f')

    def __mul__(self, o):
        if isinstance(o, SArr):
            raise Unsupported('array * array')
        return self._elementwise(lambda v: v * o, 'f' if self.kind != 'i' or _isreal(o) else 'i')
    __rmul__ = __mul__

    def __eq__(self, o):
        raise Unsupported('comparison of arrays')

    def __invert__(self):
        from .pdshim import farr
        return ~farr(self)

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __repr__(self):
        return 'SArr(%s)' % self.buf.name


from .engine import _isnumlike, _isreal


class SArrColumn(Proxy):
    """Column of a 2-D array (a view that is only passed on)"""
    def __init__(self, base, col): self.base, self.col = base, col
    shape = property(lambda self: self.base.shape[:1])
    ndim = 1
    kind = property(lambda self: self.base.kind)
    def at(self, i): return self.base.at(i, self.col)


def store(comp, idx, v):
    if not idx:
        return v
    if len(idx) == 1:
        return z3.Store(comp, idx[0], v)
    return z3.Store(comp, idx[0], store(z3.Select(comp, idx[0]), idx[1:], v))


def convert(a, kind):
    """content of an array as components of the given kind"""
    t = a.terms()
    if a.kind == kind:
        return t
    c = ctx()
    nd = a.ndim
    if kind == 'x' and a.kind == 'f':
        return t + [const(z3.BoolVal(False), None, nd)]
    if kind == 'f' and a.kind == 'x':
        if nd != 1:
            raise Unsupported('conversion')
        j = c.fresh('j', I)
        c.prove('stored values are finite', z3.Implies(z3.And(j >= 0, j < zint(a.shape[0])), z3.Not(z3.Select(t[1], j))))
        return t[:1]
    if a.kind == 'i' and kind in 'fx':
        out = c.fresh('conv', nested(R, nd))
        if nd != 1:
            raise Unsupported('conversion')
        j = z3.Int('j')
        c.assume(z3.ForAll([j], z3.Select(out, j) == z3.ToReal(z3.Select(t[0], j)), patterns=[z3.Select(out, j)]))
        return [out] + ([const(z3.BoolVal(False), None, nd)] if kind == 'x' else [])
    raise Unsupported('conversion from %s to %s' % (a.kind, kind))


def kind_of(dtype, current=None):
    s = str(getattr(dtype, '__name__', dtype))
    if s.startswith('float') or s.startswith('f') or s in ('double', 'd'):
        return 'x' if current == 'x' else 'f'
    if s.startswith('int') or s in ('i8', 'i4', 'i'):
        return 'i'
    if s.startswith('bool') or s in ('?', 'b'):
        return 'b'
    raise Unsupported('dtype %s' % s)


def newarr(kind, shape, comps, name='a'):
    return SArr(Buf(kind, len(shape), comps, name), shape)


def arr(name, kind, *shape):
    """An arbitrary array (argument of a function under verification)"""
    return SArr(fresh_buf(kind, len(shape), name), shape)


def extreme(a, maximum):
    c = ctx()
    if a.ndim != 1 or a.kind not in 'if':
        raise Unsupported('max/min')
    n = zint(a.shape[0])
    c.prove('max/min of a non-empty array', n > 0)
    m = c.fresh('max' if maximum else 'min', SORT[a.kind])
    w = c.fresh('arg', I)
    j = z3.Int('j')
    aj = a.terms_at(j)[0]
    c.assume(z3.And(w >= 0, w < n, a.terms_at(w)[0] == m))
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), aj <= m if maximum else aj >= m), patterns=[aj]))
    return wrap(a.kind, [m])
