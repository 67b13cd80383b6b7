"""The part of pandas that posidonius uses, on numpy (pandas is not installed here)."""
import numpy as np


def _column(v):
    a = np.asarray(v)
    if a.dtype.kind in "iub" and a.dtype != np.bool_:
        return a.astype(np.int64)
    return a


class _ILoc(object):
    def __init__(self, of):
        self.of = of

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return self.of._row(int(k))
        return self.of._rows(k)


class Series(object):
    def __init__(self, values, index=None, name=None):
        self._v = _column(values)
        self.index = np.arange(len(self._v)) if index is None else np.asarray(index)
        self.name = name

    values = property(lambda s: s._v)
    iloc = property(lambda s: _ILoc(s))
    dtype = property(lambda s: s._v.dtype)
    shape = property(lambda s: s._v.shape)
    size = property(lambda s: s._v.size)
    empty = property(lambda s: len(s._v) == 0)

    def _row(self, k):
        return self._v[k]

    def _rows(self, k):
        return Series(self._v[k], self.index[k], self.name)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __array__(self, dtype=None, copy=None):
        return self._v if dtype is None else self._v.astype(dtype)

    def __getitem__(self, k):
        if isinstance(k, Series):
            k = k._v
        if isinstance(k, (int, np.integer)):
            # by label
            w = np.nonzero(self.index == k)[0]
            if len(w) == 0:
                raise KeyError(k)
            return self._v[w[0]]
        return self._rows(k)

    def max(self):
        return self._v.max()

    def min(self):
        return self._v.min()

    def sum(self):
        return self._v.sum()

    def mean(self):
        return self._v.mean()

    def unique(self):
        return np.array(list(dict.fromkeys(self._v.tolist())), dtype=self._v.dtype)

    def to_numpy(self):
        return self._v

    def tolist(self):
        return self._v.tolist()

    def copy(self):
        return Series(self._v.copy(), self.index.copy(), self.name)

    def astype(self, t):
        return Series(self._v.astype(t), self.index, self.name)

    def _op(name):
        def f(self, other):
            return Series(getattr(self._v, name)(other._v if isinstance(other, Series) else other), self.index, self.name)
        return f

    for _n in ("eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "truediv", "mod", "radd", "rsub", "rmul", "rtruediv", "and", "or", "pow"):
        locals()["__%s__" % _n] = _op("__%s__" % _n)
    __hash__ = None


class DataFrame(object):
    def __init__(self, data=None, columns=None, index=None):
        self._c = {}
        self._i = np.arange(0)
        if isinstance(data, DataFrame):
            self._c = {k: v.copy() for k, v in data._c.items()}
            self._i = data._i.copy()
        elif isinstance(data, dict):
            for k in (columns if columns is not None else data):
                self[k] = data[k]
        elif isinstance(data, np.ndarray) and data.dtype.names:
            for k in (columns if columns is not None else data.dtype.names):
                self[k] = data[k]
        elif data is not None:
            if isinstance(data, np.ndarray) and data.ndim == 1 or isinstance(data, Series):
                data = np.asarray(data)
                self[columns[0] if columns is not None else 0] = data
            elif isinstance(data, np.ndarray):
                for n, k in enumerate(columns if columns is not None else range(data.shape[1])):
                    self[k] = data[:, n]
            else:
                rows = list(data)
                n = len(columns) if columns is not None else (len(rows[0]) if rows else 0)
                for r in rows:
                    if len(r) != n:
                        raise ValueError("%d columns passed, passed data had %d columns" % (n, len(r)))
                for j in range(n):
                    self[columns[j] if columns is not None else j] = [r[j] for r in rows]
        elif columns is not None:
            for k in columns:
                self[k] = []
        if index is not None:
            index = np.asarray(index)
            if self._c and len(index) != len(self._i):
                raise ValueError("Length of index does not match")
            self._i = index

    def __setitem__(self, k, v):
        if isinstance(v, (str, bytes)) or np.ndim(v) == 0:
            v = np.array([v] * len(self._i), dtype=object if isinstance(v, (str, bytes)) else None)
        v = _column(v)
        if not self._c:
            self._i = np.arange(len(v))
        elif len(v) != len(self._i):
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), len(self._i)))
        self._c[k] = v.copy()

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._rows(k)
        if isinstance(k, Series):
            k = k._v
        if isinstance(k, np.ndarray) and k.dtype == np.bool_:
            return self._rows(k)
        if isinstance(k, (list, tuple)) and not isinstance(k, str):
            if isinstance(k, list) and all(isinstance(q, (bool, np.bool_)) for q in k):
                return self._rows(np.array(k, dtype=bool))
            f = DataFrame()
            for q in k:
                f[q] = self._c[q]
            f._i = self._i
            return f
        if k not in self._c:
            raise KeyError(k)
        return Series(self._c[k], self._i, k)

    def __delitem__(self, k):
        del self._c[k]

    def __contains__(self, k):
        return k in self._c

    def __iter__(self):
        return iter(self._c)

    def __len__(self):
        return len(self._i)

    columns = property(lambda s: list(s._c))
    index = property(lambda s: s._i)
    iloc = property(lambda s: _ILoc(s))
    shape = property(lambda s: (len(s._i), len(s._c)))
    empty = property(lambda s: len(s._i) == 0 or not s._c)

    @property
    def values(self):
        return np.array([self._c[k] for k in self._c]).T

    def _row(self, k):
        if not -len(self) <= k < len(self):
            raise IndexError("single positional indexer is out-of-bounds")
        return {q: v[k] for q, v in self._c.items()}

    def _rows(self, k):
        f = DataFrame()
        f._c = {q: v[k] for q, v in self._c.items()}
        f._i = self._i[k]
        return f

    def head(self, n=5):
        return self._rows(slice(0, n))

    def tail(self, n=5):
        return self._rows(slice(max(len(self) - n, 0), None))

    def copy(self):
        return DataFrame(self)

    def drop(self, columns=None, **kw):
        f = self.copy()
        for k in [columns] if isinstance(columns, str) else columns:
            del f[k]
        return f

    def reset_index(self, drop=False, **kw):
        f = self.copy()
        f._i = np.arange(len(self))
        return f

    def to_records(self, index=True):
        cols = ([("index", self._i)] if index else []) + list(self._c.items())
        out = np.recarray(len(self), dtype=[(str(k), v.dtype) for k, v in cols])
        for k, v in cols:
            out[str(k)] = v
        return out

    def to_csv(self, name, sep=",", index=True, header=True, **kw):
        def text(v):
            if isinstance(v, (float, np.floating)):
                return "" if np.isnan(v) else repr(float(v))
            return str(v)
        with open(name, "w") as f:
            if header:
                f.write(sep.join(([""] if index else []) + [str(k) for k in self._c]) + "\n")
            for n in range(len(self)):
                f.write(sep.join(([text(self._i[n])] if index else []) + [text(v[n]) for v in self._c.values()]) + "\n")


def concat(frames, ignore_index=False, **kw):
    frames = list(frames)
    f = DataFrame()
    for k in frames[0].columns:
        f[k] = np.concatenate([q._c[k] for q in frames])
    f._i = np.arange(len(f)) if ignore_index else np.concatenate([q._i for q in frames])
    return f
