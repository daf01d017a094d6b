"""A small stand-in for pandas: as much as reading simulation output needs.

Whatever it does not know raises AttributeError, TypeError or KeyError, which
the caller takes for "cannot be judged"; misuse which the real pandas reports
as ValueError does so here as well.
"""
import math


def _isseq(x):
    return hasattr(x, "__iter__") and not isinstance(x, (str, bytes))


def _repeated(keys, keep):
    """Which of these are repetitions."""
    import numpy as np

    keys = [tuple(k) if isinstance(k, list) else k for k in keys]
    if keep == "last":
        return _repeated(keys[::-1], "first")[::-1]
    if keep is False:
        return np.array([keys.count(k) > 1 for k in keys], dtype=bool)
    if keep != "first":
        raise ValueError('keep must be either "first", "last" or False')
    seen, out = set(), []
    for k in keys:
        out.append(k in seen)
        seen.add(k)
    return np.array(out, dtype=bool)


class Index(list):
    names = None
    name = None

    def duplicated(self, keep="first"):
        return _repeated(self, keep)

    @property
    def is_unique(self):
        return not self.duplicated().any()

    @property
    def is_monotonic_increasing(self):
        return all(a <= b for a, b in zip(self, self[1:]))

    def unique(self, level=None):
        r = Index(dict.fromkeys(self if level is None else self.get_level_values(level)))
        return r

    def get_level_values(self, level):
        at = level if isinstance(level, int) else self.names.index(level)
        r = Index(k[at] for k in self)
        r.name = self.names[at] if self.names else None
        return r

    def _pick(self, at):
        r = type(self)([self[k] for k in at]) if not isinstance(self, RangeIndex) else Index([self[k] for k in at])
        r.names, r.name = self.names, self.name
        return r

    def tolist(self):
        return list(self)

    @property
    def values(self):
        return list(self)


class RangeIndex(Index):
    pass


class MultiIndex(Index):
    @classmethod
    def from_product(cls, iterables, names=None):
        out = [()]
        for it in iterables:
            it = list(it)
            out = [o + (x,) for o in out for x in it]
        r = cls(out)
        r.names = list(names) if names else None
        return r

    @classmethod
    def from_arrays(cls, arrays, names=None):
        arrays = [list(a) for a in arrays]
        if len({len(a) for a in arrays}) > 1:
            raise ValueError("all arrays must be same length")
        r = cls(list(zip(*arrays)))
        r.names = list(names) if names else None
        return r

    @classmethod
    def from_tuples(cls, tuples, names=None):
        r = cls([tuple(t) for t in tuples])
        r.names = list(names) if names else None
        return r


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        self._data = list(data)
        if dtype is not None:
            self._data = [_cast(x, dtype) for x in self._data]
        self.index = index if index is not None else RangeIndex(range(len(self._data)))
        self.name = name

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter(self._data)

    def astype(self, t):
        return Series([_cast(x, t) for x in self._data], self.index, self.name)

    def __getitem__(self, key):
        if isinstance(key, int) and isinstance(self.index, RangeIndex):
            return self._data[key]
        at = [i for i, k in enumerate(self.index) if k == key]
        if len(at) == 1:
            return self._data[at[0]]
        sub = [i for i, k in enumerate(self.index) if isinstance(k, tuple) and k[0] == key]
        if not sub:
            raise KeyError(key)
        rest = [self.index[i][1:] for i in sub]
        rest = [r[0] if len(r) == 1 else r for r in rest]
        return Series([self._data[i] for i in sub], Index(rest))

    def max(self):
        return max(self._data)

    def min(self):
        return min(self._data)

    def __array__(self, dtype=None, copy=None):
        import numpy as np

        return np.array(self._data, dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        import numpy as np

        if method != "__call__" or kw:
            raise TypeError("ufunc of a series")
        args = [np.asarray(a) if isinstance(a, Series) else a for a in args]
        return Series(list(ufunc(*args)), self.index, self.name)

    def __invert__(self):
        return Series([not x for x in self._data], self.index, self.name)

    def any(self):
        return any(self._data)

    def all(self):
        return all(self._data)

    def _op(self, f, o):
        import numpy as np

        return Series(list(f(np.asarray(self), np.asarray(o))), self.index, self.name)

    def __mul__(self, o):
        return self._op(lambda a, b: a * b, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._op(lambda a, b: a / b, o)

    def __add__(self, o):
        return self._op(lambda a, b: a + b, o)

    def __sub__(self, o):
        return self._op(lambda a, b: a - b, o)

    def __pow__(self, o):
        return self._op(lambda a, b: a**b, o)

    pow, mul, div, add, sub = __pow__, __mul__, __truediv__, __add__, __sub__

    def __lt__(self, o):
        return self._op(lambda a, b: a < b, o)

    def __gt__(self, o):
        return self._op(lambda a, b: a > b, o)

    def __le__(self, o):
        return self._op(lambda a, b: a <= b, o)

    def __ge__(self, o):
        return self._op(lambda a, b: a >= b, o)

    def tolist(self):
        return list(self._data)

    to_list = tolist

    @property
    def values(self):
        import numpy as np

        return np.array(self._data)

    to_numpy = lambda self: self.values


def _cast(x, t):
    if t in (float, "float", "float64"):
        return math.nan if x is None else float(x)
    if t in (int, "int", "int64"):
        return int(x)
    if t in (str, "str"):
        return str(x)
    raise TypeError(f"astype {t}")


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        if data is None:
            data = []
        if isinstance(data, DataFrame):
            cols, rows = list(data.columns), [list(r) for r in data._rows]
        elif isinstance(data, dict):
            cols = list(data)
            cs = [list(data[c]) for c in cols]
            if len({len(c) for c in cs}) > 1:
                raise ValueError("All arrays must be of the same length")
            rows = [list(r) for r in zip(*cs)]
            if columns is not None:
                raise TypeError("columns of a dict")
        else:
            rows = [list(r) if _isseq(r) else [r] for r in data]
            w = max((len(r) for r in rows), default=0 if columns is None else len(columns))
            rows = [r + [None] * (w - len(r)) for r in rows]
            cols = list(columns) if columns is not None else list(range(w))
            if len(cols) != w:
                raise ValueError(f"{len(cols)} columns passed, passed data had {w} columns")
        self._rows = rows
        self.columns = Index(cols)
        if index is None:
            index = RangeIndex(range(len(rows)))
        elif not isinstance(index, Index):
            index = Index(index)
        if len(index) != len(rows):
            raise ValueError("Shape of passed values does not match the index")
        self.index = index
        if dtype is not None:
            self._rows = self.astype(dtype)._rows

    def _like(self, rows, columns=None, index=None):
        r = DataFrame.__new__(DataFrame)
        r._rows = rows
        r.columns = Index(self.columns if columns is None else columns)
        r.index = self.index if index is None else index
        return r

    def __len__(self):
        return len(self._rows)

    @property
    def shape(self):
        return (len(self._rows), len(self.columns))

    @property
    def empty(self):
        return not self._rows or not self.columns

    def astype(self, t):
        return self._like([[_cast(x, t) for x in r] for r in self._rows])

    def copy(self, deep=True):
        return self._like([list(r) for r in self._rows])

    def set_index(self, keys):
        if not isinstance(keys, Index):
            raise TypeError("set_index by column")
        if len(keys) != len(self._rows):
            raise ValueError(
                f"Length mismatch: Expected {len(self._rows)} rows, received array of length {len(keys)}"
            )
        return self._like(self._rows, index=keys)

    def reset_index(self, drop=False):
        if not drop:
            raise TypeError("reset_index keeping the index")
        return self._like(self._rows, index=RangeIndex(range(len(self._rows))))

    def _select(self, key):
        pos = [i for i, c in enumerate(self.columns) if c == key]
        sub = [i for i, c in enumerate(self.columns) if isinstance(c, tuple) and c[0] == key]
        return pos, sub

    def _masked(self, mask):
        mask = list(mask)
        if len(mask) != len(self._rows):
            raise ValueError("Item wrong length")
        return self.iloc[[i for i, m in enumerate(mask) if m]]

    @property
    def loc(self):
        return _Loc(self)

    def duplicated(self, subset=None, keep="first"):
        rows = (self if subset is None else self[subset])
        rows = rows._rows if isinstance(rows, DataFrame) else rows._data
        return Series(list(_repeated(rows, keep)), self.index)

    def drop_duplicates(self, subset=None, keep="first"):
        return self._masked(not x for x in self.duplicated(subset, keep))

    def sort_index(self, axis=0, level=None, ascending=True, kind=None, **kw):
        if axis != 0 or ascending is not True or kw.pop("sort_remaining", True) is not True or kw:
            raise TypeError("sort_index")
        key = (lambda i: self.index[i]) if level is None else (lambda i: self.index.get_level_values(level)[i])
        return self.iloc[sorted(range(len(self._rows)), key=key)]

    def tail(self, n=5):
        return self.iloc[-n:]

    def isna(self):
        return self._like([[x is None or x != x for x in r] for r in self._rows])

    def any(self, axis=0):
        if axis not in (1, "columns"):
            raise TypeError("any of columns")
        return Series([any(r) for r in self._rows], self.index)

    def diff(self):
        rows = [[math.nan] * len(self.columns)] if self._rows else []
        rows += [[b - a for a, b in zip(p, q)] for p, q in zip(self._rows, self._rows[1:])]
        return self._like(rows)

    def __getitem__(self, key):
        if _ismask(key):
            return self._masked(key)
        if isinstance(key, list):
            pos = [i for k in key for i in self._select(k)[0]]
            if len(pos) != len(key):
                raise KeyError(key)
            return self._like([[r[i] for i in pos] for r in self._rows], [self.columns[i] for i in pos])
        pos, sub = self._select(key)
        if len(pos) == 1:
            return Series([r[pos[0]] for r in self._rows], self.index, key)
        if sub:
            rest = [self.columns[i][1:] for i in sub]
            rest = [r[0] if len(r) == 1 else r for r in rest]
            return self._like([[r[i] for i in sub] for r in self._rows], rest)
        raise KeyError(key)

    def __setitem__(self, key, value):
        pos, sub = self._select(key)
        if isinstance(value, DataFrame) and sub and len(value.columns) == len(sub):
            for r, v in zip(self._rows, value._rows):
                for i, x in zip(sub, v):
                    r[i] = x
            return
        raise TypeError("assignment of columns")

    def __truediv__(self, k):
        return self._like([[x / k for x in r] for r in self._rows])

    def __mul__(self, k):
        return self._like([[x * k for x in r] for r in self._rows])

    def __pow__(self, k):
        return self._like([[x**k for x in r] for r in self._rows])

    pow, mul, div = __pow__, __mul__, __truediv__
    __rmul__ = __mul__

    def __array__(self, dtype=None, copy=None):
        import numpy as np

        return np.array(self._rows, dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        import numpy as np

        if method != "__call__" or kw:
            raise TypeError("ufunc of a frame")
        args = [np.asarray(a) if isinstance(a, DataFrame) else a for a in args]
        return self._like([list(r) for r in ufunc(*args)])

    def sum(self, axis=0):
        if axis not in (1, "columns"):
            raise TypeError("sum of columns")
        return Series([sum(r) for r in self._rows], self.index)

    def max(self):
        return Series([max(c) for c in zip(*self._rows)], self.columns)

    @property
    def iloc(self):
        return _ILoc(self)

    def head(self, n=5):
        return self.iloc[:n]

    def groupby(self, by=None, level=None, sort=True):
        names = getattr(self.index, "names", None)
        key = by if by is not None else level
        if isinstance(key, int) and by is None:
            at = key
        elif names and key in names:
            at = names.index(key)
        else:
            raise KeyError(key)
        keys = []
        for k in self.index:
            if k[at] not in keys[-1:] and k[at] not in keys:
                keys.append(k[at])
        if sort:
            keys.sort()
        groups = {k: [] for k in keys}
        for i, k in enumerate(self.index):
            groups[k[at]].append(i)
        return _Groups(self, groups, names[at] if names else None)

    def dropna(self):
        keep = [
            i
            for i, r in enumerate(self._rows)
            if not any(x is None or (isinstance(x, float) and math.isnan(x)) for x in r)
        ]
        return self.iloc[keep]

    @property
    def values(self):
        import numpy as np

        return np.array(self._rows)

    def to_numpy(self):
        return self.values


def _ismask(key):
    if isinstance(key, Series):
        key = key._data
    if isinstance(key, (str, bytes, tuple)) or not hasattr(key, "__iter__"):
        return False
    key = list(key)
    return bool(key) and all(type(x).__name__ in ("bool", "bool_") for x in key)


class _Loc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, key):
        df = self.df
        if _ismask(key):
            return df._masked(key)
        at = [i for i, k in enumerate(df.index) if k == key or isinstance(k, tuple) and k[0] == key]
        if isinstance(key, str) and at:
            return df.iloc[at]
        raise TypeError("loc")


class _ILoc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, i):
        df = self.df
        if isinstance(i, int):
            return Series(df._rows[i], df.columns)
        if isinstance(i, (slice, list)):
            n = range(len(df._rows))
            at = list(n[i]) if isinstance(i, slice) else [n[k] for k in i]
            return df._like([list(df._rows[k]) for k in at], index=df.index._pick(at))
        raise TypeError("iloc")


class _Groups:
    def __init__(self, df, groups, name):
        self.df, self.groups, self.name = df, groups, name

    def __getitem__(self, key):
        return _Groups(self.df[key], self.groups, self.name)

    def __iter__(self):
        for k, at in self.groups.items():
            yield k, self.df.iloc[at]

    def _pick(self, i):
        index = Index(self.groups)
        index.name = self.name
        return self.df._like([list(self.df._rows[at[i]]) for at in self.groups.values()], index=index)

    def first(self):
        return self._pick(0)

    def last(self):
        return self._pick(-1)


def concat(objs, axis=0, keys=None, names=None, ignore_index=False):
    if isinstance(objs, dict):
        keys, objs = list(objs), list(objs.values())
    objs = list(objs)
    if not objs:
        raise ValueError("No objects to concatenate")
    if not all(isinstance(o, DataFrame) for o in objs):
        raise TypeError("concat of something else")
    if axis in (1, "columns"):
        if not all(isinstance(o.index, RangeIndex) for o in objs):
            if any(list(o.index) != list(objs[0].index) for o in objs):
                raise TypeError("concat of different indices")
            index = objs[0].index
        else:
            index = max((o.index for o in objs), key=len)
        n = len(index)
        rows = []
        for i in range(n):
            row = []
            for o in objs:
                row += o._rows[i] if i < len(o._rows) else [math.nan] * len(o.columns)
            rows.append(row)
        cols = []
        for k, o in enumerate(objs):
            for c in o.columns:
                if keys is not None:
                    c = (keys[k],) + (c if isinstance(c, tuple) else (c,))
                cols.append(c)
        return objs[0]._like(rows, cols, index)
    rows, index = [], []
    cols = list(objs[0].columns)
    for k, o in enumerate(objs):
        if list(o.columns) != cols:
            raise TypeError("concat of different columns")
        rows += [list(r) for r in o._rows]
        for x in o.index:
            if keys is not None:
                x = (keys[k],) + (x if isinstance(x, tuple) else (x,))
            index.append(x)
    kind = MultiIndex if index and isinstance(index[0], tuple) else Index
    index = RangeIndex(range(len(rows))) if ignore_index else kind(index)
    if keys is None and not ignore_index:
        index.names = getattr(objs[0].index, "names", None)
    elif not ignore_index:
        inner = getattr(objs[0].index, "names", None) or [None]
        index.names = (list(names) + [None])[:1] + inner if names and len(names) == 1 else names
    return objs[0]._like(rows, cols, index)
