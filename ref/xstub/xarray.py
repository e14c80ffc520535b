"""Stand-in for the part of xarray that nappy's conversions use."""
import numpy as np

FILES = {}
WRITTEN = []

KNOWN = ("T all any argmax argmin argsort as_numpy assign_attrs assign_coords astype bfill broadcast_equals broadcast_like chunk chunks "
         "chunksizes clip close coarsen combine_first conj conjugate convert_calendar copy count cumprod cumsum cumulative "
         "cumulative_integrate curvefit diff differentiate dot drop drop_attrs drop_duplicates drop_encoding drop_indexes drop_isel drop_sel "
         "drop_vars dropna dt equals expand_dims ffill from_dict from_iris from_series get_axis_num get_index groupby groupby_bins head "
         "identical idxmax idxmin imag indexes integrate interp interp_calendar interp_like interpolate_na isel isin isnull item load "
         "load_async loc map_blocks max mean median min nbytes ndim notnull pad persist pipe plot polyfit prod quantile query rank real "
         "reduce reindex reindex_like rename reorder_levels resample reset_coords reset_encoding reset_index roll rolling rolling_exp round "
         "searchsorted sel set_close set_index set_xindex shift sizes sortby squeeze stack std str sum swap_dims tail thin to_dask_dataframe "
         "to_dataframe to_dataset to_dict to_index to_iris to_masked_array to_netcdf to_numpy to_pandas to_series to_unstacked_dataset to_zarr "
         "transpose unify_chunks unstack var variable weighted where xindexes").split()

LAT = ("degree_north", "degree_N", "degreeN", "degrees_north", "degrees_N", "degreesN")
LON = ("degree_east", "degree_E", "degreeE", "degrees_east", "degrees_E", "degreesE")
VERTICAL = ("air_pressure", "height", "depth", "geopotential_height", "altitude", "height_above_geopotential_datum",
            "height_above_reference_ellipsoid", "height_above_mean_sea_level")


def _cf_keys(c):
    """The CF names a coordinate answers to."""
    out = []
    a = c.attrs
    for key in ("standard_name", "long_name"):
        n = a.get(key)
        if n == "time":
            out = out + ["time", "T"]
        if n == "latitude":
            out = out + ["latitude"]
        if n == "longitude":
            out = out + ["longitude"]
        if n in VERTICAL:
            out = out + ["vertical"]
    if a.get("axis") == "T":
        out = out + ["time", "T"]
    if a.get("axis") in ("X", "Y", "Z"):
        out = out + [a.get("axis")]
    if a.get("units") in LAT:
        out = out + ["latitude"]
    if a.get("units") in LON:
        out = out + ["longitude"]
    if a.get("positive") in ("up", "down"):
        out = out + ["vertical"]
    if "standard_name" in a:
        out = out + [a["standard_name"]]
    return out


class _CF(object):
    def __init__(self, da):
        self.da = da

    def _find(self, key):
        hits = [c for c in self.da._all_coords() if key in _cf_keys(c)]
        return hits

    def __contains__(self, key):
        return len(self._find(key)) > 0

    def __getitem__(self, key):
        hits = self._find(key)
        if len(hits) == 0:
            raise KeyError(key)
        return hits[0]


class _Coords(object):
    def __init__(self, da):
        self._d = {c.name: c for c in da._all_coords()}

    def __getitem__(self, key):
        return self._d[key]

    def __contains__(self, key):
        return key in self._d

    def __iter__(self):
        return iter(list(self._d.keys()))

    def __len__(self):
        return len(self._d)

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()

    def get(self, key, default=None):
        return self._d.get(key, default)


class DataArray(object):
    def __init__(self, data, coords=None, dims=None, name=None, attrs=None, encoding=None):
        if isinstance(data, DataArray):
            if coords is None and dims is None:
                self._coords = list(data._coords)
                dims = data.dims
            data = data._arr
        else:
            self._coords = []
        arr = np.asarray(data)
        if isinstance(coords, dict):
            self._coords = [c if isinstance(c, DataArray) else DataArray(c, dims=(k,), name=k) for k, c in coords.items()]
            if dims is None:
                dims = tuple(coords.keys())
        elif coords is not None:
            if len(coords) != len(arr.shape):
                raise ValueError("coords is not dict-like, but it has %d items, which does not match the %d dimensions of the data"
                                 % (len(coords), len(arr.shape)))
            names = []
            used = []
            k = 0
            for c in coords:
                d = c.dims[0] if isinstance(c, DataArray) else ("dim_%d" % k if dims is None else dims[k])
                c2 = DataArray(c, dims=(d,), name=d) if not isinstance(c, DataArray) else c._as_coord(d)
                if len(c2._arr) != arr.shape[k]:
                    raise ValueError("conflicting sizes for dimension %s" % d)
                if d in names:
                    raise ValueError("duplicate dimension")
                names.append(d)
                used.append(c2)
                k = k + 1
            dims = tuple(names)
            self._coords = used
        elif dims is None:
            dims = tuple(["dim_%d" % i for i in range(len(arr.shape))])
        if isinstance(dims, str):
            dims = (dims,)
        if len(dims) != len(arr.shape):
            raise ValueError("different number of dimensions on data and dims")
        self._arr = arr
        self.dims = tuple(dims)
        self.name = name
        self.attrs = dict(attrs) if attrs is not None else {}
        self.encoding = dict(encoding) if encoding is not None else {}

    def _as_coord(self, d):
        c = DataArray(self._arr, dims=(d,), name=d, attrs=self.attrs)
        c.encoding = dict(self.encoding)
        return c

    def _all_coords(self):
        # a coordinate variable is its own coordinate
        out = [c for c in self._coords]
        for d in self.dims:
            if self.name == d and len(self.dims) == 1 and d not in [c.name for c in out]:
                out.append(self)
        return out

    @property
    def coords(self):
        return _Coords(self)

    @property
    def cf(self):
        return _CF(self)

    @property
    def data(self):
        return self._arr

    @property
    def values(self):
        return self._arr

    @property
    def shape(self):
        return self._arr.shape

    @property
    def ndim(self):
        return len(self._arr.shape)

    @property
    def size(self):
        return self._arr.size

    @property
    def dtype(self):
        return self._arr.dtype

    def __getattr__(self, name):
        for c in self._coords:
            if c.name == name:
                return c
        if self.name == name and name in self.dims:
            return self
        if name in self.attrs:
            return self.attrs[name]
        if name in KNOWN:
            return __unmodelled__("DataArray." + name)
        raise AttributeError(name)

    def _new(self, v):
        # the same dimensions with other values
        r = DataArray(v, dims=self.dims, name=self.name, attrs=self.attrs)
        r._coords = list(self._coords)
        r.encoding = dict(self.encoding)
        return r

    def compute(self):
        return self._new(self._arr)

    def copy(self, deep=True):
        return self._new(self._arr.copy() if deep else self._arr)

    def fillna(self, value):
        return self._new(np.ndarray(np._map(lambda x: value if np._isnan1(x) else x, self._arr._v)))

    def isnull(self):
        return self._new(np.isnan(self._arr))

    def any(self):
        return DataArray(self._arr.any())

    def all(self):
        return DataArray(self._arr.all())

    def item(self):
        return self._arr.flat[0]

    def rename(self, m):
        if isinstance(m, dict):
            dims = tuple([m.get(d, d) for d in self.dims])
            r = DataArray(self._arr, dims=dims, name=m.get(self.name, self.name), attrs=self.attrs)
            r._coords = [c.rename(m) for c in self._coords if c is not self]
            r.encoding = dict(self.encoding)
            return r
        r = self._new(self._arr)
        r.name = m
        return r

    def __len__(self):
        return len(self._arr)

    def __iter__(self):
        return iter([self[i] for i in range(len(self._arr))])

    def __getitem__(self, i):
        if isinstance(i, str):
            return self.coords[i]
        v = self._arr[i]
        dims = self.dims if isinstance(i, slice) else self.dims[1:]
        r = DataArray(v, dims=dims, name=self.name, attrs=self.attrs)
        cs = []
        for c in self._coords:
            if c.dims and self.dims and c.dims[0] == self.dims[0]:
                if isinstance(i, slice) or len(c.dims) > 1:
                    cs.append(c[i])
            else:
                cs.append(c)
        r._coords = cs
        r.encoding = dict(self.encoding)
        return r

    def _op(self, v):
        return DataArray(v, dims=self.dims if hasattr(v, "shape") else ())

    def __mul__(self, o):
        return self._op(self._arr * np._raw(o))

    def __add__(self, o):
        return self._op(self._arr + np._raw(o))

    def __sub__(self, o):
        return self._op(self._arr - np._raw(o))

    def __eq__(self, o):
        return self._op(self._arr == np._raw(o))

    def __ne__(self, o):
        return self._op(self._arr != np._raw(o))

    def __lt__(self, o):
        return self._op(self._arr < np._raw(o))

    def __gt__(self, o):
        return self._op(self._arr > np._raw(o))

    def __bool__(self):
        return bool(self._arr)

    def __float__(self):
        return float(self._arr)

    def __hash__(self):
        raise TypeError("unhashable")


KNOWN_DATASET = (
    "all any apply argmax argmin argsort as_numpy assign assign_attrs assign_coords astype attrs bfill broadcast_equals broadcast_like "
    "chunk chunks chunksizes clip close coarsen combine_first compute conj conjugate convert_calendar coords copy count cumprod cumsum "
    "cumulative cumulative_integrate curvefit data_vars diff differentiate dims drop drop_attrs drop_dims drop_duplicates drop_encoding "
    "drop_indexes drop_isel drop_sel drop_vars dropna dtypes dump_to_store encoding equals eval expand_dims ffill fillna "
    "filter_by_attrs from_dataframe from_dict get get_index groupby groupby_bins head identical idxmax idxmin imag indexes info "
    "integrate interp interp_calendar interp_like interpolate_na isel isin isnull items keys load load_async load_store loc map "
    "map_blocks max mean median merge min nbytes notnull pad persist pipe plot polyfit prod quantile query rank real reduce reindex "
    "reindex_like rename rename_dims rename_vars reorder_levels resample reset_coords reset_encoding reset_index roll rolling "
    "rolling_exp round sel set_close set_coords set_index set_xindex shift sizes sortby squeeze stack std sum swap_dims tail thin "
    "to_array to_dask_dataframe to_dataarray to_dataframe to_dict to_netcdf to_pandas to_stacked_array to_zarr transpose unify_chunks "
    "unstack update values var variables weighted where xindexes "
).split()


class Dataset(object):
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.attrs = dict(attrs) if attrs is not None else {}
        self.encoding = {}
        self._vars = {}
        self._coord_vars = {}
        for name, v in (data_vars or {}).items():
            v2 = v.rename(name) if v.name != name else v
            self._vars[name] = v2
            for c in v2._coords:
                if c.name not in self._coord_vars:
                    self._coord_vars[c.name] = c
        for c in (coords or []):
            self._coord_vars[c.name] = c
            if c.name in self._vars:
                del self._vars[c.name]

    @property
    def variables(self):
        d = dict(self._vars)
        for k, c in self._coord_vars.items():
            if k not in d:
                d[k] = c
        return d

    @property
    def data_vars(self):
        return dict(self._vars)

    @property
    def coords(self):
        return dict(self._coord_vars)

    def keys(self):
        return self._vars.keys()

    def values(self):
        return self._vars.values()

    def items(self):
        return self._vars.items()

    def __iter__(self):
        return iter(list(self._vars.keys()))

    def __len__(self):
        return len(self._vars)

    def __contains__(self, k):
        return k in self._vars or k in self._coord_vars

    def __getitem__(self, k):
        if k in self._vars:
            return self._vars[k]
        return self._coord_vars[k]

    def __getattr__(self, name):
        if name in self._vars:
            return self._vars[name]
        if name in self._coord_vars:
            return self._coord_vars[name]
        if name in self.attrs:
            return self.attrs[name]
        if name in KNOWN_DATASET:
            return __unmodelled__("Dataset." + name)
        raise AttributeError(name)

    def to_netcdf(self, path, mode="w", **kw):
        WRITTEN.append((path, mode, self))

    def close(self):
        pass


def open_dataset(name, **kw):
    return FILES[name]


def _put(name, ds):
    FILES[name] = ds
