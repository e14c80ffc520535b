"""Building blocks of data sets for the conversions."""
import numpy as np
import xarray as xr
import cftime


def axis(name, vals, attrs):
    return xr.DataArray(vals, dims=(name,), name=name, attrs=attrs)


def time_axis(name, nums, units, calendar, attrs):
    t = xr.DataArray([cftime.datetime(v, units, calendar) for v in nums], dims=(name,), name=name, attrs=attrs)
    t.encoding = {"units": units, "calendar": calendar}
    return t


def var(name, axes, cells, attrs, fill, key):
    da = xr.DataArray(cells, coords=axes, name=name, attrs=attrs)
    if fill is not None:
        da.encoding = {key: fill}
    return da


def single(name, value, attrs):
    return xr.DataArray(value, name=name, attrs=attrs)


def dataset(variables, attrs):
    return xr.Dataset({v.name: v for v in variables}, attrs=attrs)


def encode(da, encoding):
    da.encoding = encoding


def attach(da, coords):
    for c in coords:
        if all([d in da.dims for d in c.dims]):
            da._coords.append(c)
