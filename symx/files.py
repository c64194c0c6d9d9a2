"""netCDF and MAT files with symbolic contents: the real libraries write and
read a file of placeholders, and the symbolic arrays are put back where the
library returns an array of the same shape."""
import os
import numpy as np
import xarray as xr
import xarray.backends.api as xapi
import scipy.io as sio
from .array import SymArray

STORE = {}


def _key(p):
    return os.path.abspath(os.path.expanduser(str(p)))


def blank(a):
    return np.zeros(a.shape, a.dtype)


def fits(a, b):
    return np.squeeze(np.empty(a.shape)).shape == np.squeeze(np.empty(b.shape)).shape


def put(sym, got):
    """symbolic contents in the place of the array read back"""
    r = SymArray(sym.a.reshape(got.shape), sym.dtype)
    return r if r.dtype == got.dtype else r.astype(got.dtype)


class Files:
    def __enter__(self):
        self.saved = [(xr.Dataset, 'to_netcdf', xr.Dataset.to_netcdf), (xapi, 'open_dataset', xapi.open_dataset),
                      (xr, 'open_dataset', xr.open_dataset), (sio, 'savemat', sio.savemat), (sio, 'loadmat', sio.loadmat)]
        to_nc, o_open, o_save, o_load = [x[2] for x in self.saved if x[0] is not xr]

        def to_netcdf(self, path=None, *a, **k):
            ds = self.copy()
            ds.load()
            sym = {n: v._data for n, v in ds.variables.items() if isinstance(v._data, SymArray)}
            for n, s in sym.items():
                ds.variables[n]._data = blank(s)
            r = to_nc(ds, path, *a, **k)
            STORE[_key(path)] = sym
            return r

        def open_dataset(path, *a, **k):
            ds = o_open(path, *a, **k)
            sym = STORE.get(_key(path)) if isinstance(path, (str, os.PathLike)) else None
            if sym:
                ds.load()
                for n, s in sym.items():
                    if n in ds.variables and fits(s, ds.variables[n]):
                        ds.variables[n]._data = put(s, ds.variables[n])
            return ds

        def savemat(path, d, *a, **k):
            sym = {}

            def walk(x, at):
                if isinstance(x, SymArray):
                    sym[at] = x
                    return blank(x)
                if isinstance(x, dict):
                    return {q: walk(v, at + (q,)) for q, v in x.items()}
                return x
            r = o_save(path, walk(d, ()), *a, **k)
            STORE[_key(path)] = sym
            return r

        def loadmat(path, *a, **k):
            d = o_load(path, *a, **k)
            for at, s in STORE.get(_key(path), {}).items():
                x = d
                for q in at[:-1]:
                    x = x[q] if isinstance(x, dict) else getattr(x, q)
                got = x[at[-1]] if isinstance(x, dict) else getattr(x, at[-1])
                if not fits(s, np.asarray(got)):
                    continue
                got = put(s, np.asarray(got))
                if got.ndim == 0:
                    got = got[()]
                if isinstance(x, dict):
                    x[at[-1]] = got
                else:
                    setattr(x, at[-1], got)
            return d
        xr.Dataset.to_netcdf = to_netcdf
        xapi.open_dataset = xr.open_dataset = open_dataset
        sio.savemat, sio.loadmat = savemat, loadmat
        return self

    def __exit__(self, *exc):
        for o, n, f in self.saved:
            setattr(o, n, f)
        STORE.clear()
        return False
