"""Synthetic drop-size look-up table for the drizzle retrieval.

The repository does not contain the table (mie_lu_tables.nc); opening it is
redirected to a generated file with the same variables.
"""
import atexit
import os
import shutil
import tempfile

import netCDF4
import numpy as np

DO = np.concatenate([np.geomspace(4e-6, 1e-4, 40), np.geomspace(1.05e-4, 2e-3, 60)])
MU = np.array([-1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0, 5.0, 7.0, 10.0])
_r = np.random.default_rng(5)
_s = (len(MU), len(DO))
TABLE = {"lu_medianD": DO, "lu_u": MU,
         "lu_k": 20 + 60 / (1 + DO[None, :] / 1e-4) * _r.uniform(0.9, 1.1, _s) + MU[:, None],
         "lu_LWF": _r.uniform(0.5, 2.0, _s), "lu_termv": 3e3 * DO * _r.uniform(0.9, 1.1, len(DO))}
for _b, _f in (("35", 1.0), ("94", 0.8)):
    TABLE[f"lu_width_{_b}"] = np.cumsum(_r.uniform(0.01, 0.2, _s)[::-1], axis=0)[::-1] * (0.5 + DO[None, :] / 2e-3) * _f
    TABLE[f"lu_mie_ray_{_b}"] = _r.uniform(0.6, 1.3, _s)
    TABLE[f"lu_v_{_b}"] = np.maximum(1, np.round(16 * 4e3 * DO[None, :] * _r.uniform(0.8, 1.2, _s))) / 16

_dir = tempfile.mkdtemp(prefix="vh_mie_")
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(_dir, ignore_errors=True))
PATH = os.path.join(_dir, "mie_lu_tables.nc")
with netCDF4.Dataset(PATH, "w") as _nc:
    _nc.createDimension("u", len(MU))
    _nc.createDimension("medianD", len(DO))
    for _k, _x in TABLE.items():
        _d = ("u", "medianD") if _x.ndim == 2 else (("u",) if _k == "lu_u" else ("medianD",))
        _nc.createVariable(_k, "f8", _d)[:] = _x


class Redirected(netCDF4.Dataset):
    def __init__(self, filename, *args, **kwargs):
        if os.path.basename(str(filename)) == "mie_lu_tables.nc":
            filename = PATH
        super().__init__(filename, *args, **kwargs)


if netCDF4.Dataset.__name__ != "Redirected":
    netCDF4.Dataset = Redirected
