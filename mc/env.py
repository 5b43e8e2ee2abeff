"""Loads exoplanet from /repo's working tree, with no C compilation and no stale bytecode.

Importing this module must come before any import of pytensor, pymc or exoplanet."""
import importlib.machinery
import importlib.util
import os
import pathlib
import sys
import tempfile
import types
import warnings

REPO = pathlib.Path(os.environ.get("EXOPLANET_REPO", "/repo"))
SRC = REPO / "src"
VERIF = pathlib.Path(__file__).resolve().parent.parent

_scratch = tempfile.TemporaryDirectory(prefix="mc-pytensor-")
os.environ["PYTENSOR_FLAGS"] = f"cxx=,mode=FAST_COMPILE,traceback__limit=1,compiledir={_scratch.name}"
warnings.simplefilter("ignore")


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the source file: a check must see the tree as it is now."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != "exoplanet" and not fullname.startswith("exoplanet."):
            return None
        base = SRC.joinpath(*fullname.split("."))
        if base.is_dir() and (base / "__init__.py").exists():
            file, locs = base / "__init__.py", [str(base)]
        else:
            file, locs = base.with_suffix(".py"), None
        if not file.exists():
            return None
        return importlib.util.spec_from_file_location(
            fullname, str(file), loader=_NoCacheLoader(fullname, str(file)),
            submodule_search_locations=locs)


sys.meta_path.insert(0, _Finder)
if not (SRC / "exoplanet" / "exoplanet_version.py").exists():
    _v = types.ModuleType("exoplanet.exoplanet_version")
    _v.__version__ = _v.version = "0.0.0"
    sys.modules["exoplanet.exoplanet_version"] = _v

import logging  # noqa: E402

logging.getLogger("pytensor").setLevel(logging.ERROR)
logging.getLogger("pymc").setLevel(logging.CRITICAL)

import numpy as np  # noqa: E402
import pytensor  # noqa: E402
import pytensor.tensor as pt  # noqa: E402
from pytensor.link.c.op import ExternalCOp  # noqa: E402

_c_code = {}
_load_c_code = ExternalCOp.load_c_code


def _load_once(self, files):
    """pytensor reads the C source of an operation (unused here) each time one is made: once is enough."""
    key = type(self), tuple(map(str, files))
    if key not in _c_code:
        _load_c_code(self, files)
        _c_code[key] = list(self.func_codes), dict(self.code_sections)
    self.func_codes, self.code_sections = map(lambda x: x.copy(), _c_code[key])


ExternalCOp.load_c_code = _load_once
from pytensor.compile.mode import Mode  # noqa: E402

MODE = Mode(linker="vm", optimizer=None)
pytensor.config.mode = "FAST_COMPILE"


def ev(outs, inputs=(), values=()):
    """Evaluates a tensor, or a (nested) list/tuple of tensors and arrays, with the real graph."""
    flat, spec = [], []

    def walk(x):
        if isinstance(x, (list, tuple)):
            return [walk(y) for y in x]
        flat.append(pt.as_tensor_variable(x))
        return len(flat) - 1

    spec = walk(outs)
    f = pytensor.function(list(inputs), flat, mode=MODE, on_unused_input="ignore")
    res = f(*values)

    def back(s):
        return [back(y) for y in s] if isinstance(s, list) else np.asarray(res[s])

    with np.errstate(all="ignore"):
        return back(spec)


def fn(inputs, outs):
    f = pytensor.function(list(inputs), outs, mode=MODE, on_unused_input="ignore")

    def call(*a):
        with np.errstate(all="ignore"):
            return f(*a)
    return call


np.seterr(all="ignore")
import exoplanet as xo  # noqa: E402

assert pathlib.Path(xo.__file__).resolve().is_relative_to(SRC.resolve()), xo.__file__


def _fresh(outputs, n, shape, dtype=np.float64):
    """exoplanet_core's own version gives reused scalar outputs an extra axis when its compiled code is not used."""
    outputs[n][0] = np.empty(shape, dtype=dtype)
    return outputs[n][0]


for _m in ("exoplanet_core.pymc.ops", "exoplanet_core.pytensor.ops"):
    if hasattr(sys.modules.get(_m), "resize_or_set"):
        sys.modules[_m].resize_or_set = _fresh
