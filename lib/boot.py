"""Makes the code in /repo importable in this sandbox, deterministically.

/repo pins numpy 1.21.1, numba and gmpy2, none of which exist for the interpreter here.  This module
  * puts /repo first on sys.path, shims for numba/gmpy2 behind it, and the project venv (protobuf,
    pycryptodomex) last;
  * replaces `float(x)`/`int(x)` *calls* in modules loaded from /repo by wrappers that accept
    one-element arrays, as numpy 1.21 did (numpy 2.5 raises TypeError);
  * makes np.array fall back to an object array for ragged input, as numpy 1.21 did;
  * never writes byte code, and never reads byte code of /repo.
The source text of /repo is otherwise executed as it stands.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
HERE = os.path.dirname(os.path.abspath(__file__))
SHIMS = os.path.join(HERE, "shims")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"

_done = False


class _Casts(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("float", "int"):
            node.func = ast.copy_location(ast.Name(id="__compat_%s__" % node.func.id, ctx=ast.Load()), node.func)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(_Casts().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec if spec is not None and spec.submodule_search_locations else None
        if os.path.realpath(spec.origin).startswith(REPO + os.sep):
            spec.loader = _Loader(fullname, spec.origin)
            return spec
        return None


def install():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    for p in (SHIMS, REPO):
        while p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, SHIMS)
    sys.path.insert(0, REPO)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    os.environ.setdefault("PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION", "python")

    import numpy as np
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")

    def _cast(kind):
        def cast(*a, **k):
            if len(a) == 1 and isinstance(a[0], np.ndarray) and a[0].ndim > 0:
                if a[0].size != 1:
                    raise TypeError("only size-1 arrays can be converted to Python scalars")
                return kind(a[0].reshape(())[()])
            return kind(*a, **k)
        return cast

    builtins.__compat_float__ = _cast(float)
    builtins.__compat_int__ = _cast(int)

    real_array = np.array

    def array(obj, *a, **k):
        try:
            return real_array(obj, *a, **k)
        except ValueError as e:
            if "inhomogeneous" not in str(e) or a or "dtype" in k:
                raise
            # numpy 1.21: ragged nested sequences become an object array
            n = len(obj)
            out = np.empty(n, dtype=object)
            for i in range(n):
                out[i] = obj[i]
            return out

    array.__doc__ = real_array.__doc__
    np.array = array

    sys.meta_path.insert(0, _Finder())


def in_repo(path):
    try:
        return os.path.realpath(path).startswith(REPO + os.sep)
    except Exception:
        return False
