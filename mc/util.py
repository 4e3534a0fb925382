import itertools
import os

import numpy as np


def totuple(x):
    if isinstance(x, list):
        return tuple(totuple(v) for v in x)
    return x


def fmt(x):
    return np.array2string(np.asarray(x), precision=6, threshold=60)


def cmp(got, want):
    return lambda: f"got\n{fmt(got)}\nexpected\n{fmt(want)}"


def fresh():
    import rigid_body_motion as rbm

    rbm.clear_registry()
    return rbm


def scratch():
    d = os.environ.get("RBM_SCRATCH")
    if not d:
        import tempfile

        d = tempfile.mkdtemp(prefix="rbmverif.")
        os.environ["RBM_SCRATCH"] = d
    return d


def parent_vectors(n):
    """All ordered rooted trees on n labelled frames with parent[i] < i."""
    return list(itertools.product(*[range(i) for i in range(1, n)]))


# integer data types: largest magnitude used, so that squares or sums of
# products of the values exceed the range of the type
INTS = {"int16": 3e4, "uint16": 6e4, "int32": 2e9, "int64": 4e9, "uint8": 250, "int8": 120}


def as_int(x, dtype):
    """Scale values to the range of an integer type (rounded, as floats)."""
    import numpy as np

    x = np.asarray(x, float)
    if x.size == 0:
        return x
    if dtype.startswith("u"):
        x = x - x.min()
    return np.round(x * (INTS[dtype] / max(np.abs(x).max(), 1e-9)))


def _strided(a):
    b = np.zeros(tuple(2 * n + 1 for n in a.shape), a.dtype)
    v = b[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
    v[...] = a
    return v


def _reversed(a):
    r = (slice(None, None, -1),) * a.ndim
    return a[r].copy()[r]


def _readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


# the same array in different memory layouts
STORAGE = {
    "C": lambda a: a,
    "fortran": lambda a: np.asfortranarray(a),
    "strided": _strided,
    "reversed": _reversed,
    "read only": _readonly,
    "big endian": lambda a: a.astype(a.dtype.newbyteorder(">")),
}
