"""Stand-in for numba: the repository only imports `jit`."""


def jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


njit = jit
