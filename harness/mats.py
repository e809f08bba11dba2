"""Reference matrices (double precision, row vectors), from the VRML97 specification"""
import numpy as np


class Rotation(np.ndarray):
    """Marks rotation matrices (their errors are relative to 1, not to the entry)"""


def translation(v):
    m = np.identity(4)
    m[3, :3] = v
    return m


def scale(v):
    return np.diag([v[0], v[1], v[2], 1.0])


def rotation(r):
    axis = np.array(r[:3], 'd')
    axis = axis / np.linalg.norm(axis)
    a = float(r[3])
    x, y, z = axis
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    R = np.identity(3) + np.sin(a) * K + (1 - np.cos(a)) * K.dot(K)  # column vectors (Rodrigues)
    m = np.identity(4)
    m[:3, :3] = R.T
    return m.view(Rotation)


def product(*ms):
    """Product in the order of application to row vectors"""
    out = np.identity(4)
    for m in ms:
        out = out.dot(np.asarray(m))
    return out


def factors(t, c, r, s, so):
    """The factors of p' = p * (...) : -C, -SR, S, SR, R, C, T"""
    neg = lambda v: [-x for x in v]
    return [translation(neg(c)), rotation(list(so[:3]) + [-so[3]]), scale(s), rotation(so), rotation(r), translation(c), translation(t)]


def ifactors(t, c, r, s, so):
    neg = lambda v: [-x for x in v]
    return [translation(neg(t)), translation(neg(c)), rotation(list(r[:3]) + [-r[3]]), rotation(list(so[:3]) + [-so[3]]),
            scale([1.0 / x for x in s]), rotation(so), translation(c)]


def bound(ms, tol=3e-5):
    """Elementwise error allowed for the product of factors ms in single precision

    Each factor may be off by tol relative to its entries, rotations relative to 1.
    """
    def spread(m):
        a = np.abs(np.asarray(m))
        if isinstance(m, Rotation):
            a[:3, :3] = np.maximum(a[:3, :3], 1.0)
        return a
    out = np.identity(4)
    for m in ms:
        out = out.dot(spread(m))
    return out * tol + 1e-30


def close(got, ms, tol=3e-5):
    """None if got is the product of ms within single precision, else a message"""
    if got is None:
        got = np.identity(4)
    got = np.asarray(got, 'd')
    want = product(*ms)
    if got.shape != (4, 4):
        return 'has shape %s' % (got.shape,)
    if not np.all(np.abs(got - want) <= bound(ms, tol)):
        return 'is\n%s\nexpected\n%s' % (got, want)
    return None
