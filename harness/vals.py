"""Abstract values of the VRML97 field types, and how to generate and compare them

An abstract value is plain data: bool, int, float, str, a tuple of floats (vectors,
colours, rotations), or a list of those.  Floats of single-precision types are
generated as exactly representable single-precision numbers.
"""
import math
import numpy as np
from hypothesis import strategies as st

# type -> (kind, element count, element dtype)   kind: scalar / vec / list / veclist
TYPES = {
    'SFBool': ('scalar', 1, 'bool'),
    'SFInt32': ('scalar', 1, 'i'),
    'SFFloat': ('scalar', 1, 'd'),
    'SFTime': ('scalar', 1, 'd'),
    'SFString': ('scalar', 1, 'str'),
    'SFColor': ('vec', 3, 'color'),
    'SFVec2f': ('vec', 2, 'f'),
    'SFVec3f': ('vec', 3, 'f'),
    'SFRotation': ('vec', 4, 'f'),
    'SFImage': ('list', 1, 'I'),
    'MFInt32': ('list', 1, 'i'),
    'MFFloat': ('list', 1, 'd'),
    'MFTime': ('list', 1, 'd'),
    'MFString': ('list', 1, 'str'),
    'MFColor': ('veclist', 3, 'color'),
    'MFVec2f': ('veclist', 2, 'f'),
    'MFVec3f': ('veclist', 3, 'f'),
    'MFRotation': ('veclist', 4, 'd'),
}
VALUE_TYPES = sorted(TYPES)
# array element type and shape of the canonical stored form (None: a Python object)
CANON = {
    'SFColor': ('f', (3,)), 'SFVec2f': ('f', (2,)), 'SFVec3f': ('f', (3,)), 'SFRotation': ('f', (4,)),
    'SFImage': ('I', (-1,)), 'MFInt32': ('i', (-1,)), 'MFFloat': ('d', (-1,)), 'MFTime': ('d', (-1,)),
    'MFColor': ('f', (-1, 3)), 'MFVec2f': ('f', (-1, 2)), 'MFVec3f': ('f', (-1, 3)), 'MFRotation': ('d', (-1, 4)),
}
PYTYPE = {'SFBool': int, 'SFInt32': int, 'SFFloat': float, 'SFTime': float, 'SFString': str, 'MFString': list}


def f32(x):
    return float(np.float32(x))


nice = st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0, -0.25, 3.0, 10.0, 0.1, 100.0, -7.5, 1e-3, 1e6])
# single precision (0.1 etc. rounded)
FLOAT32 = st.one_of(nice.map(f32), st.integers(-1000, 1000).map(float), st.floats(width=32, allow_nan=False, allow_infinity=False))
FLOAT64 = st.one_of(nice, st.integers(-1000, 1000).map(float), st.floats(allow_nan=False, allow_infinity=False))
UNIT32 = st.one_of(st.sampled_from([0.0, 1.0, 0.5, f32(0.2), f32(0.8), f32(1 / 3)]), st.floats(0, 1, width=32))
INT32 = st.one_of(st.integers(-9, 9), st.sampled_from([2 ** 31 - 1, -2 ** 31, 255, -1, 65536, 100000]), st.integers(-2 ** 31, 2 ** 31 - 1))
UINT32 = st.one_of(st.integers(0, 9), st.sampled_from([2 ** 32 - 1, 255, 0xFF00FF, 2 ** 31]), st.integers(0, 2 ** 32 - 1))
_CH = st.one_of(st.sampled_from(list('ab "\\\n\t#\',.{}[]0-xeIU\r')), st.sampled_from(list('\u00e9\u00df\u4e2d\u20ac\U0001f600\u00a0\u2028\x85')),
                st.characters(exclude_categories=('Cs',)))
STR = st.one_of(st.sampled_from(['', ' ', 'a b', '"', '\\', '\\"', '\\\\', '"\\', 'x\ny', '#x', '" ]', '[ ', 'NULL', 'TRUE', '{', '}', "'", 'USE a', 'caf\u00e9']),
                st.text(_CH, max_size=8), st.text(st.sampled_from('ab\\"\n ,'), min_size=1, max_size=80))
ELEM = {'bool': st.booleans(), 'i': INT32, 'I': UINT32, 'f': FLOAT32, 'd': FLOAT64, 'str': STR, 'color': UNIT32}
LENGTHS = st.sampled_from([5, 12, 24, 25, 26, 33, 34, 49, 50, 51, 66, 99, 100, 101, 130, 199, 200, 201, 250])


def _vary(elem, i, dt):
    """A cheap variation, so that long lists are not mere repetitions"""
    if dt == 'i':
        return elem if abs(elem) > 10 ** 9 else elem + i
    if dt == 'I':
        return (elem + i) % 2 ** 32
    if dt == 'f':
        return f32(elem + i) if abs(elem) < 1e5 else elem
    if dt == 'd':
        return elem + i if abs(elem) < 1e5 else elem
    if dt == 'color':
        return f32((elem + i / 256.0) % 1.0)
    if dt == 'str':
        return elem + 'abcdefgh'[i % 8]
    return elem


def _long(dt, count):
    base = st.lists(ELEM[dt], min_size=1, max_size=4)

    def build(args):
        b, n = args
        flat = [_vary(b[i % len(b)], i, dt) for i in range(n * count)]
        return flat if count == 1 else [tuple(flat[i:i + count]) for i in range(0, n * count, count)]
    return st.tuples(base, LENGTHS).map(build)


def value(t, long=True):
    kind, count, dt = TYPES[t]
    e = ELEM[dt]
    if kind == 'scalar':
        return e
    if kind == 'vec':
        return st.tuples(*[e] * count)
    item = e if kind == 'list' else st.tuples(*[e] * count)
    short = st.lists(item, max_size=4)
    if not long:
        return short
    return st.one_of(short, short, short, _long(dt, count))


VALUES = {t: value(t) for t in TYPES}
SHORT = {t: value(t, long=False) for t in TYPES}


def norm(t, v):
    """The exact abstract value of type t that storing v must give (v: an abstract value)"""
    kind, count, dt = TYPES[t]
    conv = {'bool': lambda x: 1 if x else 0, 'i': int, 'I': int, 'd': float, 'str': str, 'f': f32,
            'color': lambda x: f32(min(1.0, max(0.0, x)))}[dt]
    if kind == 'scalar':
        return conv(v)
    if kind == 'vec':
        return tuple(conv(x) for x in v)
    if kind == 'list':
        return [conv(x) for x in v]
    if kind == 'array':
        return [norm(t, x) if isinstance(x, (list, tuple)) else conv(x) for x in v]
    return [tuple(conv(x) for x in row) for row in v]


def plain(t, v):
    """A stored value (as read from a field) as an abstract value, without judging its form"""
    kind, count, dt = TYPES[t]
    if kind == 'scalar':
        return v
    if kind == 'array':
        return v.tolist()
    if isinstance(v, np.ndarray):
        if kind == 'vec':
            v = v.ravel()
        elif kind == 'veclist':
            v = v.reshape(len(v), count)
        v = v.tolist()
    if kind == 'vec':
        return tuple(v)
    if kind == 'list':
        return list(v)
    return [tuple(row) for row in v]


def same(a, b):
    """Equality of abstract values (numbers numerically, 0 == -0)"""
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def canonical_problem(t, v):
    """None if v is in t's canonical stored form, else what is wrong"""
    if t in PYTYPE:
        if type(v) is not PYTYPE[t]:
            return 'is a %s, not %s' % (type(v).__name__, PYTYPE[t].__name__)
        if t == 'SFBool' and v not in (0, 1):
            return 'is %r' % (v,)
        if t == 'MFString' and any(type(x) is not str for x in v):
            return 'holds something else than str: %r' % (v,)
        return None
    code, shape = CANON[t]
    if not isinstance(v, np.ndarray):
        return 'is a %s, not an array' % type(v).__name__
    if v.dtype != np.dtype(code):
        return 'has element type %s, not %s' % (v.dtype, np.dtype(code))
    if len(v.shape) != len(shape) or any(w not in (-1, s) for w, s in zip(shape, v.shape)):
        return 'has shape %s, not %s' % (v.shape, shape)
    if not v.flags.c_contiguous:
        return 'is not contiguous'
    return None


# The library's types beyond VRML97's.  Those of kind 'array' are of any shape (nested lists).
EXTENDED = {
    'SFUInt32': ('scalar', 1, 'I'), 'MFUInt32': ('list', 1, 'I'), 'MFFloat32': ('list', 1, 'f'),
    'SFVec4f': ('vec', 4, 'f'), 'SFVec2d': ('vec', 2, 'd'), 'SFVec3d': ('vec', 3, 'd'), 'SFVec4d': ('vec', 4, 'd'),
    'MFVec4f': ('veclist', 4, 'f'), 'MFVec2d': ('veclist', 2, 'd'), 'MFVec3d': ('veclist', 3, 'd'), 'MFVec4d': ('veclist', 4, 'd'),
    'SFMatrix3f': ('vec', 9, 'f'), 'SFMatrix4f': ('vec', 16, 'f'), 'SFMatrix3d': ('vec', 9, 'd'), 'SFMatrix4d': ('vec', 16, 'd'),
    'MFMatrix3f': ('veclist', 9, 'f'), 'MFMatrix4f': ('veclist', 16, 'f'), 'MFMatrix3d': ('veclist', 9, 'd'), 'MFMatrix4d': ('veclist', 16, 'd'),
    'SFArray': ('array', 1, 'd'), 'SFArray32': ('array', 1, 'f'),
}


def _array(dt):
    def build(a):
        shape, base = a
        n = 1
        for k in shape:
            n *= k
        v = [_vary(base[i % len(base)], i, dt) for i in range(n)]
        for k in reversed(shape[1:]):
            v = [v[i:i + k] for i in range(0, len(v), k)]
        return v
    shapes = st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=3), st.sampled_from([[0], [5], [400, 3], [1001], [30, 40], [1, 1], [2500], [2, 3, 2, 2]]))
    return st.tuples(shapes, st.lists(ELEM[dt], min_size=1, max_size=4)).map(build)


def extend():
    """Adds them to TYPES, VALUES and SHORT (for a process that works with them)"""
    TYPES.update(EXTENDED)
    for t, (kind, count, dt) in EXTENDED.items():
        VALUES[t] = _array(dt) if kind == 'array' else value(t)
        SHORT[t] = _array(dt) if kind == 'array' else value(t, long=False)


def extended_problem(t, v):
    """As canonical_problem, for the types of EXTENDED"""
    kind, count, dt = EXTENDED[t]
    if kind == 'scalar':
        return None if type(v) is int else 'is a %s, not int' % type(v).__name__
    if not isinstance(v, np.ndarray):
        return 'is a %s, not an array' % type(v).__name__
    if v.dtype != np.dtype(dt):
        return 'has element type %s, not %s' % (v.dtype, np.dtype(dt))
    if kind != 'array':
        d = {9: (3, 3), 16: (4, 4)}.get(count, (count,))
        shape = v.shape if kind == 'vec' else v.shape[1:] + (0,) if kind == 'list' else v.shape[1:]
        if shape != ((0,) if kind == 'list' else d):
            return 'has shape %s' % (v.shape,)
    return None if v.flags.c_contiguous else 'is not contiguous'
