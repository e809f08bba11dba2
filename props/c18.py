"""C18 projection matrices map the view volume onto the clip cube"""
import math
import numpy as np
from hypothesis import strategies as st
from harness.vals import f32
from harness.core import Case, check

RULE = ('random valid parameters (field of view 0.001..3.14, aspect 0.02..50, near 1e-3..1e3, far/near 1.01..1e6; six bounds of any order and size), as int, float or numpy numbers, positional or '
        'named: entries against an independent double-precision definition, corners of the frustum or box against corners of the cube, points inside against the cube, the inverse '
        'against the numerically inverted matrix. Non-trivial: field of view, aspect and near are not those of the other tests\' examples, or the bounds are not symmetric.')
ASSUMPTIONS = ['single-precision results: relative tolerance 1e-5 of each entry', 'perspective in row-vector, ortho in column-vector (glOrtho) convention, as the code documents']

LOG = lambda a, b: st.floats(math.log(a), math.log(b)).map(lambda x: f32(math.exp(x)))
FOV = st.one_of(st.floats(0.001, 3.14).map(f32), st.sampled_from([math.pi / 2, math.pi / 3, 0.785398, 1, 2, 3]).map(f32), LOG(0.001, 1))
ASPECT = st.one_of(LOG(0.02, 50), st.sampled_from([1.0, 2.0, 0.5, f32(4 / 3)]))
NEAR = st.one_of(LOG(1e-3, 1e3), st.sampled_from([1.0, 0.5, 10.0]))
RATIO = st.one_of(LOG(1.01, 1e6), LOG(1.01, 10))
BOUND = st.one_of(st.integers(-100, 100).map(float), st.floats(-1000, 1000, width=32), LOG(1e-3, 1e5), LOG(1e-3, 1e5).map(lambda x: -x))


def close(m, ref, rel=1e-5):
    m = np.asarray(m, 'd')
    return m.shape == (4, 4) and np.all(np.abs(m - ref) <= rel * np.abs(ref) + 1e-37)


def forms(xs, how):
    out = []
    for i, x in enumerate(xs):
        k = (how >> i) & 3
        if k == 1 and x == int(x) and abs(x) < 2 ** 24:
            x = int(x)
        elif k == 2:
            x = np.float32(x)
        elif k == 3:
            x = np.float64(x)
        out.append(x)
    return out


def perspective(value, rec):
    from vrml.vrml97 import transformmatrix as tm
    fov, aspect, near, ratio, how, named, inside = value
    far = f32(near * ratio)
    if not far > near * 1.005:
        return
    rec.nt(fov not in (1.0, 2.0, 3.0) and aspect != 1.0 and near != 1.0)
    args = forms((fov, aspect, near, far), how)
    if named:
        call = lambda **kw: tm.perspectiveMatrix(fovy=args[0], aspect=args[1], zNear=args[2], zFar=args[3], **kw)
    else:
        call = lambda **kw: tm.perspectiveMatrix(*args, **kw)
    m = np.asarray(call())
    # the frustum's half height and width at distance 1
    h = math.tan(fov / 2.0)
    w = h * aspect
    a = -(far + near) / (far - near)
    b = -2.0 * far * near / (far - near)
    ref = np.array([[1 / w, 0, 0, 0], [0, 1 / h, 0, 0], [0, 0, a, -1], [0, 0, b, 0]])
    check(close(m, ref), 'matrix for %r is\n%r, expected\n%r', (fov, aspect, near, far), m, ref)
    check(call(inverse=False).tolist() == m.tolist(), 'inverse=False differs')
    tol = 2e-5 * (1 + abs(a))
    m = m.astype('d')
    for z, zn in ((near, -1), (far, 1)):
        for sx in (-1, 1):
            for sy in (-1, 1):
                p = np.array([sx * w * z, sy * h * z, -z, 1.0]).dot(m)
                check(p[3] > 0, 'corner behind the viewer for %r', (fov, aspect, near, far))
                q = p[:3] / p[3]
                check(abs(q[0] - sx) < 1e-4 and abs(q[1] - sy) < 1e-4 and abs(q[2] - zn) < tol, 'corner %r goes to %r for %r', (sx, sy, zn), q, (fov, aspect, near, far))
    for x, y, d in inside:
        z = near + (far - near) * d
        p = np.array([x * w * z, y * h * z, -z, 1.0]).dot(m)
        q = p[:3] / p[3]
        check(np.all(np.abs(q[:2]) <= 1 + 1e-4) and abs(q[2]) <= 1 + tol, 'a point inside goes to %r for %r', q, (fov, aspect, near, far))
    inv = np.asarray(call(inverse=True))
    # (independent inverse: exact for this pattern of entries)
    rinv = np.array([[w, 0, 0, 0], [0, h, 0, 0], [0, 0, 0, 1 / b], [0, 0, -1, a / b]])
    check(close(inv, rinv), 'inverse for %r is\n%r, expected\n%r', (fov, aspect, near, far), inv, rinv)
    prod = m.dot(inv.astype('d'))
    scale = np.abs(m).dot(np.abs(inv.astype('d')))
    check(np.all(np.abs(prod - np.identity(4)) <= 2e-5 * np.maximum(scale, 1)), 'matrix times inverse is\n%r for %r', prod, (fov, aspect, near, far))


DEFAULTS = [-1.0, 1.0, -1.0, 1.0, -1.0, 1.0]
NAMES = ['left', 'right', 'bottom', 'top', 'zNear', 'zFar']


def ortho(value, rec):
    from vrml.vrml97 import transformmatrix as tm
    bounds, how, given, named, inside = value
    b = list(bounds)
    if not named:
        # only the first few
        b = [x if i < given % 7 else DEFAULTS[i] for i, x in enumerate(b)]
    else:
        b = [x if (given >> i) & 1 else DEFAULTS[i] for i, x in enumerate(b)]
    for lo, hi in zip(b[::2], b[1::2]):
        # (as far apart as single precision can tell)
        if abs(hi - lo) < 1e-4 * max(abs(hi), abs(lo)) or abs(hi - lo) < 1e-4:
            return
    args = forms(b, how)
    if named:
        m = tm.orthoMatrix(**{NAMES[i]: args[i] for i in range(6) if (given >> i) & 1})
    else:
        m = tm.orthoMatrix(*args[:given % 7])
    l, r, bo, t, n, f = b
    rec.nt(any(lo != -hi for lo, hi in zip(b[::2], b[1::2])))
    ref = np.array([[2 / (r - l), 0, 0, -(r + l) / (r - l)], [0, 2 / (t - bo), 0, -(t + bo) / (t - bo)], [0, 0, -2 / (f - n), -(f + n) / (f - n)], [0, 0, 0, 1]])
    check(close(m, ref), 'matrix for %r is\n%r, expected\n%r', b, m, ref)
    m = np.asarray(m, 'd')
    for x, sx in ((l, -1), (r, 1)):
        for y, sy in ((bo, -1), (t, 1)):
            for z, sz in ((-n, -1), (-f, 1)):
                p = m.dot([x, y, z, 1.0])
                tol = 1e-5 * (1 + np.abs(m).dot(np.abs([x, y, z, 1.0])))
                check(np.all(np.abs(p - [sx, sy, sz, 1]) <= tol), 'corner %r goes to %r for %r', (x, y, z), p, b)


UNIT = st.floats(-1, 1)
CASES = [
    Case('perspective', st.tuples(FOV, ASPECT, NEAR, RATIO, st.integers(0, 255), st.booleans(), st.lists(st.tuples(UNIT, UNIT, st.floats(0, 1)), max_size=4)), perspective, 8000),
    Case('ortho', st.tuples(st.tuples(*[BOUND] * 6), st.integers(0, 4095), st.one_of(st.just(63), st.just(6), st.integers(0, 63)), st.booleans(), st.just(())), ortho, 8000),
]
