"""C19 frustum culling never discards a volume that is partly visible"""
import math
import numpy as np
from hypothesis import strategies as st
from harness.vals import f32
from harness.core import Case, check

RULE = ('random plane sets (0 to 7) and point sets (0 to 12 points of 3 or 4 columns) with distances, as contiguous, strided, reversed or Fortran-ordered arrays; small-integer values, for which '
        'single-precision arithmetic is exact and the decision sharp, box corners against frustum planes, up to 80 planes and 1000 points of which a few decide (many), and arbitrary floats, where a distance within rounding of the limit makes the case '
        'undecided. Non-trivial: culled by a plane other than the first, or not culled although some plane has a point behind it. malformed: arrays of other shapes, dimensions, element types, '
        'and other objects are refused.')
ASSUMPTIONS = ['with no points every plane culls', 'finite values', 'a negative distance moves the limit in front of the plane']
CONFIGS = ['accel1']


def arrange(a, how):
    """The same array in another memory layout"""
    how = how % 5
    if how == 1:
        return np.asfortranarray(a)
    if how == 2:
        b = np.zeros((a.shape[0] * 2, a.shape[1]), 'f')
        b[::2] = a
        return b[::2]
    if how == 3:
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == 4:
        b = np.full((a.shape[0], a.shape[1] + 3), 9, 'f')
        b[:, 1:1 + a.shape[1]] = a
        return b[:, 1:1 + a.shape[1]]
    return a


def decide(planes, points, distance, exact, rec, how=0, named=0):
    from vrml_accelerate import frustcullaccel
    P = arrange(np.array(planes, 'f').reshape(len(planes), 4), how)
    cols = 4 if points and len(points[0]) == 4 else 3
    X = arrange(np.array(points, 'f').reshape(len(points), cols), how // 5)
    before = (P.tobytes(), X.tobytes())
    if named == 0:
        got = frustcullaccel.planeCull(P, X, distance)
    elif named == 1:
        got = frustcullaccel.planeCull(planes=P, points=X, minDistance=distance)
    else:
        distance = 0.0
        got = frustcullaccel.planeCull(P, X)
    check((P.tobytes(), X.tobytes()) == before, 'planeCull changed its arguments')
    check(isinstance(got, tuple) and len(got) == 2, 'result %r', got)
    want = None     # index of the culling plane
    sure = True
    behind = False
    for i, p in enumerate(planes):
        inside, unsure = False, False
        for x in points:
            d = p[0] * x[0] + p[1] * x[1] + p[2] * x[2] + p[3]
            slack = 0 if exact else 1e-5 * (abs(p[0] * x[0]) + abs(p[1] * x[1]) + abs(p[2] * x[2]) + abs(p[3]) + abs(distance)) + 1e-30
            if abs(d + distance) <= slack and not (exact and d >= -distance):
                unsure = not exact or unsure
            if d + distance > slack or (exact and d >= -distance):
                inside = True
            else:
                behind = True
        if not inside:
            if unsure:
                sure = False
            want = i
            break
    rec.nt(bool(want) or (want is None and behind))
    rec.label('culled by plane %d' % want if want is not None else 'not culled')
    if not sure:
        rec.label('undecided')
        # some point may or may not be behind: only what is certain is checked
        if got[0]:
            r = np.asarray(got[1], 'd')
            for i, p in enumerate(planes):
                if i >= want and np.array_equal(r, np.array(p, 'd')):
                    break
            else:
                check(False, 'culled by %r, planes %r', r, planes)
        return
    if want is None:
        check(not got[0] and got[1] is None, 'culled by %r: planes %r points %r distance %r', got, planes, points, distance)
    else:
        check(bool(got[0]), 'not culled, though plane %d has all points behind: planes %r points %r distance %r', want, planes, points, distance)
        check(np.array_equal(np.asarray(got[1]).reshape(-1), np.array(planes[want], 'f')), 'culled by %r, not plane %d: planes %r points %r distance %r', got[1], want, planes, points, distance)


def sharp(value, rec):
    planes, points, distance, how, named = value
    decide(planes, points, distance, True, rec, how, named)


def rough(value, rec):
    planes, points, distance, how, named = value
    decide(planes, points, distance, False, rec, how, named)


def box(value, rec):
    """Corners of a box against the six planes of a frustum-like volume; which of them matters varies"""
    order, center, size, distance, how = value
    planes = [[1, 0, 0, 8], [-1, 0, 0, 8], [0, 1, 0, 8], [0, -1, 0, 8], [0, 0, -1, -1], [0, 0, 1, 16], [1, 0, -1, 2], [0, 1, -2, 4]]
    planes = [[float(x) for x in planes[i]] for i in order]
    points = [[float(c + s * k) for c, s, k in zip(center, size, corner)] + ([1.0] if how % 2 else []) for corner in
              [(x, y, z) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]]
    decide(planes, points, distance, True, rec, how // 2, 0)


def malformed(value, rec):
    from vrml_accelerate import frustcullaccel
    which, kind, n = value
    planes, points = np.ones((2, 4), 'f'), -np.ones((3, 3), 'f') * 9
    good = frustcullaccel.planeCull(planes, points)
    check(good[0] and good[1].tolist() == [1, 1, 1, 1], 'good arrays give %r', good)
    a = [planes, points][which]
    cols = 4 if which == 0 else 3
    bad = {'columns': lambda: np.ones((2, [x for x in range(0, 9) if x != 4 and (which == 0 or x != 3)][n % (8 - which)]), 'f'),
           'double': lambda: a.astype('d'), 'int': lambda: a.astype('i'), 'one': lambda: np.ones((cols,), 'f'), 'three': lambda: np.ones((1, 2, cols), 'f'),
           'swapped': lambda: a.astype('>f4'), 'list': lambda: a.tolist(), 'None': lambda: None, 'scalar': lambda: 1.0, 'text': lambda: 'abcd',
           'half': lambda: a.astype('f2'), 'complex': lambda: a.astype('F'), 'object': lambda: a.astype('O'), 'zero': lambda: np.zeros((), 'f'), 'bytes': lambda: b'\0' * 16}[kind]()
    rec.nt()
    rec.label(kind)
    try:
        got = frustcullaccel.planeCull(bad, points) if which == 0 else frustcullaccel.planeCull(planes, bad)
    except (TypeError, ValueError):
        return
    check(False, 'accepted %r as %s: %r', bad, ['planes', 'points'][which], got)


def many(value, rec):
    """Many planes or points; a few of them, anywhere, decide"""
    nplanes, npoints, base, front, distance, how = value
    nplanes, npoints = nplanes or 1, npoints or 1
    cols = 3 + how % 2
    planes = [[float(x) for x in base]] * nplanes
    # behind all of the planes (their sum is below -20) unless changed below
    points = [[-float(np.sign(base[0])) * 40.0, 0.0, 0.0, 1.0][:cols]] * npoints
    for k, (where, x) in enumerate(front):
        p = [float(np.sign(base[0])) * 40.0, float(x), 0.0, 1.0][:cols]
        points[where % npoints] = p
        # the planes before this one let the point pass
        if k % 2:
            planes = [[float(-v) for v in base] if i == where % nplanes else q for i, q in enumerate(planes)]
    rec.label('many points', npoints > 64)
    rec.label('many planes', nplanes > 16)
    decide(planes, points, distance, True, rec, how // 2, 0)


INT = st.integers(-6, 6).map(float)
HALF = st.integers(-12, 12).map(lambda x: x / 2.0)
ANY = st.one_of(st.floats(-100, 100, width=32), st.integers(-5, 5).map(float), st.floats(-1, 1, width=32))


def sets(elem):
    return st.one_of(*[st.tuples(st.lists(st.lists(elem, min_size=4, max_size=4), max_size=7), st.lists(st.lists(elem, min_size=c, max_size=c), max_size=12)) for c in (3, 4)])


CASES = [
    Case('sharp', st.tuples(sets(INT), st.one_of(st.just(0.0), st.integers(-20, 60).map(lambda x: x / 2.0)), st.integers(0, 24), st.sampled_from([0, 0, 1, 2])).map(lambda x: (x[0][0], x[0][1]) + x[1:]), sharp, 12000),
    Case('rough', st.tuples(sets(ANY), st.floats(-10, 50).map(f32), st.integers(0, 24), st.sampled_from([0, 0, 1, 2])).map(lambda x: (x[0][0], x[0][1]) + x[1:]), rough, 6000),
    Case('box', st.tuples(st.lists(st.integers(0, 7), min_size=1, max_size=8), st.tuples(*[st.integers(-20, 20)] * 3), st.tuples(*[st.integers(0, 6)] * 3), st.integers(0, 12).map(lambda x: x / 2.0), st.integers(0, 49)), box, 8000),
    Case('many', st.tuples(st.one_of(st.integers(1, 3), st.integers(1, 80)), st.one_of(st.integers(1, 400), st.sampled_from([8, 9, 16, 17, 64, 65, 128, 129, 256, 257, 1000])),
                           st.tuples(st.sampled_from([1, 2, -1, -2]), st.integers(-1, 1), st.integers(-3, 3), st.integers(-9, 9)),
                           st.lists(st.tuples(st.one_of(st.integers(0, 2), st.integers(-3, -1), st.integers(0, 1000)), st.integers(-2, 2)), max_size=2),
                           st.integers(0, 8).map(lambda x: x / 2.0), st.integers(0, 49)), many, 3000),
    Case('malformed', st.tuples(st.integers(0, 1), st.sampled_from(['columns', 'columns', 'double', 'int', 'one', 'three', 'swapped', 'list', 'None', 'scalar', 'text', 'half', 'complex', 'object', 'zero', 'bytes']), st.integers(0, 20)), malformed, 400),
]
