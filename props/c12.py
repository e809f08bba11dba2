"""C12 transform matrices follow the specification and invert exactly"""
import numpy as np
from hypothesis import strategies as st
from harness import vals, mats
from harness.core import Case, check

RULE = ('translation, center, rotation, scale, scaleOrientation each omitted or drawn (axis-aligned, unnormalised and random axes; zero, negative, '
        'whole-turn, tiny and large angles; negative and non-uniform scales of 1e-3..1e3; offsets up to 1e4), given as tuples, lists or arrays, with '
        'and without a parent matrix, through the four functions and Transform nodes; the oracle is a double precision product of the '
        'specification\'s factors with an elementwise error bound. Non-trivial: at least two parts given that are not their default.')
ASSUMPTIONS = ['rotation axes are not zero and have a length of 1e-3..1e3', 'error bound 3e-5 relative to the product of the factors\' magnitudes']

f = lambda x: float(np.float32(x))
coord = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 10.0, -3.0]), st.floats(-1e4, 1e4, width=32))
vec = st.tuples(coord, coord, coord)
axis = st.one_of(st.sampled_from([(0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (1.0, 1.0, 0.0), (1.0, 1.0, 1.0), (0.0, 0.0, 2.0), (-3.0, 0.0, 4.0), (100.0, 0.0, 1.0), (f(0.01), f(0.02), 0.0)]),
                 st.tuples(*[st.floats(-500, 500, width=32).map(lambda x: 0.0 if abs(x) < 1e-3 else x)] * 3).filter(lambda v: any(v)))
angle = st.one_of(st.sampled_from([0.0, f(np.pi), f(np.pi / 2), f(-np.pi / 2), f(2 * np.pi), 2 * np.pi, -2 * np.pi, 4 * np.pi, f(6.2831), 1.0, -1.0, 7.0, -10.0, f(1e-4), 3.5]),
                  st.floats(-20, 20, width=32))
rot = st.tuples(axis, angle).map(lambda x: x[0] + (x[1],))
one = st.one_of(st.sampled_from([1.0, 2.0, 0.5, -1.0, 3.0, 100.0, f(0.01)]), st.floats(f(1e-3), 1e3, width=32), st.floats(-1e3, f(-1e-3), width=32))
scl = st.one_of(st.tuples(one, one, one), one.map(lambda x: (x, x, x)), st.sampled_from([(1.0, 1.0, 1.0), (1.0, 1.0, 2.0), (2.0, 1.0, 1.0), (1.0, -1.0, 1.0)]))
NAMES = ['translation', 'center', 'rotation', 'scale', 'scaleOrientation']
DEFAULTS = [(0.0, 0.0, 0.0), (0.0, 0.0, 0.0), (0.0, 1.0, 0.0, 0.0), (1.0, 1.0, 1.0), (0.0, 1.0, 0.0, 0.0)]
maybe = lambda s: st.one_of(st.none(), s, s)
PARAMS = st.tuples(maybe(vec), maybe(vec), maybe(rot), maybe(scl), maybe(rot))
PARENT = st.one_of(st.none(), st.none(), st.tuples(vec, rot, st.floats(0.5, 2, width=32)))


def form(v, how):
    return [tuple, list, lambda x: np.array(x, 'f'), lambda x: np.array(x, 'd'), lambda x: [int(y) if y == int(y) else y for y in x]][how](v)


def functions(value, rec):
    from vrml.vrml97 import transformmatrix as tm
    params, parent, how, explicit = value
    kw, full = {}, []
    for name, v, d in zip(NAMES, params, DEFAULTS):
        full.append(d if v is None else v)
        if v is not None:
            kw[name] = form(v, how)
        elif explicit == 1:
            kw[name] = None
        elif explicit == 2:
            kw[name] = d
    rec.nt(sum(v is not None and v != d for v, d in zip(params, DEFAULTS)) >= 2)
    for name in kw:
        rec.label(name, kw[name] is not None)
    # what single precision arrays hold
    if how == 2:
        full = [tuple(f(x) for x in v) for v in full]
    fwd, inv = mats.factors(*full), mats.ifactors(*full)
    P = []
    if parent is not None:
        m = mats.product(mats.scale((parent[2],) * 3), mats.rotation(parent[1]), mats.translation(parent[0]))
        kw['parentMatrix'] = np.array(m, 'f' if how % 2 else 'd')
        P = [np.asarray(kw['parentMatrix'], 'd')]
        rec.label('parent')

    def ok(what, got, ms):
        p = mats.close(got, ms)
        check(p is None, '%s(%r) %s', what, kw, p)
    ok('transformMatrix', tm.transformMatrix(**kw), fwd + P)
    ok('itransformMatrix', tm.itransformMatrix(**kw), inv + P)
    a, b = tm.transformMatrices(**kw)
    ok('transformMatrices[0]', a, fwd + P)
    ok('transformMatrices[1]', b, inv + P)
    kw.pop('parentMatrix', None)
    a, b = tm.localMatrices(**kw)
    ok('localMatrices[0]', a, fwd)
    ok('localMatrices[1]', b, inv)
    a = np.identity(4) if a is None else np.asarray(a, 'd')
    b = np.identity(4) if b is None else np.asarray(b, 'd')
    err = np.abs(a.dot(b) - np.identity(4))
    check(np.all(err <= mats.bound(fwd + inv)), 'forward times inverse is\n%s', a.dot(b))
    t, c = full[:2]
    ckw = {k: v for k, v in kw.items() if k in ('translation', 'center')}
    if P:
        ckw['parentMatrix'] = np.array(P[0])
    got = np.asarray(tm.center(**ckw), 'd')
    want = np.array([t[0] + c[0], t[1] + c[1], t[2] + c[2], 1.0]).dot(P[0] if P else np.identity(4))
    lim = (np.abs(t) + np.abs(c)).tolist() + [1.0]
    check(np.all(np.abs(got - want) <= np.array(lim).dot(np.abs(P[0]) if P else np.identity(4)) * 1e-5), 'center(%r) is %s, expected %s', ckw, got, want)


def node(value, rec):
    """Transform.localMatrices with all combinations of parts"""
    from vrml.vrml97 import basenodes
    params, order = value
    n = basenodes.Transform()
    full = []
    for name, v, d in zip(NAMES, params, DEFAULTS):
        if v is not None:
            setattr(n, name, v)
        full.append(tuple(float(x) for x in getattr(n, name)) if order % 2 else (d if v is None else tuple(f(x) for x in v)))
    full = [v if any(v[:3]) or len(v) == 3 else d for v, d in zip(full, DEFAULTS)]
    rec.nt(sum(v is not None and v != d for v, d in zip(params, DEFAULTS)) >= 2)
    combos = [(t, s, r) for t in (True, False) for s in (True, False) for r in (True, False)]
    k = order % 8
    for t, s, r in combos[k:] + combos[:k]:
        p = list(full)
        if not t:
            p[0] = DEFAULTS[0]
        if not s:
            p[3], p[4] = DEFAULTS[3], DEFAULTS[4]
        if not r:
            p[2] = DEFAULTS[2]
        for again in (0, 1):
            got = n.localMatrices(translate=t, scale=s, rotate=r).data
            for g, ms in zip(got, (mats.factors(*p), mats.ifactors(*p))):
                m = mats.close(g, ms)
                check(m is None, 'localMatrices(%r,%r,%r) of %r %s', t, s, r, full, m)


CASES = [
    Case('functions', st.tuples(PARAMS, PARENT, st.integers(0, 4), st.integers(0, 2)), functions, 5000),
    Case('node', st.tuples(PARAMS, st.integers(0, 15)), node, 1200),
]
