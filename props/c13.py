"""C13 a node path's matrix is always that of the current field values"""
import gc
import numpy as np
from hypothesis import strategies as st
from harness import mats
from harness.core import Case, check
from props import c12

RULE = ('histories of up to 18 operations over up to 5 Transforms, types derived from it with defaults of their own (and Groups/Shapes), up to 5 strong or weak paths built directly or by extension '
        '(shared prefixes, repeated transforms) and up to 3 routes between transform fields: assignments, sets, deletions, refused values, reads, '
        'matrix queries with all flag combinations, paths and nodes dropped and made anew; queried matrices are compared with the product computed '
        'from the current field values. Non-trivial: a field on a path was changed between two queries of the same path and flags.')
ASSUMPTIONS = ['nodes of a strong path are not replaced in place', 'silent sets and in-place array edits are not announced changes', 'scales are not zero',
               'Billboards (whose matrix is the viewer\'s) are not on the paths']

FIELDS = ['translation', 'center', 'rotation', 'scale', 'scaleOrientation']
f = c12.f
small = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 10.0]), st.floats(-100, 100, width=32))
one = st.one_of(st.sampled_from([1.0, 2.0, 0.5, -1.0, 3.0]), st.floats(f(0.1), 10, width=32))
rot = st.tuples(c12.axis, c12.angle).map(lambda x: x[0] + (f(x[1]),))
VAL = {'translation': st.tuples(small, small, small), 'center': st.tuples(small, small, small), 'rotation': rot,
       'scale': st.one_of(st.tuples(one, one, one), st.just((1.0, 1.0, 1.0))), 'scaleOrientation': rot}
DEF = dict(zip(c12.NAMES, c12.DEFAULTS))


def derived():
    """Transform types whose fields have other defaults"""
    from vrml import field, node
    from vrml.vrml97 import basenodes
    out = []
    for i, own in enumerate([{'scale': (2.0, 0.5, 3.0)}, {'translation': (1.0, 2.0, 3.0), 'rotation': (0.0, 0.0, 1.0, 1.25), 'center': (0.0, 4.0, 0.0)},
                             {'scale': (1.0, 1.0, 2.0), 'scaleOrientation': (1.0, 0.0, 0.0, 0.5)}]):
        types = {'translation': 'SFVec3f', 'center': 'SFVec3f', 'rotation': 'SFRotation', 'scale': 'SFVec3f', 'scaleOrientation': 'SFRotation'}
        out.append(type('Derived%d' % i, (basenodes.Transform,), dict({k: field.newField(k, types[k], 1, list(v) if i else v) for k, v in own.items()}, OWN=own)))
    # one without, and one derived from a derived type
    out.append(type('Plain', (basenodes.Transform,), {}))
    out.append(type('Below', (out[0],), {}))
    return out


def local(node, t, s, r):
    from vrml import protofunctions
    out = []
    for name in FIELDS:
        fld = protofunctions.getField(node, name)
        v = getattr(type(node), 'OWN', {}).get(name, DEF[name])
        if fld.fhas(node):
            v = tuple(float(x) for x in fld.fget(node))
            if len(v) == 4 and not any(v[:3]):
                v = DEF[name]
        if (name == 'translation' and not t) or (name in ('scale', 'scaleOrientation') and not s) or (name == 'rotation' and not r):
            v = DEF[name]
        out.append(v)
    t_, c, r_, s_, so = out
    return mats.factors(t_, c, r_, s_, so), mats.ifactors(t_, c, r_, s_, so)


def verify(path, flags, where):
    from vrml.vrml97 import basenodes
    t, s, r, inverse = flags
    fwd, inv = [], []
    for n in path:
        if isinstance(n, basenodes.Transform):
            a, b = local(n, t, s, r)
            fwd = a + fwd
            inv = inv + b
    got = path.transformMatrix(translate=t, scale=s, rotate=r, inverse=inverse)
    p = mats.close(got, inv if inverse else fwd)
    check(p is None, '%s: matrix (translate %r, scale %r, rotate %r, inverse %r) %s', where, t, s, r, inverse, p)
    other = path.transformMatrix(translate=t, scale=s, rotate=r, inverse=not inverse)
    p = mats.close(other, fwd if inverse else inv)
    check(p is None, '%s: matrix (translate %r, scale %r, rotate %r, inverse %r) %s', where, t, s, r, not inverse, p)
    err = np.abs(np.asarray(got, 'd').dot(np.asarray(other, 'd')) - np.identity(4))
    check(np.all(err <= mats.bound((inv + fwd) if inverse else (fwd + inv))), '%s: forward and inverse are not inverse', where)


def history(value, rec):
    from vrml.vrml97 import basenodes, nodepath
    from vrml import route, node as nodemodule
    kinds, ops = value
    T = basenodes.Transform
    types = [basenodes.Group, T] + derived()
    nodes = [types[k % len(types)]() for k in kinds]
    if not any(isinstance(x, T) for x in nodes):
        nodes[0] = T()
    rec.label('type with defaults of its own', any(k > 1 for k in kinds))
    paths, routes, strong = [], [], []
    queried, changed = set(), set()
    queries = 0

    def make(idx, weak):
        ns = [nodes[i % len(nodes)] for i in idx]
        p = (nodepath.WeakNodePath if weak else nodepath.NodePath)(ns)
        paths.append(p)
    make([0, 1, 2], 0)
    for n, (op, a, b, c, val) in enumerate(ops):
        where = 'operation %d (%s)' % (n, op)
        trs = [x for x in nodes if isinstance(x, T)]
        node = trs[a % len(trs)]
        name, v = val
        if op == 'set':
            if b % 3 == 0:
                getattr(type(node), name).fset(node, v)
            else:
                setattr(node, name, v if b % 2 else list(v))
            changed.add(id(node))
        elif op == 'del':
            if getattr(type(node), name).fhas(node):
                delattr(node, name)
        elif op == 'fail':
            try:
                setattr(node, name, 'bad')
            except ValueError:
                pass
        elif op == 'read':
            getattr(node, name)
        elif op == 'route':
            if len(routes) < 3:
                dst = trs[b % len(trs)]
                other = [x for x in FIELDS if VAL[x] is VAL[name] or len(DEF[x]) == len(DEF[name]) and 'scale' not in (x, name)]
                df = other[c % len(other)]
                routes.append(route.ROUTE(source=node, sourceField=name, destination=dst, destinationField=['set_' + df, df][c % 2]))
        elif op == 'path':
            if len(paths) < 5:
                make([a, b, c, b + c][:1 + a % 4], c % 2)
        elif op == 'extend':
            if len(paths) < 6:
                p = paths[b % len(paths)]
                tail = node if c % 2 else [nodes[(a + i) % len(nodes)] for i in range(c % 3)]
                paths.append(p + tail)
        elif op == 'drop path':
            if len(paths) > 1:
                del paths[b % len(paths)]
            p = None
        elif op == 'renew':
            # a path with the same nodes
            p = paths[b % len(paths)]
            if len(paths) < 6:
                paths.append(type(p)(list(p)))
            p = None
        elif op == 'kill':
            # a node only weak paths hold
            i = b % len(nodes)
            x = nodes[i]
            routes[:] = [r for r in routes if r.source is not x and r.destination is not x]
            paths[:] = [q for q in paths if isinstance(q, nodepath.WeakNodePath) or not any(y is x for y in q)] or [nodepath.NodePath()]
            nodes[i] = None
            x = node = trs = r = q = p = None
            gc.collect()
            nodes[i] = T()
            rec.label('kill')
        elif op == 'query':
            p = paths[b % len(paths)]
            flags = [bool(c & 1), bool(c & 2), bool(c & 4), bool(c & 8)] if c < 16 else [True, True, True, False]
            verify(p, flags, where)
            queries += 1
            key = (id(p), tuple(flags))
            if key in queried and any(id(x) in changed for x in p):
                rec.nt()
            queried.add(key)
            p = None
        rec.label(op)
    for i, p in enumerate(paths):
        for c in (15, 7, 0 + i, 9, 2, 4):
            verify(p, [bool(c & 1), bool(c & 2), bool(c & 4), bool(c & 8)], 'at the end, path %d of %r' % (i, p))
            if any(id(x) in changed for x in p) and queries:
                rec.nt()


OP = st.tuples(st.sampled_from(['set', 'set', 'set', 'set', 'del', 'fail', 'read', 'route', 'path', 'path', 'extend', 'extend', 'drop path', 'renew', 'kill', 'query', 'query', 'query', 'query']),
               st.integers(0, 7), st.integers(0, 7), st.integers(0, 24), st.sampled_from(FIELDS).flatmap(lambda x: st.tuples(st.just(x), VAL[x])))
CASES = [Case('history', st.tuples(st.lists(st.sampled_from([1, 1, 1, 1, 0, 2, 3, 4, 5, 6]), min_size=2, max_size=5), st.lists(OP, min_size=4, max_size=18)), history, 2000)]
