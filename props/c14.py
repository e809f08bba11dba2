"""C14 the accelerated and the pure-Python builds are indistinguishable"""
import gc, re
import numpy as np
from hypothesis import strategies as st
from harness import vals, nodes, mats, duo
from harness.core import Case, check
from props import c06, c07, c12

RULE = ('programs of up to 30 operations (construct, assign, set with and without notification, read, delete, coerce, copy, defaults, in-place list edits, '
        'observers that raise or set other fields, routes, prototypes with bodies; values in every accepted spelling, of another type, and refused '
        'ones; field classes of the user\'s own that raise or override methods; all matrix functions) are run in this process (pure Python) and in a second one '
        'with the compiled accelerators; results, exception types and the sequence of notifications are compared. '
        'Non-trivial: at least one notification and one value or matrix result.')
ASSUMPTIONS = ['single precision arguments of matrix functions, valid view volumes, axes of length 1e-3..1e3 or zero',
               'exceptions are compared by type', 'a matrix that is None is the identity', 'the notify argument is a boolean or an integer']
CONFIGS = ['accel0']

FT = [('b', 'SFBool'), ('i', 'SFInt32'), ('d', 'SFFloat'), ('s', 'SFString'), ('v', 'SFVec3f'), ('c', 'SFColor'), ('r', 'SFRotation'), ('img', 'SFImage'),
      ('mi', 'MFInt32'), ('mf', 'MFFloat'), ('ms', 'MFString'), ('mv', 'MFVec3f'), ('mc', 'MFColor'), ('m4', 'SFMatrix4f'), ('n', 'SFNode'), ('k', 'MFNode')]
_made = {}


def classes():
    if not _made:
        from vrml import field, fieldtypes, node
        from vrml.vrml97 import basenodes

        class Odd(field.Field):
            """A field class of the user's own"""
            fieldType = 'Odd'

            def coerce(self, value):
                if isinstance(value, str) and value.endswith('Error'):
                    raise getattr(__import__('builtins'), value)('odd')
                return ('odd', value)

        class Over(fieldtypes.SFFloat):
            """Overrides the documented methods"""
            fieldType = 'Over'
            calls = []

            def fset(self, client, value, notify=1):
                Over.calls.append('fset')
                return super(Over, self).fset(client, value, notify)

            def fdel(self, client, notify=1):
                Over.calls.append('fdel')
                return super(Over, self).fdel(client, notify)

            def fget(self, client):
                Over.calls.append('fget')
                return super(Over, self).fget(client)

            def getDefault(self, client=None):
                Over.calls.append('getDefault')
                return super(Over, self).getDefault(client)

            def coerce(self, value):
                Over.calls.append('coerce')
                return super(Over, self).coerce(value)

        class Plain(field.BaseField):
            """Only the base class"""

        def broken():
            raise KeyError('default')

        class CallableDefault(object):
            def __call__(self):
                return 4.5
        fields = [nodes.field(n, t) for n, t in FT]
        fields += [Odd('odd', 1, 'x'), Odd('odd2', 0, 'TypeError'), Odd('odd3', 0, 'KeyError'), Over('over', 1, 2.0), Plain('plain', 7),
                   nodes.field('bad', 'SFVec3f', [1, 2]), nodes.field('cd', 'SFFloat', CallableDefault()), nodes.field('lst', 'MFFloat', [1, 2]),
                   nodes.field('brk', 'SFFloat', broken), node.WeakSFNode('w', 1), nodes.field('ml', 'MFVec2f', lambda: [(1, 2)]),
                   nodes.field('dn', 'SFFloat', None)]
        _made['W'] = nodes.proto('W', *fields)
        _made['Over'] = Over
        _made['classes'] = [_made['W'], _made['W'], _made['W'], basenodes.Transform, basenodes.IndexedFaceSet, basenodes.TimeSensor, basenodes.PositionInterpolator]
        _made['names'] = {_made['W']: sorted(f.name for f in fields)}
        for c in _made['classes'][3:]:
            from vrml import protofunctions
            _made['names'][c] = sorted(f.name for f in protofunctions.getFields(c) if not f.name.startswith(' '))
    return _made


class Run:
    def __init__(self):
        m = classes()
        self.m = m
        self.nodes, self.log, self.keep, self.trace = [], [], [], []
        self.depth = 0
        self.routes = []
        m['Over'].calls[:] = []

    def canon(self, v, depth=0):
        from vrml import node, field, olist
        if v is None or isinstance(v, (int, float, str, bytes, complex)):
            return (type(v).__name__, re.sub(r'0x[0-9A-Fa-f]{6,}', '0x', repr(v)))
        if isinstance(v, np.ndarray):
            return ('array', v.dtype.str, v.shape, repr(v.tolist()) if v.dtype != object else [self.canon(x, depth + 1) for x in v.ravel().tolist()])
        if isinstance(v, np.generic):
            return ('numpy', v.dtype.str, repr(v.item()))
        if isinstance(v, node.Node):
            for i, n in enumerate(self.nodes):
                if n is v:
                    return ('node', i)
            return ('node', type(v).__name__)
        if depth < 5 and isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(self.canon(x, depth + 1) for x in v)
        if isinstance(v, (field.Field, field.BaseField)):
            return ('field', v.name)
        return ('object', type(v).__name__)

    def receiver(self, tag):
        def receiver(signal, sender, value=None):
            if isinstance(signal, tuple) and len(signal) == 2 and hasattr(signal[1], 'name'):
                self.log.append((tag, signal[0], signal[1].name, self.canon(sender), self.canon(value)))
            else:
                self.log.append((tag, str(signal), self.canon(sender), self.canon(value)))
        return receiver

    def watch(self, n):
        from pydispatch import dispatcher
        r = self.receiver('any')
        dispatcher.connect(r, sender=n, signal=dispatcher.Any)
        self.keep.append(r)

    def field(self, n, f):
        from vrml import protofunctions
        names = self.m['names'][type(n)]
        return protofunctions.getField(n, names[f % len(names)])

    def value(self, fld, spec):
        kind, n, a, s = spec
        t = fld.typeName() if hasattr(fld, 'typeName') else 'none'
        if kind == 'node':
            return [None, self.nodes[a % len(self.nodes)], [self.nodes[a % len(self.nodes)]], [self.nodes[0], self.nodes[a % len(self.nodes)]], (), []][n % 6]
        if kind == 'odd':
            return ['KeyError', 'TypeError', 'ValueError', 'AttributeError', 'RuntimeError', 'ok', 3, None, '7', 2.5][n % 10]
        if kind == 'bad':
            u = t if t in c06.TYPES or t in ('SFNode', 'MFNode') else sorted(c06.TYPES)[a % len(c06.TYPES)]
            kinds = c07.bad(u)
            return c07.make_bad(u, kinds[n % len(kinds)], a)
        u, v, r = s
        if kind == 'fit' and t in FITS:
            u, v = t, FITS[t][n % len(FITS[t])]
        sp = c06.spellings(u, v, r)
        return sp[n % len(sp)][1]

    def op(self, op, a, f, spec, x):
        from vrml import protofunctions, copier, route
        if op == 'new':
            if len(self.nodes) < 5:
                cls = self.m['classes'][a % len(self.m['classes'])]
                kw = {}
                names = self.m['names'][cls]
                if x % 2:
                    name = names[f % len(names)]
                    kw[name] = self.value(getattr(cls, name), spec)
                n = cls(**kw)
                self.nodes.append(n)
                self.watch(n)
                return None
        n = self.nodes[a % len(self.nodes)]
        if op == 'matrix':
            return self.matrix(x, spec[3])
        fld = self.field(n, f)
        if op == 'attr':
            setattr(n, fld.name, self.value(fld, spec))
        elif op == 'fset':
            return fld.fset(n, self.value(fld, spec))
        elif op == 'fset2':
            v = self.value(fld, spec)
            if x % 5 == 4:
                return fld.fset(n, v, notify=0)
            return fld.fset(n, v, [0, 1, True, False][x % 5])
        elif op == 'get':
            return getattr(n, fld.name)
        elif op == 'fget':
            return fld.fget(n)
        elif op == 'del':
            delattr(n, fld.name)
        elif op == 'fdel':
            return fld.fdel(n)
        elif op == 'fdel2':
            return fld.fdel(n, [0, 1, True, False][x % 4])
        elif op == 'fhas':
            return bool(fld.fhas(n)) if hasattr(fld, 'fhas') else None
        elif op == 'coerce':
            return fld.coerce(self.value(fld, spec))
        elif op == 'check':
            return fld.check(self.value(fld, spec))
        elif op == 'default':
            return fld.getDefault() if x % 2 else fld.getDefault(n)
        elif op == 'copy':
            if len(self.nodes) < 5:
                c = n.copy(copier.Copier())
                self.nodes.append(c)
                self.watch(c)
        elif op == 'copyfield':
            if hasattr(fld, 'copy'):
                g = fld.copy(type(n))
                return [g.name, g.getDefault(), str(g)]
        elif op == 'class get':
            return getattr(type(n), fld.name) is fld, str(fld) if hasattr(fld, 'typeName') else None, fld.name, fld.__doc__ and fld.__doc__[:30]
        elif op == 'edit':
            v = getattr(n, fld.name)
            if isinstance(v, np.ndarray) and v.size:
                v.flat[x % v.size] = 1
            elif isinstance(v, list):
                v.append(self.nodes[x % len(self.nodes)] if fld.typeName() == 'MFNode' else 'z')
        elif op == 'raiser':
            if fld.typeName() if hasattr(fld, 'typeName') else 0:
                def receiver(signal, sender, value=None):
                    raise [RuntimeError, ValueError, KeyError, TypeError][x % 4]('observer')
                self.keep.append(receiver)
                fld.watch(n, receiver, (['set', 'del'][x % 2], fld))
        elif op == 'setter':
            if hasattr(fld, 'watch'):
                m = self.nodes[x % len(self.nodes)]
                g = self.field(m, f + x)

                def receiver(signal, sender, value=None):
                    if self.depth < 3:
                        self.depth += 1
                        try:
                            setattr(m, g.name, value)
                        finally:
                            self.depth -= 1
                self.keep.append(receiver)
                fld.watch(n, receiver, ('set', fld))
        elif op == 'route':
            m = self.nodes[x % len(self.nodes)]
            g = self.field(m, f if x % 3 else f + x)
            if hasattr(fld, 'typeName') and hasattr(g, 'typeName') and len(self.routes) < 5:
                self.routes.append(route.ROUTE(source=n, sourceField=fld.name, destination=m, destinationField=g.name))
        elif op == 'compare':
            from vrml.vrml97 import linearise
            return n == self.nodes[x % len(self.nodes)]
        elif op == 'body':
            # a prototype with a body and IS mappings of our fields
            from vrml.vrml97 import scenegraph, basenodes
            P = nodes.proto('Body', nodes.field('x', 'SFVec3f', (1, 2, 3)), nodes.field('y', 'MFFloat', [1]))
            t = basenodes.Transform(DEF='t')
            sg = scenegraph.SceneGraph(children=[t])
            protofunctions.setSceneGraph(P, sg)
            sg.addIS('x', 't', 'translation') if hasattr(sg, 'addIS') else None
            i = P()
            body = protofunctions.getSceneGraph(i)
            i.x = (x, x, 0)
            return [i.x, body.children[0].translation, body is not sg]
        elif op == 'gc':
            gc.collect()
        return None

    def matrix(self, x, s):
        """One of the matrix functions"""
        from vrml.vrml97 import transformmatrix as tm, basenodes
        u, v, r = s
        M = MATS
        params, how = M[x % len(M)], r
        t, c, ro, sc, so = params
        form = [tuple, list, lambda q: np.array(q, 'f'), lambda q: np.array(q, 'd'), lambda q: [int(y) if y == int(y) else y for y in q]][how % 5]
        axis = ro[:3] if any(ro[:3]) else (0, 1, 0)
        fw = lambda q: [q]
        k = r % 14
        if k == 0:
            return self.mats(tm.rotMatrix(form(ro)), [mats.rotation(tuple(axis) + (ro[3],))], [mats.rotation(tuple(axis) + (-ro[3],))])
        if k == 1:
            return self.mats(tm.scaleMatrix(form(sc)), [mats.scale(sc)], [mats.scale([1 / y for y in sc])])
        if k == 2:
            return self.mats(tm.transMatrix(form(t)), [mats.translation(t)], [mats.translation([-y for y in t])])
        if k == 3:
            return self.mats(getattr(tm, ['rotMatrix', 'scaleMatrix', 'transMatrix'][x % 3])(), [])
        if k in (4, 5):
            fovy, aspect, near, depth = PROJ[x % len(PROJ)]
            args = [fovy, aspect, near, near + depth]
            if how % 3 == 1:
                args = [np.float64(y) for y in args]
            if how % 3 == 2:
                args = dict(zip(['fovy', 'aspect', 'zNear', 'zFar'], args))
            inv = bool(k & 1)
            got = tm.perspectiveMatrix(inverse=inv, **args) if isinstance(args, dict) else tm.perspectiveMatrix(*args, inverse=inv) if how % 2 else tm.perspectiveMatrix(*(list(args) + [inv]))
            return [('mat', got.tolist(), (np.abs(np.asarray(got, 'd')) * 3e-5 + 1e-12).tolist(), got.shape)]
        if k in (6, 7):
            l, w, b, h, n, d = ORTHO[x % len(ORTHO)]
            args = [l, l + w, b, b + h, n, n + d]
            if how % 2:
                got = tm.orthoMatrix(*args)
            else:
                got = tm.orthoMatrix(**dict(zip(['left', 'right', 'bottom', 'top', 'zNear', 'zFar'], args)))
            if k == 7 and how % 5 == 0:
                got = tm.orthoMatrix()
                return [('mat', got.tolist(), (np.abs(got) * 1e-5).tolist(), got.shape)]
            e = np.abs(np.asarray(got, 'd')) * 1e-5
            e[:3, 3] += [1e-5 * (abs(l) + abs(l + w)) / abs(w), 1e-5 * (abs(b) + abs(b + h)) / abs(h), 1e-5 * (abs(n) + abs(n + d)) / abs(d)]
            return [('mat', got.tolist(), e.tolist(), got.shape)]
        if k == 12:
            bad = [(1, 2), 5, ()][x % 3]
            return self.mats([getattr(tm, ['rotMatrix', 'scaleMatrix', 'transMatrix'][how % 3])(bad)], [])
        full = [t, c, tuple(axis) + (ro[3],), sc, (tuple(so[:3]) if any(so[:3]) else (0, 1, 0)) + (so[3],)]
        fwd, inv = mats.factors(*full), mats.ifactors(*full)
        if k in (8, 9):
            n = basenodes.Transform(translation=t, center=c, rotation=ro, scale=sc, scaleOrientation=so)
            return self.mats(n.localMatrices(translate=bool(x & 1), scale=bool(x & 2), rotate=bool(x & 4)).data, fwd, inv)
        kw = dict(zip(c12.NAMES, [form(y) for y in params]))
        for i, nme in enumerate(c12.NAMES):
            if (x >> i) & 1 and how % 3 == 0:
                del kw[nme]
        if k == 10:
            return self.mats(tm.transformMatrices(**kw), fwd, inv)
        if k == 11:
            return self.mats(tm.localMatrices(**kw), fwd, inv)
        return self.mats([tm.transformMatrix(**kw), tm.itransformMatrix(**kw), tm.center(translation=form(t), center=form(c))], fwd, inv, None)

    def mats(self, got, *factors):
        out = []
        for i, g in enumerate(got):
            if g is None:
                g = np.identity(4)
            g = np.asarray(g)
            if i < len(factors) and factors[i] is not None:
                e = mats.bound(factors[i]).tolist()
            else:
                e = (np.abs(np.asarray(g, 'd')) * 1e-5 + 1e-3).tolist()
            out.append(('mat', g.tolist(), e, g.shape))
        return out

    def run(self, ops):
        self.nodes.append(self.m['W']())
        self.watch(self.nodes[0])
        for o in ops:
            self.log = []
            try:
                r = self.op(*o)
                if o[0] == 'matrix':
                    result = ('matrix', r)
                else:
                    result = ('ok', self.canon(r))
            except Exception as e:
                result = ('raised', type(e).__name__)
            e = None
            self.trace.append((result, self.log))
        calls = list(self.m['Over'].calls)
        self.routes = []
        state = []
        for n in self.nodes:
            state.append([(k, self.canon(n.__dict__[k])) for k in sorted(n.__dict__) if not k.startswith(' root')])
        return self.trace, calls, state


def execute(ops):
    import contextlib, io, warnings
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return Run().run(ops)


other = duo.Other('props.c14')


def program(ops, rec):
    here = execute(ops)
    try:
        there = other.run(ops)
    except EOFError:
        check(False, 'the accelerated build crashed')
    except TimeoutError:
        check(False, 'the accelerated build did not finish')
    ta, tb = here[0], there[0]
    notes = results = 0
    for n, (o, a, b) in enumerate(zip(ops, ta, tb)):
        where = 'operation %d %r' % (n, o)
        (ra, la), (rb, lb) = a, b
        check(ra[0] == rb[0], '%s: pure %r, accelerated %r', where, ra, rb)
        rec.label(o[0])
        if ra[0] == 'matrix':
            results += 1
            check(len(ra[1]) == len(rb[1]), '%s: results %r %r', where, ra, rb)
            for (_, ma, ea, sa), (_, mb, eb, sb) in zip(ra[1], rb[1]):
                check(sa == sb, '%s: shapes %r %r', where, sa, sb)
                check(np.all(np.abs(np.array(ma) - np.array(mb)) <= 2 * np.array(ea)), '%s: pure %r, accelerated %r', where, ma, mb)
        else:
            check(ra == rb, '%s: pure %r, accelerated %r', where, ra, rb)
            results += ra[0] == 'ok' and ra[1] != ('NoneType', 'None')
            rec.label('raised %s' % (ra[1],) if ra[0] == 'raised' else 'ok')
        check(la == lb, '%s: notifications pure %r, accelerated %r', where, la, lb)
        notes += len(la)
    check(here[1] == there[1], 'methods called: pure %r, accelerated %r', here[1], there[1])
    check(here[2] == there[2], 'final state: pure %r, accelerated %r', here[2], there[2])
    rec.nt(notes and results)


f = c12.f
FITS = {
    'SFBool': [True, False], 'SFInt32': [0, 5, -7], 'SFFloat': [0.0, 2.5, -1.0], 'Over': [1.0, 2.0], 'SFString': ['', 'abc'], 'SFVec3f': [(0.0, 0.0, 0.0), (1.0, 2.0, 3.0)],
    'SFColor': [(1.0, 0.5, 0.0)], 'SFRotation': [(0.0, 1.0, 0.0, 1.0)], 'SFImage': [[], [1, 1, 1, 5]], 'MFInt32': [[], [1, -1]], 'MFFloat': [[], [1.0], [1.5, 2.0]],
    'MFString': [[], ['a', 'b']], 'MFVec3f': [[], [(1.0, 2.0, 3.0)]], 'MFColor': [[(0.0, 1.0, 0.5)]], 'MFVec2f': [[(1.0, 2.0)]], 'MFRotation': [[(0.0, 1.0, 0.0, 2.0)]],
    'SFMatrix4f': [tuple(float(i) for i in range(16))], 'SFTime': [1.0], 'MFTime': [[1.0]], 'SFVec2f': [(1.0, 2.0)]}
for _u in FITS:
    if _u in ('Over',):
        continue
FITS.pop('Over')
# tables from which programs pick matrix arguments; filled with fixed pseudo-random values
_rng = np.random.RandomState(5)


def _table():
    out = []
    axes = [(0.0, 1.0, 0.0), (0.0, 0.0, 0.0), (1.0, 1.0, 0.0), (0.0, 0.0, 2.0), (-3.0, 0.0, 4.0), (f(0.1), f(0.2), f(-0.3))]
    angles = [0.0, 1.0, -1.0, f(np.pi), f(np.pi / 2), f(2 * np.pi), 2 * np.pi, -2 * np.pi, 4 * np.pi, 7.0, f(-20.5), f(1e-4), 6 * np.pi, 100.0]
    scales = [1.0, 2.0, 0.5, -1.0, f(0.01), 3.0, f(0.3)]
    for i in range(300):
        c = lambda: float(_rng.choice([0.0, 1.0, -2.0, 10.0, f(_rng.uniform(-100, 100))]))
        ax = lambda: axes[_rng.randint(len(axes))] if _rng.randint(3) else tuple(f(_rng.uniform(-5, 5)) for j in range(3))
        an = lambda: angles[_rng.randint(len(angles))] if _rng.randint(3) else f(_rng.uniform(-20, 20))
        s = (1.0, 1.0, 1.0) if _rng.randint(4) == 0 else tuple(scales[_rng.randint(len(scales))] for j in range(3))
        z = lambda: (0.0, 0.0, 0.0) if _rng.randint(4) == 0 else (c(), c(), c())
        out.append((z(), z(), ax() + (an(),), s, ax() + (an(),)))
    return out


MATS = _table()
PROJ = [tuple(f(x) for x in (_rng.uniform(0.05, 2.9), _rng.choice([1.0, 0.5, 1.5, _rng.uniform(0.1, 5)]), _rng.choice([0.5, 1.0, f(0.1), _rng.uniform(0.01, 10)]), _rng.choice([2.0, 100.0, _rng.uniform(1, 1e4)])))
        for i in range(100)]
ORTHO = [tuple(f(x) if j % 2 == 0 else f(x) or 1.0 for j, x in enumerate((_rng.uniform(-100, 100), _rng.choice([2.0, -3.0, _rng.uniform(1, 100)]), _rng.randint(-5, 5), _rng.choice([4.0, _rng.uniform(1, 50)]),
                _rng.uniform(-10, 10), _rng.choice([1.0, 1000.0, -2.0])))) for i in range(100)]

ANY = st.sampled_from(sorted(c06.TYPES)).flatmap(lambda t: st.tuples(st.just(t), vals.SHORT[t] if t in vals.SHORT else c06.value(t), st.integers(0, 50)))
CHEAP = st.tuples(st.just('SFFloat'), st.sampled_from([0.0, 1.0, 2.5, 1e300]), st.integers(0, 50))
SPEC = st.one_of(st.tuples(st.sampled_from(['fit', 'fit', 'fit', 'node', 'odd', 'bad']), st.integers(0, 40), st.integers(0, 20), CHEAP),
                 st.tuples(st.sampled_from(['other']), st.integers(0, 40), st.integers(0, 20), ANY))
OP = st.tuples(st.sampled_from(['new', 'new', 'attr', 'attr', 'attr', 'fset', 'fset', 'fset2', 'get', 'fget', 'del', 'del', 'fdel', 'fdel2', 'fhas', 'coerce', 'check', 'default', 'copy',
                                'copyfield', 'class get', 'edit', 'raiser', 'setter', 'route', 'route', 'compare', 'body', 'gc', 'matrix', 'matrix', 'matrix', 'matrix']),
               st.one_of(st.integers(0, 1), st.integers(0, 20)), st.one_of(st.sampled_from([13, 27, 16, 24]), st.integers(0, 60)), SPEC, st.integers(0, 700))
CASES = [Case('program', st.lists(OP, min_size=8, max_size=30), program, 5000)]
