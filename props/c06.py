"""C06 every accepted spelling of a value is stored in one canonical form"""
import numpy as np
from hypothesis import strategies as st
from harness import vals, nodes
from harness.core import Case, check

RULE = ('an abstract value of one of 33 field types (scalars, strings, vectors, rotations, colours incl. out-of-range, matrices, lists up to '
        '250 entries) is stored in every accepted spelling that applies (Python numbers, flat/nested lists, tuples, range/map/zip, arrays of 15 '
        'element types, byte orders and memory layouts, text with varied separators) by assignment, constructor, set and coerce. '
        'Non-trivial: at least 4 spellings were stored and the value is not the type\'s default.')
ASSUMPTIONS = ['integers are within the element type\'s range and numbers are finite',
               'nested spellings are lists for single vectors, lists or tuples for lists of vectors; mixed colour-name lists are C20\'s']

EXTRA = {
    'SFVec2d': ('vec', 2, 'd'), 'SFVec3d': ('vec', 3, 'd'), 'SFVec4d': ('vec', 4, 'd'), 'SFVec4f': ('vec', 4, 'f'),
    'MFVec2d': ('veclist', 2, 'd'), 'MFVec3d': ('veclist', 3, 'd'), 'MFVec4d': ('veclist', 4, 'd'), 'MFVec4f': ('veclist', 4, 'f'),
    'SFMatrix3f': ('vec', 9, 'f'), 'SFMatrix4f': ('vec', 16, 'f'), 'SFMatrix3d': ('vec', 9, 'd'), 'SFMatrix4d': ('vec', 16, 'd'),
    'MFMatrix3f': ('veclist', 9, 'f'), 'MFMatrix4d': ('veclist', 16, 'd'),
    'MFFloat32': ('list', 1, 'f'), 'MFUInt32': ('list', 1, 'I'), 'SFUInt32': ('scalar', 1, 'I'),
}
TYPES = dict(vals.TYPES, **EXTRA)


def dim(t):
    return {'3': (3, 3), '4': (4, 4)}[t[8]] if 'Matrix' in t else (TYPES[t][1],)


def kindof(t):
    return TYPES[t]


def value(t):
    kind, count, dt = TYPES[t]
    if dt == 'color':
        e = st.one_of(vals.UNIT32, vals.FLOAT32)
    else:
        e = vals.ELEM[dt]
    if kind == 'scalar':
        return e
    if kind == 'vec':
        return st.one_of(st.tuples(*[e] * count), e.map(lambda x: (x,) * count), st.integers(-5, 5).map(lambda x: tuple(float(x + i) for i in range(count))))
    item = e if kind == 'list' else st.tuples(*[e] * count)
    out = [st.lists(item, max_size=5), st.lists(item, min_size=1, max_size=1)]
    if kind == 'list' and dt in 'iIdf':
        # arithmetic progressions can be given as ranges
        out.append(st.tuples(st.integers(0, 50), st.integers(1, 7), st.integers(0, 30)).map(
            lambda a: [(int if dt in 'iI' else float)(a[0] + a[1] * i) for i in range(a[2])]))
    if count <= 4:
        out.append(vals._long(dt, count))
    return st.one_of(*out)


def number(x, r):
    """A text spelling of a number that float()/int() read"""
    if isinstance(x, int):
        return ['%d', '+%d', '%d', '%03d'][r % 4] % x if x >= 0 else '%d' % x
    s = repr(x)
    if r % 5 == 0 and x >= 0 and not s.startswith('-'):
        return '+' + s
    if r % 5 == 1 and x == int(x) and abs(x) < 1e15 and s != '-0.0':
        return '%d' % x
    if r % 5 == 2:
        return '%.17e' % x
    if r % 5 == 3 and s.startswith('0.'):
        return s[1:]
    return s


def text(flat, r):
    seps = [' ', ', ', ',', '\t', '\n', ' , ', '  ']
    out = ''
    for i, x in enumerate(flat):
        out += number(x, r + i) + seps[(r * 7 + i * (r % 3)) % len(seps)]
    return [out.rstrip(' ,\n\t'), ' ' + out, out][r % 3]


def arrays_of(a, dt, r):
    """The numbers of a (a float64/int64 array) in other element types and layouts"""
    out = [('array', a)]
    exact = [('float32', 'f'), ('float64', 'd'), ('int64', 'q'), ('int32', 'i'), ('int16', 'h'), ('uint8', 'B'), ('uint32', 'I'), ('int8', 'b'), ('bool', '?'), ('float16', 'e'),
             ('uint64', 'L'), ('longlong', 'q'), ('ulonglong', 'Q'), ('uint16', 'H'), ('longdouble', 'g')]
    for name, code in exact:
        with np.errstate(all='ignore'):
            try:
                b = a.astype(code)
                same = b.astype(a.dtype).tobytes() == (a + 0).tobytes() and not (a.dtype.kind == 'f' and np.any((a == 0) & np.signbit(a)))
            except (ValueError, OverflowError):
                continue
        if same:
            out.append((name, b))
    base = out[r % len(out)][1]
    out.append(('big-endian', base.astype(base.dtype.newbyteorder('>'))))
    out.append(('fortran', np.asfortranarray(base)))
    wide = np.zeros(base.shape[:-1] + (base.shape[-1] * 2,), base.dtype)
    wide[..., ::2] = base
    out.append(('strided', wide[..., ::2]))
    out.append(('reversed view', np.ascontiguousarray(base[..., ::-1])[..., ::-1]))
    ro = base.copy()
    ro.setflags(write=False)
    out.append(('read-only', ro))
    return out


def spellings(t, v, r):
    """(name, object) of every spelling of abstract value v"""
    kind, count, dt = TYPES[t]
    out = []
    if kind == 'scalar':
        out.append(('plain', v))
        if dt == 'bool':
            out += [('int', int(v)), ('float', float(v)), ('numpy', np.bool_(v)), ('upper', 'TRUE' if v else 'FALSE'),
                    ('lower', 'true' if v else 'false'), ('digit', '1' if v else '0'), ('title', 'True' if v else 'False'), ('list', [0] if v else [])]
        elif dt in 'iI':
            out += [('text', number(v, r)), ('text spaces', ' %d\n' % v), ('float', float(v)), ('numpy', np.int64(v))]
        elif dt == 'd':
            out += [('text', number(v, r)), ('text spaces', '\t' + repr(v) + ' '), ('numpy', np.float64(v))]
            if v == int(v):
                out.append(('int', int(v)))
            if vals.f32(v) == v:
                out.append(('float32', np.float32(v)))
        elif dt == 'str':
            out += [('list', [v]), ('tuple', (v,)), ('letters', list(v)), ('halves', (v[:len(v) // 2], v[len(v) // 2:]))]
            try:
                out.append(('bytes', v.encode('utf-8')))
            except UnicodeEncodeError:
                pass
        return out
    if dt == 'str':
        out += [('list', list(v)), ('tuple', tuple(v)), ('generator', (x for x in v)), ('map', map(str, v)), ('nested', [[x] for x in v]),
                ('bytes', [x.encode('utf-8') for x in v])]
        if len(v) == 1:
            out.append(('string', v[0]))
        return out
    flat = [x for row in v for x in row] if kind == 'veclist' else list(v)
    d = dim(t)
    if kind == 'vec':
        out += [('list', flat), ('tuple', tuple(flat)), ('map', map(float, flat)), ('nested', [flat]), ('deeper', [[flat[:1]], [flat[1:]]])]
        if dt != 'color':
            out.append(('text', text(flat, r)))
        if len(d) == 2:
            out.append(('rows', [flat[i * d[0]:(i + 1) * d[0]] for i in range(d[0])]))
        if len(set(flat)) == 1:
            out.append(('single number', flat[0]))
            if flat[0] == int(flat[0]):
                out.append(('single int', int(flat[0])))
        a = np.array(flat, 'd').reshape(d)
        out += arrays_of(a, dt, r)
        out += [('flat array', a.ravel()), ('row array', a.reshape(1, -1)), ('column array', a.reshape(-1, 1))]
        if all(x == int(x) for x in flat):
            ints = [int(x) for x in flat]
            out.append(('ints', ints))
            if len(flat) < 5 and [flat[0] + i for i in range(len(flat))] == flat:
                out.append(('range', range(ints[0], ints[0] + len(ints))))
        return out
    if kind == 'list':
        conv = int if dt in 'iI' else float
        out += [('list', flat), ('tuple', tuple(flat)), ('map', map(conv, flat))]
        if not flat:
            out += [('None', None), ('empty text', '')]
        out.append(('text', text(flat, r)))
        if len(flat) == 1:
            out.append(('single', flat[0]))
        if dt in 'df':
            out += [('nested', [flat]), ('split', [flat[:2], [[x] for x in flat[2:]]])]
        if len(flat) > 1 and all(x == int(x) for x in flat):
            step = int(flat[1]) - int(flat[0])
            if step > 0 and [int(flat[0]) + step * i for i in range(len(flat))] == [int(x) for x in flat]:
                out.append(('range', range(int(flat[0]), int(flat[-1]) + 1, step)))
        a = np.array(flat, 'q' if dt in 'iI' else 'd')
        out += arrays_of(a, dt, r)
        out += [('column array', a.reshape(-1, 1))]
        if len(a) % 2 == 0 and len(a):
            out += [('2-d array', a.reshape(2, -1)), ('2-d fortran', np.asfortranarray(a.reshape(2, -1)))]
        return out
    # lists of vectors
    out += [('list of tuples', [tuple(x) for x in v]), ('list of lists', [list(x) for x in v]), ('tuple of tuples', tuple(tuple(x) for x in v)),
            ('flat list', flat), ('flat tuple', tuple(flat)), ('map', map(list, v)), ('text', text(flat, r)), ('generator list', [list(x) for x in v])]
    if v:
        out.append(('zip', zip(*zip(*v))))
        out.append(('bracketed text', '[%s]' % text(flat, r)))
        if len(d) == 2:
            out.append(('rows', [[list(x[i * d[0]:(i + 1) * d[0]]) for i in range(d[0])] for x in v]))
        if all(x == int(x) for x in flat):
            out.append(('ints', [[int(x) for x in row] for row in v]))
    a = np.array(flat, 'd').reshape((-1,) + d)
    out += arrays_of(a, dt, r)
    out += [('flat array', a.ravel()), ('rows array', a.reshape(-1, d[0] * (d[1] if len(d) > 1 else 1)))]
    return out


def norm(t, v):
    kind, count, dt = TYPES[t]
    old = vals.TYPES
    if t in vals.TYPES:
        return vals.norm(t, v)
    conv = {'d': float, 'f': vals.f32, 'I': int}[dt]
    if kind == 'scalar':
        return conv(v)
    if kind in ('vec', 'list'):
        return [conv(x) for x in v]
    return [tuple(conv(x) for x in row) for row in v]


def problem(t, stored, want):
    kind, count, dt = TYPES[t]
    if t in vals.TYPES:
        p = vals.canonical_problem(t, stored)
        if p:
            return p
        got = vals.plain(t, stored)
        return None if vals.same(got, want) else 'is %r' % (got,)
    if kind == 'scalar':
        return None if type(stored) is int and stored == want else 'is %r' % (stored,)
    if not isinstance(stored, np.ndarray):
        return 'is a %s' % type(stored)
    if stored.dtype != np.dtype(dt):
        return 'has element type %s' % stored.dtype
    shape = dim(t) if kind == 'vec' else (len(want),) if kind == 'list' else (len(want),) + dim(t)
    if stored.shape != shape:
        return 'has shape %s' % (stored.shape,)
    if not stored.flags.c_contiguous:
        return 'is not contiguous'
    flat = [x for row in want for x in row] if kind == 'veclist' else list(want)
    return None if vals.same(stored.ravel().tolist(), flat) else 'is %r' % (stored.tolist(),)


protos = {}


def store(value, rec):
    t, v, r = value
    if t not in protos:
        protos[t] = nodes.proto('T' + t, nodes.field('x', t), nodes.field('y', t))
    P = protos[t]
    want = norm(t, v)
    rec.label(t)
    n = 0
    for i in range(4):
        for name, obj in spellings(t, v, r):
            if name in ('generator', 'map', 'zip') and i != r % 4:
                continue
            n += 1
            node = P()
            how = i
            # the same spelling by four ways in
            if how == 0:
                node.x = obj
            elif how == 1:
                node = P(x=obj)
            elif how == 2:
                got = P.x.fset(node, obj)
                p = problem(t, got, want)
                check(p is None, '%s: fset(%s %r) returned what %s, expected %r', t, name, obj, p, want)
            else:
                node.x = P.x.coerce(obj)
            stored = node.x
            p = problem(t, stored, want)
            check(p is None, '%s: value stored for %s %r %s, expected %r (way %d)', t, name, obj, p, want, how)
            # storing what was read back changes nothing
            node.y = stored
            p = problem(t, node.y, want)
            check(p is None, '%s: re-stored value %s, expected %r', t, p, want)
            p = problem(t, node.x, want)
            check(p is None, '%s: value afterwards %s, expected %r', t, p, want)
    rec.nt(n >= 16 and bool(v))


CASES = [
    Case('store', st.sampled_from(sorted(TYPES)).flatmap(lambda t: st.tuples(st.just(t), value(t), st.integers(0, 50))), store, 3600),
]
