"""C08 field values are not shared between nodes or with the caller's data"""
import numpy as np
from hypothesis import strategies as st
from harness import vals, nodes
from harness.core import Case, check
from props import c06

RULE = ('histories of up to 14 operations over up to 4 nodes of a prototype (12 list/array field types, each with an empty, literal or array '
        'default) or of built-in types with non-empty defaults: store a container and keep it, edit the kept container in place, edit a '
        'read value in place, assign or route a value of one node to another, copy, delete, make a new node; after each operation every field of '
        'every node is compared with a model, and every kept container with what the caller made it. Non-trivial: an in-place edit after a store.')
ASSUMPTIONS = ['nodes are referred to, not copied, by node-valued fields', 'values delivered to events (not fields) are not claimed']

FT = ['MFFloat', 'MFInt32', 'MFString', 'MFVec3f', 'MFVec2f', 'MFColor', 'MFRotation', 'SFVec3f', 'SFColor', 'SFRotation', 'SFImage', 'MFTime',
      'SFMatrix4f', 'MFVec3d', 'SFVec2f']
DEFAULTS = {}
for _t in FT:
    _k, _c, _d = c06.TYPES[_t]
    one = {'f': 1.0, 'd': 1.0, 'i': 1, 'I': 1, 'str': 'a', 'color': 0.5}[_d]
    if _k == 'list':
        DEFAULTS[_t] = [one, one]
    elif _k == 'vec':
        DEFAULTS[_t] = [one] * _c
    else:
        DEFAULTS[_t] = [[one] * _c, [one] * _c]


def make_default(t, style):
    """(default object or _NO, model value)"""
    k, c, d = c06.TYPES[t]
    flat = DEFAULTS[t]
    if style == 0:
        if k == 'vec':
            return nodes._NO, ([0.0] * c if 'Matrix' not in t else [float(i % 5 == 0) for i in range(16)])
        return nodes._NO, []
    if style == 1:
        return ([list(x) if isinstance(x, list) else x for x in flat]), flat
    if style == 2 and d != 'str':
        a = np.array(flat, {'color': 'f'}.get(d, d))
        return (a.reshape(4, 4) if 'Matrix' in t else a), flat
    return (lambda: flat), flat


class World:
    def __init__(self, styles):
        fields, self.defaults = [], {}
        self.types = {}
        for i, t in enumerate(FT):
            d, m = make_default(t, styles[i])
            fields.append(nodes.field('f%d' % i, t, d))
            self.defaults['f%d' % i] = m
            self.types['f%d' % i] = t
        fields += [nodes.field('kids', 'MFNode')]
        self.P = nodes.proto('P', *fields)
        self.nodes, self.models, self.kept, self.forms = [], [], [], []
        self.names = sorted(self.types) + ['kids']

    def new(self, **kw):
        if len(self.nodes) >= 4:
            return
        self.nodes.append(self.P(**{k: v for k, v in kw.items()}))
        self.models.append({f: [list(x) if isinstance(x, (list, tuple)) else x for x in self.defaults.get(f, [])] for f in self.names})

    def keep(self, o):
        self.kept.append(o)
        self.forms.append(frozen(o))

    def check(self, what):
        for o, form in zip(self.kept, self.forms):
            check(frozen(o) == form, "after %s: the caller's %r has become %r", what, form, o)
        for i, (n, m) in enumerate(zip(self.nodes, self.models)):
            for f in self.names:
                got = getattr(n, f)
                if f == 'kids':
                    check([id(x) for x in got] == [id(x) for x in m[f]], 'after %s: node %d.%s is %r, not %r', what, i, f, got, m[f])
                else:
                    p = c06.problem(self.types[f], got, normal(self.types[f], m[f]))
                    check(p is None, 'after %s: node %d.%s (%s) %s, expected %r', what, i, f, self.types[f], p, m[f])


def normal(t, v):
    k, c, d = c06.TYPES[t]
    if k == 'vec':
        return tuple(v) if t in vals.TYPES else list(v)
    if k == 'veclist':
        return [tuple(x) for x in v]
    return list(v)


def container(t, v, how):
    """A container holding v that the caller can edit afterwards"""
    k, c, d = c06.TYPES[t]
    if how == 5 and d != 'str':
        # nested otherwise than the field's own shape
        if k == 'vec':
            return [list(v[:1]), [list(v[1:])]]
        if k == 'veclist':
            return [[list(x)] for x in v] if len(v) % 2 else [y for x in v for y in x]
        if d in 'fd':
            return [list(v[:1]), [list(v[1:])]] if len(v) > 1 else [[list(v)]]
    if how in (0, 5) or d == 'str':
        return [list(x) if isinstance(x, (list, tuple)) else x for x in v]
    code = {'color': 'f'}.get(d, d)
    if t == 'MFRotation':
        code = 'd'
    a = np.array(v, code)
    if 'Matrix' in t:
        a = a.reshape(4, 4)
    elif k == 'veclist':
        a = a.reshape(-1, c)
    if how == 1:
        return a
    if how == 2:
        return a.astype('d') if code != 'd' else a.astype('f')
    if how == 3:
        b = np.zeros((a.size + 6,), code)  # a view of a larger array
        b[3:3 + a.size] = a.ravel()
        return b[3:3 + a.size].reshape(a.shape)
    return a.T.copy().T if a.ndim > 1 else a[::-1].copy()[::-1]


def frozen(o):
    """What the caller's container is, in value and form"""
    if isinstance(o, np.ndarray):
        return o.shape, o.dtype.str, o.flags.writeable, o.tolist()
    if isinstance(o, list):
        return [frozen(x) for x in o]
    return id(o) if hasattr(o, '__dict__') else o


def edit_container(o, n):
    if isinstance(o, np.ndarray):
        if o.size:
            o.flat[n % o.size] = 77 + n
            if n % 3 == 0:
                o[...] = 55
    elif n % 4 == 0:
        o.append(5)
    elif n % 4 == 1 and o:
        if isinstance(o[0], list):
            o[0][0] = 9
        else:
            o[0] = 'edited' if isinstance(o[0], str) else 9
    elif n % 4 == 2:
        del o[:]
    else:
        o.reverse()
        o.extend(o)


def edit_value(t, v, m, n):
    """The same edit in place of a read value and of its model"""
    if t == 'kids':
        if n % 3 == 0 or not m:
            v.append(v_node(n))
            m.append(v[-1])
        elif n % 3 == 1:
            del v[n % len(m)]
            del m[n % len(m)]
        else:
            v[:] = v[::-1]
            m[:] = m[::-1]
        return True
    k, c, d = c06.TYPES[t]
    if d == 'str':
        if n % 3 == 0 or not m:
            v.append('z%d' % n)
            m.append('z%d' % n)
        elif n % 3 == 1:
            v[n % len(m)] = m[n % len(m)] = 'y'
        else:
            del v[:]
            del m[:]
        return True
    if not v.size:
        return False
    new = 0.25 if d == 'color' else 30 + n if d in 'iI' else 30.0 + n
    i = n % v.size
    if k == 'veclist':
        m[i // c] = list(m[i // c])
        m[i // c][i % c] = new
    else:
        m[i] = new
    v.flat[i] = new
    return True


pool = []


def v_node(n):
    from vrml.vrml97 import basenodes
    while len(pool) < 8:
        pool.append(basenodes.Box())
    return pool[n % 8]


def history(value, rec):
    from vrml import route
    styles, ops = value
    w = World(styles)
    w.new()
    stored = False
    keep = []
    for op, a, b, f, n in ops:
        name = w.names[f % len(w.names)]
        t = w.types.get(name, 'kids')
        i, j = a % len(w.nodes), b % len(w.nodes)
        node, model = w.nodes[i], w.models[i]
        if op == 'new':
            w.new()
        elif op == 'store':
            if t == 'kids':
                o = [v_node(k) for k in range(n % 4)]
                model[name] = list(o)
            else:
                m = value_of(t, n)
                o = container(t, m, b % 6)
                model[name] = [list(x) if isinstance(x, (list, tuple)) else x for x in m]
            w.keep(o)
            if n % 3 == 0:
                setattr(node, name, o)
            elif n % 3 == 1:
                getattr(w.P, name).fset(node, o)
            elif len(w.nodes) < 4:
                # by constructor
                w.new(**{name: o})
                w.models[-1][name], model[name] = model[name], None
                model[name] = snapshot(t, getattr(node, name))
            else:
                setattr(node, name, o)
            stored = True
        elif op == 'edit kept' and w.kept:
            k = b % len(w.kept)
            edit_container(w.kept[k], n)
            w.forms[k] = frozen(w.kept[k])
            rec.nt(stored)
            rec.label('edit of caller data')
        elif op == 'edit':
            if edit_value(t, getattr(node, name), model[name], n):
                rec.nt(stored)
                rec.label('edit of value')
        elif op == 'give':
            setattr(w.nodes[j], name, getattr(node, name))
            w.models[j][name] = [list(x) if isinstance(x, (list, tuple)) else x for x in model[name]]
            stored = True
            rec.label('give')
        elif op == 'route':
            if i != j and t != 'kids':
                r = route.ROUTE(source=node, sourceField=name, destination=w.nodes[j], destinationField=name)
                m = value_of(t, n)
                o = container(t, m, b % 6)
                w.keep(o)
                setattr(node, name, o)
                for k in (i, j):
                    w.models[k][name] = [list(x) if isinstance(x, (list, tuple)) else x for x in m]
                r = None  # the route lives no longer
                stored = True
                rec.label('route')
        elif op == 'del':
            if getattr(w.P, name).fhas(node):
                keep.append(getattr(node, name))
                delattr(node, name)
                model[name] = [list(x) if isinstance(x, (list, tuple)) else x for x in w.defaults.get(name, [])]
        elif op == 'default':
            # values handed out as a default
            v = getattr(w.P, name).getDefault(node) if not getattr(w.P, name).fhas(node) else getattr(node, name)
            if edit_value(t, v, model[name], n):
                rec.nt()
        elif op == 'edit old' and keep:
            o = keep[b % len(keep)]
            if isinstance(o, np.ndarray):
                if o.size:
                    o.flat[0] = 44
            else:
                o.append(v_node(n))
        w.check(op)
    # what a later node starts with
    fresh = World.__new__(World)
    fresh.__dict__.update(w.__dict__)
    fresh.nodes, fresh.models = [], []
    fresh.new()
    fresh.check('all, in a new node')


def snapshot(t, v):
    if t == 'kids':
        return list(v)
    k, c, d = c06.TYPES[t]
    if d == 'str':
        return list(v)
    if 'Matrix' in t:
        return v.ravel().tolist()
    return v.tolist()


def value_of(t, n):
    k, c, d = c06.TYPES[t]
    e = (lambda i: 's%d' % i) if d == 'str' else (lambda i: int(i)) if d in 'iI' else (lambda i: i / 16.0) if d == 'color' else (lambda i: i * 0.5)
    if k == 'vec':
        return [e((n + i) % 16) for i in range(c)]
    size = n % 5
    if k == 'list':
        return [e((n + i) % 16) for i in range(size)]
    return [[e((n + i + j) % 16) for j in range(c)] for i in range(size)]


# built-in nodes with array or list defaults of their own
BUILTIN = [('Extrusion', 'crossSection'), ('Extrusion', 'spine'), ('Extrusion', 'scale'), ('Extrusion', 'orientation'), ('FontStyle', 'family'),
           ('FontStyle', 'justify'), ('NavigationInfo', 'avatarSize'), ('NavigationInfo', 'type'), ('Background', 'skyColor'), ('Transform', 'scale'),
           ('Transform', 'children'), ('Group', 'children'), ('Material', 'diffuseColor'), ('PixelTexture', 'image'), ('Coordinate', 'point'),
           ('Switch', 'choice'), ('LOD', 'range'), ('Viewpoint', 'position'), ('PointLight', 'color'), ('IndexedFaceSet', 'coordIndex'), ('Text', 'string')]


def builtin(value, rec):
    from vrml.vrml97 import basenodes
    from harness import spec97
    which, n, how = value
    t, f = BUILTIN[which]
    ft = spec97.NODES[t][f][1]
    cls = getattr(basenodes, t)
    default = spec97.NODES[t][f][2]
    key = 'kids' if ft == 'MFNode' else ft

    def read(node):
        v = getattr(node, f)
        return [id(x) for x in v] if ft == 'MFNode' else vals.plain(ft, v)
    a, b = cls(), cls()
    if how & 1:
        read(b)
    v = getattr(a, f)
    edit_value(key, v, snapshot(key, v), n)
    edit_value(key, v, snapshot(key, v), n + 1)
    rec.nt()
    rec.label(ft)
    check(vals.same(read(b), default), '%s.%s: other node has %r instead of the default', t, f, read(b))
    check(vals.same(read(cls()), default), '%s.%s: later node has %r instead of the default', t, f, read(cls()))
    if how & 2:
        delattr(a, f)
        check(vals.same(read(a), default), '%s.%s: after deletion the value is %r instead of the default', t, f, read(a))


OP = st.tuples(st.sampled_from(['store', 'store', 'edit kept', 'edit kept', 'edit', 'edit', 'edit', 'give', 'give', 'route', 'new', 'new', 'del', 'default', 'edit old']),
               st.integers(0, 3), st.integers(0, 30), st.integers(0, len(FT)), st.integers(0, 60))
CASES = [
    Case('history', st.tuples(st.tuples(*[st.integers(0, 3)] * len(FT)), st.lists(OP, min_size=2, max_size=14)), history, 3200),
    Case('builtin', st.tuples(st.integers(0, len(BUILTIN) - 1), st.integers(0, 60), st.integers(0, 3)), builtin, 1600),
]
