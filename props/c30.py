"""C30 every registered field type works by name: defaults, storing, events, text"""
import numpy as np
from hypothesis import strategies as st
from harness import nodes, scenes, spec97, vals, printer
from harness.core import Case, check

RULE = ('a type of the 41 (20 of VRML97, 21 extensions: unsigned, single precision lists, double precision, 4-vectors, matrices, arrays of any shape) and generated values: '
        'a node type with a field, an event and a second field of it made by name; defaults, stored form, events, copies, text written and read, texts printed independently and read. '
        'Non-trivial: the value is not the default.')
ASSUMPTIONS = ['arrays have no structured element type and no dimension of size 0 but the first', 'text holds finite numbers only']

vals.extend()
VALUES = dict(printer.VALUES, **{t: vals.VALUES[t] for t in vals.EXTENDED})
TYPES = sorted(vals.TYPES) + ['SFNode', 'MFNode']
MODEL = st.sampled_from([None, ('N', 'Box', None, [('size', (1.0, 2.0, 3.0))]), ('N', 'Group', 'g', []), ('N', 'Switch', None, [('whichChoice', 2)])])


def _value(t):
    if t == 'SFNode':
        return MODEL
    if t == 'MFNode':
        return st.lists(MODEL.filter(bool), max_size=3)
    return VALUES[t]


def default_of(t):
    """The value of a new node's field that was declared without a default"""
    if t == 'SFNode':
        return None
    if t == 'MFNode':
        return []
    kind, count, dt = vals.TYPES[t]
    if kind == 'scalar':
        return '' if dt == 'str' else 0
    if kind == 'vec':
        if 'Matrix' in t:
            n = {9: 3, 16: 4}[count]
            return tuple(1.0 if i % (n + 1) == 0 else 0.0 for i in range(count))
        return (0.0,) * count
    return []


def read(t, node, f='x'):
    v = getattr(node, f)
    if t in ('SFNode', 'MFNode'):
        return scenes.Snap().value(t, v)
    p = vals.extended_problem(t, v) if t in vals.EXTENDED else vals.canonical_problem(t, v)
    check(p is None, '%s: the value %s', t, p)
    return vals.plain(t, v)


def model_of(t, v):
    """What read() gives for the abstract value"""
    if t == 'SFNode':
        return scenes.expected(dict(children=[v], routes=[]))['children'][0]
    if t == 'MFNode':
        return scenes.expected(dict(children=v, routes=[]))['children']
    return vals.norm(t, v)


def real(t, v):
    if t == 'SFNode':
        return scenes.build(dict(children=[v], routes=[]))[0].children[0] if v else None
    if t == 'MFNode':
        return list(scenes.build(dict(children=v, routes=[]))[0].children)
    kind, count, dt = vals.TYPES[t]
    if kind == 'array':
        return np.array(v, dt)
    if 'Matrix' in t and kind == 'veclist':
        return [x for row in v for x in row]
    return scenes.give(t, v)


def same(t, a, b):
    return a == b if t in ('SFNode', 'MFNode') else vals.same(a, b)


def typed(value, rec):
    from vrml import field, fieldtypes, node, copier
    from vrml.vrml97 import linearise, scenegraph
    t, v, w, exposure, direction, layout, compact = value
    rec.label(t)
    # by name
    f = field.newField('x', t, exposure)
    e = field.newEvent('e', t, direction)
    for made, table, base in ((f, field.baseFieldTypes, field.Field), (e, field.baseEventTypes, field.Event)):
        check(type(made) is table[t], '%s made a %s', t, type(made))
        check(isinstance(made, base), '%s made a %s', t, type(made))
        check(made.typeName() == t, '%s calls itself %s', t, made.typeName())
    check(not isinstance(f, field.Event) and not isinstance(e, field.Field), '%s: fields are not events, nor the other way', t)
    check((f.name, f.exposure, e.name, e.direction) == ('x', exposure, 'e', direction), '%s: made with %r', t, (f.name, f.exposure, e.name, e.direction))
    for cls in (field.baseFieldTypes[t],):
        f2 = field.newField('x', cls, exposure)
        check(type(f2) is type(f), 'newField by class made a %s', type(f2))
    e2 = e.clone()
    check((type(e2), e2.name, e2.direction) == (type(e), 'e', direction) and e2 is not e, 'a clone of the event is %r', (type(e2), e2.name, e2.direction))
    e2 = e.clone(name='other', direction=1 - direction)
    check((type(e2), e2.name, e2.direction) == (type(e), 'other', 1 - direction), 'a clone of the event is %r', (type(e2), e2.name, e2.direction))
    # a type with it
    if t in ('SFNode', 'MFNode'):
        y = field.newField('y', t, exposure, node.NULL if t == 'SFNode' else list)
    else:
        y = field.newField('y', t, exposure, real(t, w))
    T = node.prototype('T', [f, y, e])
    want0 = model_of(t, default_of(t))
    wanty = want0 if t in ('SFNode', 'MFNode') else model_of(t, w)
    want = model_of(t, v)
    rec.nt(not same(t, want, want0))
    a, b = T(), T()
    for n in (a, b):
        got = read(t, n)
        check(same(t, got, want0), 'the default of %s is %r, not %r', t, got, want0)
        got = read(t, n, 'y')
        check(same(t, got, wanty), 'the default given to a %s field is %r, not %r', t, got, wanty)
    # each node has its own
    if isinstance(a.x, np.ndarray) and a.x.size:
        a.x[...] = 7
        check(same(t, read(t, b), want0), '%s: an edit of one node\'s default is seen in another', t)
        check(same(t, read(t, T()), want0), '%s: an edit of one node\'s default is seen in a new one', t)
    elif isinstance(a.x, list) and t != 'MFNode':
        a.x.append('q')
        check(same(t, read(t, b), want0), '%s: an edit of one node\'s default is seen in another', t)
    n = T(x=real(t, v))
    got = read(t, n)
    check(same(t, got, want), 'stored as %r, expected %r', got, want)
    n.e = real(t, v)
    if t not in ('SFNode', 'MFNode'):
        # the event type handles the same values
        p = vals.extended_problem(t, e.coerce(real(t, v))) if t in vals.EXTENDED else vals.canonical_problem(t, e.coerce(real(t, v)))
        check(p is None, '%s: what the event makes of it %s', t, p)
    # a copy has its own
    m = n.copy(copier.Copier())
    got = read(t, m)
    check(same(t, got, want), 'copied as %r, expected %r', got, want)
    if isinstance(m.x, np.ndarray) and m.x.size:
        m.x[...] = 3
        check(same(t, read(t, n), want), '%s: an edit of the copy is seen in the original', t)
    # its text
    scene = scenegraph.SceneGraph(children=[n, T()])
    text = linearise.linearise(scene, linearise.minimal1) if compact else linearise.linearise(scene)
    back = scenes.parse(text)
    check(len(back.children) == 2, '%d nodes came back\n%s', len(back.children), text)
    first, second = back.children
    tn = [q.typeName() for q in (type(first).x, type(first).y)]
    check(tn == [t, t], 'fields come back as %s\n%s', tn, text)
    for node_, field_, expected in ((first, 'x', want), (first, 'y', wanty), (second, 'x', want0), (second, 'y', wanty)):
        got = read(t, node_, field_)
        check(same(t, got, expected), '%s comes back as %r, expected %r\n%s', field_, got, expected, text)
    # independent text
    p = printer.Printer(layout)
    p.word('PROTO')
    p.word('T')
    p.punct('[')
    for name in 'xy':
        p.word('exposedField' if exposure else 'field')
        p.word(t)
        p.word(name)
        p.value(t, w)
    p.word('eventOut' if direction else 'eventIn')
    p.word(t)
    p.word('e')
    p.punct(']')
    p.punct('{')
    p.punct('}')
    p.word('T')
    p.punct('{')
    p.word('x')
    p.value(t, v)
    p.punct('}')
    text = printer.frame(p, p.out)
    back = scenes.parse(text)
    check(len(back.children) == 1, '%d nodes came back\n%s', len(back.children), text)
    n = back.children[0]
    for field_, expected in (('x', want), ('y', model_of(t, w))):
        got = read(t, n, field_)
        check(same(t, got, expected), '%s read as %r, expected %r\n%s', field_, got, expected, text)
    ev = type(n).e
    check((ev.typeName(), ev.direction) == (t, direction), 'the event is read as %s %s\n%s', ev.typeName(), ev.direction, text)


def _case(t):
    return st.tuples(st.just(t), _value(t), _value(t), st.integers(0, 1), st.integers(0, 1), printer.LAYOUT, st.booleans())


CASES = [
    Case('typed', st.sampled_from(TYPES).flatmap(_case), typed, 3000),
]
