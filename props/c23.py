"""C23 a prototype's fields and events are found under all their names"""
from hypothesis import strategies as st
from harness.core import Case, check

RULE = ('hierarchies of up to 6 prototypes (made with prototype(), with plain classes and with several bases) that declare fields and events under names of a small pool with set_ and _changed spellings '
        'and, for some, other storage names; histories of up to 16 additions, removals, new derived prototypes and lookups on prototypes and instances against a model of the declarations; after each '
        'step every name of the pool is looked up on every prototype and the listings are compared. builtin: every field and event of the VRML97 node table under its own, set_ and _changed names. '
        'Non-trivial: a lookup found an inherited, overridden, stripped or storage name.')
ASSUMPTIONS = ['no two declarations of a prototype share a storage name', 'names of Python methods and attributes of the classes, and of the values kept on a class itself (its root, scene graph and external URL), are not looked up',
               'where stripping set_ and stripping _changed find different fields, either is right']

BASES = ['x', 'y', 'children', 'value']
POOL = BASES + ['set_x', 'x_changed', 'set_y', 'y_changed', 'set_x_changed', 'value_changed', 'set_value', 'set_children', 'set_', '_changed', 'set_set_x', 'set_set_x_changed', 'set_y_changed', 'set_value_changed', 'x_changed_changed', 'store', ' x', ' y', 'set_ x',
                'store_changed', ' DEF', 'DEF', 'rootSceneGraph', 'set_ DEF', 'unset_x', 'x_change', 'set_nothing', 'nothing_changed', 'X']
DECLARE = ['x', 'y', 'children', 'value', 'set_x', 'x_changed', 'value_changed', 'set_set_x', 'y_changed', 'set_value', 'set_']
STORE = ['store', ' x', ' y', 'x', 'other']
TYPES = ['SFFloat', 'SFBool', 'MFString', 'SFVec3f', 'MFNode', 'SFInt32', 'SFNode', 'MFFloat']


class M:
    """Model of a class: its own declarations {attribute name: declaration object} and its linearisation"""
    def __init__(self, cls, own, models):
        self.cls, self.own = cls, own
        by = {m.cls: m for m in models}
        self.chain = [self if c is cls else by.get(c) for c in cls.__mro__]
        self.base = [c for c in cls.__mro__ if c not in by and c is not cls]
        self.instance = None

    def visible(self):
        """{attribute: declaration} as seen from here, the library's own base classes last"""
        out = {}
        for c, m in zip(self.cls.__mro__, self.chain):
            names = m.own if m is not None else base_fields(c)
            for k, v in names.items():
                out.setdefault(k, v)
        return out

    def find(self, name):
        """The acceptable answers"""
        v = self.visible()
        if name in v:
            return [v[name]]
        for event in (False, True):
            found = [d for d in v.values() if d.name == name and is_event(d) == event]
            if found:
                return found
        options = []
        if name.startswith('set_'):
            options += self.find(name[4:])
        if name.endswith('_changed'):
            options += self.find(name[:-8])
        return options

    def derived(self, other):
        return issubclass(other.cls, self.cls)


def is_event(d):
    from vrml import field
    return isinstance(d, field.Event)


def base_fields(c):
    """Declarations of the library's own base classes (not under test here, but they must stay visible)"""
    from vrml import node
    if c is node.Node:
        return {k: c.__dict__[k] for k in ('DEF', 'rootSceneGraph', 'externalURL')}
    if c is node.PrototypedNode:
        return {'scenegraph': c.__dict__['scenegraph']}
    return {}


def declare(name, kind, type_, serial):
    from vrml import field
    if kind % 3 == 2:
        return field.newEvent(name, type_, kind & 1)
    if type_ == 'SFFloat':
        return field.newField(name, type_, kind & 1, float(serial))
    return field.newField(name, type_, kind & 1)


def history(value, rec):
    from vrml import node, protofunctions as pf
    models, serial = [], [0]

    def environment(decls):
        env, stores = {}, set()
        for name, store, kind, t in decls:
            stored = store if store else name
            if name in env or stored in stores or stored in env or name in stores:
                continue
            stores.add(stored)
            serial[0] += 1
            env[name] = declare(stored, kind, TYPES[t % len(TYPES)], serial[0])
        return env

    def new(how, bases, decls):
        named = [m.cls for m in bases]
        env = environment(decls)
        name = 'P%d' % len(models)
        if how % 3 == 0 and not any(d.name != k for k, d in env.items()):
            kw = dict(baseClasses=tuple(named)) if named else {}
            cls = node.prototype(name, list(env.values()), **kw)
        elif how % 3 == 1:
            cls = type(name, tuple(named) or (node.Node,), dict(env))
        else:
            cls = type(name, tuple(named) or (node.PrototypedNode, node.Node), dict(env, PROTO=name))
        m = M(cls, env, models)
        models.append(m)

    def verify(what, names):
        for m in models:
            if m.instance is None:
                m.instance = m.cls()
            v = m.visible()
            for n in names:
                want = m.find(n)
                for target in (m.cls, m.instance):
                    try:
                        got = pf.getField(target, n)
                    except AttributeError:
                        got = None
                    check(any(got is w for w in want) if want else got is None, 'after %s: %r of %s is %s, expected %s (own %r)', what, n, m.cls.__name__, got, [str(w) for w in want], sorted(m.own))
                if n not in m.own and want:
                    rec.nt()
                    rec.label('inherited' if n in v else 'storage' if want[0].name == n else 'stripped')
            for events in (0, 1):
                want = [d for d in v.values() if is_event(d) == bool(events)]
                for target in (m.cls, m.instance):
                    got = list(pf.getFields(target, events) if events else pf.getFields(target))
                    check(sorted(map(id, got)) == sorted(map(id, want)), 'after %s: %s of %s are %s, expected %s', what, 'events' if events else 'fields', m.cls.__name__, [str(x) for x in got], [str(x) for x in want])
        for m in models:
            # on an instance the declaration in force gives the default
            for k, d in m.visible().items():
                if not is_event(d) and d.typeName() == 'SFFloat' and d.name == k:
                    m2 = m.cls()
                    check(getattr(m2, k) == d.getDefault(), 'after %s: %s of a new %s is %r, expected %r', what, k, m.cls.__name__, getattr(m2, k), d.getDefault())
                    break

    first, steps, names = value
    new(first[0], [], first[1])
    verify('start', names)
    for op, a, b, decls in steps:
        m = models[a % len(models)]
        what = '%s %r %r %r' % (op, a, b, decls)
        if op == 'derive':
            if len(models) < 6:
                bases = [m]
                o = models[b % len(models)]
                if b & 1 and not issubclass(m.cls, o.cls) and not issubclass(o.cls, m.cls):
                    bases.append(o)
                try:
                    new(b // 2, bases, decls)
                except TypeError as e:
                    # no consistent order of bases
                    if 'MRO' not in str(e) and 'method resolution' not in str(e) and 'layout' not in str(e):
                        raise
                    continue
        elif op == 'root':
            if len(models) < 6:
                new(b, [], decls)
        elif op == 'add':
            for name, store, kind, t in decls[:2]:
                if any(name == d.name and k != name for k, d in list(m.visible().items()) + [x for o in models for x in o.own.items()]):
                    continue
                serial[0] += 1
                d = declare(name, kind, TYPES[t % len(TYPES)], serial[0])
                pf.addField(m.cls if b & 1 else m.instance, d)
                m.own[name] = d
        elif op == 'remove':
            keys = sorted(k for k, d in m.own.items() if d.name == k)
            if keys:
                k = keys[b % len(keys)]
                pf.removeField(m.cls if b & 1 else m.instance, k if a & 1 else m.own[k])
                del m.own[k]
        elif op == 'removeabsent':
            # what is declared elsewhere, or nowhere, cannot be removed here
            n = BASES[b % len(BASES)]
            if n not in m.own:
                try:
                    pf.removeField(m.cls, n)
                except AttributeError:
                    pass
                else:
                    check(False, '%s: removed %r from %s, which does not declare it', what, n, m.cls.__name__)
        verify(what, names)


def builtin(value, rec):
    """The VRML97 node table: every name finds the right declaration"""
    from harness import spec97
    from vrml import field, protofunctions as pf
    from vrml.vrml97 import basenodes
    which, name = value
    t = sorted(spec97.NODES)[which % len(spec97.NODES)]
    cls = getattr(basenodes, t)
    fields, events = spec97.NODES[t], spec97.EVENTS.get(t, {})
    listed = {f.name: f for f in pf.getFields(cls)}
    for n, (kind, ft, default) in fields.items():
        names = [n]
        if 'set_' + n not in events:
            names.append('set_' + n)
        if n + '_changed' not in events:
            names.append(n + '_changed')
        for x in names:
            for target in (cls, cls()):
                f = pf.getField(target, x)
                check(isinstance(f, field.Field) and f.typeName() == ft and f.name == n and bool(f.exposure) == (kind == 'e'), '%s of %s is %s', x, t, f)
                check(listed.get(n) is f, '%s of %s: listed is %s, found is %s', x, t, listed.get(n), f)
        rec.nt(len(names) > 1)
    evs = {f.name: f for f in pf.getFields(cls, 1)}
    for n, (direction, ft) in events.items():
        f = pf.getField(cls, n)
        check(isinstance(f, field.Event) and f.typeName() == ft and f.name == n and bool(f.direction) == (direction == 'out') and evs.get(n) is f, '%s of %s is %s', n, t, f)
    check(len(listed) == len(pf.getFields(cls)) and len(evs) == len(pf.getFields(cls, 1)), 'listed twice for %s', t)
    # other names are not found
    if name not in fields and name not in events and name not in listed and name not in evs and not hasattr(cls, name):
        for x in (name, 'set_' + name, name + '_changed'):
            if hasattr(cls, x) or any(x in (f.name, 'set_' + f.name, f.name + '_changed') for f in list(listed.values()) + list(evs.values())):
                continue
            stripped = [y for y in (x[4:] if x.startswith('set_') else '', x[:-8] if x.endswith('_changed') else '') if y]
            if any(y in listed or y in evs or hasattr(cls, y) for y in stripped):
                continue
            try:
                got = pf.getField(cls, x)
            except AttributeError:
                continue
            check(False, '%r of %s is %s', x, t, got)


DECL = st.tuples(st.sampled_from(DECLARE), st.one_of(st.just(''), st.just(''), st.sampled_from(STORE)), st.integers(0, 8), st.integers(0, 7))
DECLS = st.lists(DECL, max_size=4)
STEP = st.tuples(st.sampled_from(['derive', 'derive', 'derive', 'root', 'add', 'add', 'add', 'remove', 'remove', 'removeabsent']), st.integers(0, 11), st.integers(0, 23), DECLS)
NAMES = st.lists(st.one_of(st.sampled_from(POOL), st.sampled_from(POOL[:14])), min_size=4, max_size=10, unique=True)
WORD = st.text(st.sampled_from(list('abcxyzSCT_0')), min_size=1, max_size=8)
CASES = [
    Case('history', st.tuples(st.tuples(st.integers(0, 2), DECLS), st.lists(STEP, min_size=1, max_size=16), NAMES), history, 2500),
    Case('builtin', st.tuples(st.integers(0, 60), st.one_of(WORD, st.sampled_from(['radius', 'size', 'children', 'translation', 'url', 'key', 'color', 'fraction', 'isActive', 'time']))), builtin, 800),
]
