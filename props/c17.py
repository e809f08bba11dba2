"""C17 a copy equals its original and shares nothing mutable with it"""
import gc
from hypothesis import strategies as st
from harness import scenes, vals, spec97, protos, printer
from harness.core import Case, check

RULE = ('scenes of built-in nodes with sharing and routes (up to 10 nodes) and scenes with prototypes, instances, nested instances, Scripts and IS connections, built in Python or parsed, read '
        'before the copy or not; copied as scene, as single node, as several nodes with one Copier, or a copy of a copy. The deep snapshots (all fields, bodies of instances, routes, DEF names) '
        'of original and copy must be equal, no node, array or list may be common; then up to 8 edits (assignment, deletion, in-place array and list edits, new names, routes) are made to one '
        'side, leaving the other side as it was, then to the other side, after which both are equal again. Non-trivial: three or more nodes and an edit that changed more than one field or node.')
ASSUMPTIONS = ['prototypes are shared by copies', 'acyclic graphs', 'a node that is the declared default of a field belongs to the declaration until the field is read']
SIMPLE = ['Box', 'Sphere', 'Material', 'WorldInfo']


class Deep:
    """Snapshot of scenes or nodes with everything that belongs to them; nodes by number of first appearance"""
    def __init__(self):
        self.numbers, self.nodes, self.values = {}, [], []

    def node(self, n):
        from vrml import protofunctions as pf, node as nodemodule
        if n is None or n is nodemodule.NULL:
            return None
        if id(n) in self.numbers:
            return self.numbers[id(n)]
        k = self.numbers[id(n)] = len(self.nodes)
        self.nodes.append(n)
        out = [k, pf.protoName(n), type(n), pf.defName(n)]
        for f in scenes.visible_fields(n):
            out.append((f.name, self.value(f.typeName(), f.fget(n))))
        if isinstance(n, nodemodule.PrototypedNode):
            sg = pf.getSceneGraph(n)
            if sg:
                out.append(self.scene(sg))
        return out

    def value(self, ft, v):
        if ft == 'SFNode':
            return self.node(v)
        if ft == 'MFNode':
            self.values.append(v)
            return [self.node(c) for c in v]
        if hasattr(v, 'tolist') or isinstance(v, list):
            self.values.append(v)
            return v.tolist() if hasattr(v, 'tolist') else list(v)
        return v

    def scene(self, s):
        from vrml import protofunctions as pf
        children = self.value('MFNode', s.children)
        routes = [(type(r), self.node(r.source), r.sourceField, self.node(r.destination), r.destinationField) for r in s.routes]
        self.values += [s.routes]
        # (one object for each route, of its own)
        self.nodes += list(s.routes)
        defs = {k: self.node(n) for k, n in sorted(s.defNames.items()) if k and n is not None}
        return ['scene', children, routes, defs, s.baseURI, sorted(s.protoTypes), pf.defName(s)]

    def any(self, x):
        from vrml.vrml97.scenegraph import SceneGraph
        if isinstance(x, list):
            return [self.any(y) for y in x]
        return self.scene(x) if isinstance(x, SceneGraph) else self.node(x)


def difference(a, b, path=''):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %s != %s' % (path, scenes.brief(a), scenes.brief(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, '%s[%s]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        return difference(sorted(a.items()), sorted(b.items()), path)
    return None if vals.same(a, b) else '%s: %s != %s' % (path, scenes.brief(a), scenes.brief(b))


def deep(x):
    d = Deep()
    return d.any(x), d


def shared(a, b):
    """A node or value common to both snapshots"""
    import numpy as np
    ids = {id(n) for n in a.nodes}
    for n in b.nodes:
        if id(n) in ids:
            return n
    for v in a.values:
        for w in b.values:
            if v is w:
                return v
    xs = [v for v in a.values if isinstance(v, np.ndarray)]
    ys = [v for v in b.values if isinstance(v, np.ndarray)]
    for v in xs:
        for w in ys:
            if v.dtype == w.dtype and v.size and np.may_share_memory(v, w):
                return v
    return None


def new_value(ft, ints, side, leaves):
    from props.c05 import some_value
    from vrml.vrml97 import basenodes
    if ft in ('SFNode', 'MFNode'):
        def one(x):
            # the same on both sides: a new node, or one that is there
            if leaves and x % 3 == 0:
                return leaves[x % len(leaves)]
            return getattr(basenodes, SIMPLE[x % 4])()
        if ft == 'SFNode':
            return one(ints[0]) if ints[1] % 5 else None
        return [one(x) for x in ints[:ints[3] % 4]]
    return some_value(ft, ints, [None])[0]


def editable(d):
    """(node number, field) of everything in the snapshot; leaves"""
    from vrml import node as nodemodule, route
    out, leaves = [], []
    for k, n in enumerate(d.nodes):
        if isinstance(n, route.ROUTE):
            continue
        fs = [f for f in scenes.visible_fields(n) if f.typeName() in vals.TYPES or f.typeName() in ('SFNode', 'MFNode')]
        out += [(k, f.name, f.typeName()) for f in fs]
        if not any(f.typeName() in ('SFNode', 'MFNode') for f in fs) and not isinstance(n, nodemodule.PrototypedNode):
            leaves.append(n)
    return out, leaves


def edit(x, op, rec):
    """The same edit of the scene or nodes x (given by what the snapshot numbers)"""
    from vrml import protofunctions as pf
    from vrml.vrml97 import basenodes, scenegraph
    how, a, ints = op
    s, d = deep(x)
    places, leaves = editable(d)
    if how in ('name', 'route', 'child', 'unroute', 'proto'):
        if not isinstance(x, scenegraph.SceneGraph):
            return
        if how == 'name':
            if d.nodes:
                ns = [d.nodes[k] for k in sorted({p[0] for p in places})]
                if ns:
                    x.regDefName('new%d' % (ints[0] % 3), ns[a % len(ns)])
        elif how == 'route':
            vs = [p for p in places if p[2] == 'SFVec3f']
            if vs:
                p, q = vs[a % len(vs)], vs[ints[0] % len(vs)]
                if ints[3] % 3 == 0:
                    # an end that is nowhere else
                    loose = basenodes.Transform(translation=(ints[1], 1, 2))
                    ends = (loose, 'translation', d.nodes[q[0]], q[1]) if ints[1] % 2 else (d.nodes[q[0]], q[1], loose, 'set_scale')
                    x.addRoute(*ends)
                    rec.label('loose end')
                else:
                    x.addRoute(d.nodes[p[0]], p[1], d.nodes[q[0]], q[1])
        elif how == 'unroute':
            if x.routes:
                del x.routes[a % len(x.routes)]
        elif how == 'proto':
            from vrml import node
            x.addProto(node.prototype('Added%d' % (a % 2)))
        else:
            x.children.append(basenodes.Group(DEF='added'))
        return
    if not places:
        return
    wanted = {'array': lambda ft: ft in vals.CANON or ft == 'MFString', 'list': lambda ft: ft == 'MFNode'}.get(how, lambda ft: True)
    some = [p for p in places if wanted(p[2])]
    if how in ('set', 'fset') and ints[2] % 2:
        # ends of routes
        from vrml import route
        ends = []
        for n in d.nodes:
            if isinstance(n, route.ROUTE):
                for end, f in ((n.source, n.sourceField), (n.destination, n.destinationField)):
                    ends += [p for p in places if d.nodes[p[0]] is end and p[1] in (f, f.replace('set_', ''), f.replace('_changed', ''))]
        some = ends or some
    if not some:
        return
    k, f, ft = some[a % len(some)]
    n = d.nodes[k]
    field = pf.getField(n, f)
    if how == 'set':
        setattr(n, f, new_value(ft, ints, 0, leaves))
    elif how == 'fset':
        field.fset(n, new_value(ft, ints, 0, leaves))
    elif how == 'del':
        field.fget(n)
        delattr(n, f)
    elif how == 'array':
        v = field.fget(n)
        if len(v) == 0:
            field.fset(n, new_value(ft, [1, 2, 3, 4], 0, leaves))
        elif isinstance(v, list):
            v[ints[0] % len(v)] = 'edited'
        else:
            v[ints[0] % len(v)] = 1 if ints[1] % 2 else 0
    elif how == 'list':
        v = field.fget(n)
        if ints[0] % 3 == 0 and len(v):
            del v[ints[1] % len(v)]
        elif ints[0] % 3 == 1:
            v.append(new_value('SFNode', [ints[1], 1, 1, 1], 0, leaves))
        else:
            v[:] = new_value('MFNode', ints, 0, leaves)
    rec.label(how)


def compare(x, y, rec, edits, what):
    """Copy y of x: equal, disjoint, and independent under the edits"""
    a, da = deep(x)
    b, db = deep(y)
    d = difference(b, a)
    check(d is None, '%s: the copy differs: %s', what, d)
    s = shared(da, db)
    check(s is None, '%s: original and copy share %r', what, s)
    for i, (op, first) in enumerate(edits):
        one, other = (x, y) if first else (y, x)
        before = deep(other)[0]
        was = deep(one)[0]
        edit(one, op, rec)
        now = deep(other)[0]
        d = difference(now, before)
        check(d is None, '%s: edit %d of the %s changed the %s: %s', what, i, *(['original', 'copy'] if first else ['copy', 'original']), d)
        edit(other, op, rec)
        a, da = deep(x)
        b, db = deep(y)
        d = difference(b, a)
        check(d is None, '%s: after edit %d of both the copy differs: %s', what, i, d)
        rec.nt(len(da.nodes) >= 3 and changes(was, a if first else b) > 1)
    s = shared(da, db)
    check(s is None, '%s: original and copy share %r after the edits', what, s)


def changes(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return 2
        return sum(changes(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return 2 if set(a) != set(b) else sum(changes(a[k], b[k]) for k in a)
    return int(not vals.same(a, b))


def subject(scene, value, rec):
    from vrml import copier as copiermodule, node as nodemodule
    how, which, read, again, pre, edits = value
    if read:
        deep(scene)
        for op in pre:
            edit(scene, op, rec)
    classes = []
    for name in sorted(scene.protoTypes):
        cls = scene.protoTypes[name]
        from vrml import protofunctions as pf
        if pf.getSceneGraph(cls):
            classes.append(pf.getSceneGraph(cls))
    if read:
        templates = [deep(c)[0] for c in classes]
    if how % 4 == 3:
        x = scene
        y = scene.copy()
        what = 'scene'
    else:
        # nodes of the scene (its routes are not part of them)
        if how % 4 < 2:
            del scene.routes[:]
            gc.collect()
        ns = list(scene.children)
        for n in ns if read else []:
            for f in scenes.visible_fields(n):
                if f.typeName() in ('SFNode', 'MFNode'):
                    v = f.fget(n)
                    ns += [c for c in (v if f.typeName() == 'MFNode' else [v]) if c and all(c is not y for y in ns)]
        if not ns:
            x, y, what = scene, scene.copy(copiermodule.Copier()), 'scene'
        elif how % 4 == 0:
            x = ns[which % len(ns)]
            y, what = x.copy(), 'node'
        elif how % 4 == 1:
            c = copiermodule.Copier()
            x = [ns[which % len(ns)], ns[(which // 7) % len(ns)]]
            y, what = [n.copy(c) for n in x], 'two nodes'
            check((x[0] is x[1]) == (y[0] is y[1]), 'a Copier made two copies of one node')
        else:
            x, y, what = scene, scene.copy(copiermodule.Copier()), 'scene'
    rec.label(what)
    if again and what == 'scene':
        x, y = y, y.copy()
    compare(x, y, rec, edits, what)
    if what == 'scene':
        for name in sorted(y.protoTypes):
            if not name.startswith('Added'):
                check(y.protoTypes[name] is scene.protoTypes.get(name), 'prototype %s', name)
    if read:
        for c, t in zip(classes, templates):
            d = difference(deep(c)[0], t)
            check(d is None, 'a declaration changed: %s', d)


def plain(value, rec):
    model, style, parsed, rest = value
    if parsed:
        scene = scenes.parse(printer.print_scene(model, [0])[0])
    else:
        scene, defs = scenes.build(model, style)
    subject(scene, rest, rec)


def declared(value, rec):
    body, parsed, rest = value
    if parsed:
        scene = scenes.parse(protos.text_of(body, [0]))
    else:
        scene, ties = protos.build(body)
    subject(scene, rest, rec)


INTS = st.lists(st.integers(-50, 50), min_size=4, max_size=4)
HOWS = ['set', 'set', 'set', 'fset', 'fset', 'del', 'array', 'array', 'list', 'list', 'name', 'route', 'unroute', 'child', 'proto']
OP = st.tuples(st.sampled_from(HOWS), st.integers(0, 200), INTS)
REST = st.tuples(st.integers(0, 7), st.integers(0, 100), st.booleans(), st.booleans(), st.lists(OP, max_size=3), st.lists(st.tuples(OP, st.booleans()), min_size=1, max_size=8))
CASES = [
    Case('plain', st.tuples(scenes.scenes(max_nodes=10, values=printer.SHORT), st.integers(0, 7), st.booleans(), REST), plain, 3000),
    Case('declared', st.tuples(protos.bodies(left=3, node_defaults=False, more_ties=1), st.booleans(), REST), declared, 1600),
]
