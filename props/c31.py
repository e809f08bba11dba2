"""C31 what is dropped is freed, and is not heard of again"""
import gc, weakref
from hypothesis import strategies as st
from harness import scenes, protos, printer, nodes
from harness.core import Case, check
from props import c17

RULE = ('scenes of built-in nodes, and scenes with prototypes, Scripts and IS connections, parsed or built; up to 12 steps of reading, writing, copying, editing (assignment, deletion, in-place edits, routes, names), '
        'refused values, refused texts, observers (kept or released), node paths with matrices, cached data with dependencies, events, and removing or dropping parts. After each step, every node that the '
        'scenes do not hold any more is gone; a part kept from a dropped scene belongs to no scene, and to the one it is put under next; at the end nothing made in the case (nodes, lists, types, routes, paths, '
        'holders) is alive, the tables of observers, of cached data and of IS connections are as before, and observers that were kept hear nothing of nodes made later. Non-trivial: 5 or more nodes and 3 or more steps that did something.')
ASSUMPTIONS = ['garbage collection has run (as often as it finds something)', 'what is reachable from a scene is what its fields, names, routes, and the bodies of its instances hold']


def warm():
    """Everything the library makes once (modules, grammars, tables) is there before a case begins"""
    import importlib, pkgutil, vrml
    if WARM:
        return
    for m in pkgutil.walk_packages(vrml.__path__, 'vrml.'):
        if not m.name.endswith('_accel'):
            importlib.import_module(m.name)
    scene = scenes.parse('#VRML V2.0 utf8\nPROTO A [ field SFInt32 a 1 ] { Group { } } DEF X A { a 2 } ROUTE X.a TO X.a')
    scene.toString()
    del scene
    collect()
    gc.freeze()
    WARM.append(1)


WARM = []


def collect():
    while gc.collect():
        pass


def tables():
    from pydispatch import dispatcher
    from vrml import cache, node
    return dict(connections=len(dispatcher.connections), senders=len(dispatcher.senders), receivers=len(dispatcher.sendersBack),
                cached=len(cache.CACHE), connected=len(getattr(node, 'ISMAPS', ())))


def alive():
    """Everything of the library's kinds made since the case began (the rest is frozen)"""
    from vrml import node, olist, nodepath, cache, copier, event, field
    from vrml.vrml97 import linearise
    kinds = (node.Node, olist.OList, nodepath.NodePath, cache.CacheHolder, cache.Cache, copier.Copier, event.Event, field.Field, field.Event, linearise.Lineariser)
    return [o for o in gc.get_objects() if isinstance(o, kinds) or (isinstance(o, type) and issubclass(o, node.Node))]


class World:
    def __init__(self):
        self.scenes, self.logs, self.kept, self.paths, self.holders = [], [], [], [], []
        self.did = 0


def reachable(world):
    """Weak references to the nodes of all scenes, by identity"""
    d = Deep()
    for s in world.scenes:
        d.any(s)
    for n in world.kept:
        d.any(n)
    for p in world.paths:
        for n in p:
            d.any(n)
    return {id(n): weakref.ref(n) for n in d.nodes}


class Deep(c17.Deep):
    def scene(self, s):
        if any(s is x for x in self.values):
            return
        self.values.append(s)
        out = super().scene(s)
        # (a scene keeps the last node of each name)
        for name, n in s.defNames.items():
            if name:
                self.any(n)
        return out


def pick(world, i):
    return world.scenes[i % len(world.scenes)] if world.scenes else None


def some_node(scene, k):
    d = c17.Deep()
    d.any(scene)
    from vrml import route
    ns = [n for n in d.nodes if not isinstance(n, route.ROUTE)]
    return ns[k % len(ns)] if ns else None


def step(world, op, rec):
    from vrml.vrml97 import linearise, nodepath, basenodes
    from vrml import cache, protofunctions as pf, node as nodemodule
    what, i, k, ints = op
    scene = pick(world, i)
    if scene is None:
        return
    if what == 'write':
        [linearise.linearise, lambda s: linearise.linearise(s, linearise.minimal1), lambda s: s.toString(), lambda s: linearise.linearise(list(s.children))][k % 4](scene)
    elif what == 'copy':
        world.scenes.append(scene.copy())
    elif what == 'read':
        c17.deep(scene)
    elif what == 'edit':
        c17.edit(scene, (c17.HOWS[k % len(c17.HOWS)], ints[0] % 100, ints), rec)
    elif what == 'refuse':
        n = some_node(scene, k)
        for f in scenes.visible_fields(n) if n is not None else []:
            try:
                f.fset(n, 'not a value') if ints[0] % 2 else setattr(n, f.name, ['a', ['b']])
            except ValueError:
                pass
            if f.typeName() in ('SFString', 'MFString'):
                break
    elif what == 'text':
        text = printer.SHORT and linearise.linearise(scene)
        cut = text[:ints[0] % (len(text) + 1)] + ['', ' }', ' USE nobody', ' Nothing { }', '\nROUTE a.b TO c.d', ' ]'][k % 6]
        try:
            scenes.parse(cut)
        except Exception as e:
            # (simpleparse's error refers to its production, which is global)
            e.__traceback__ = None
            rec.label('refused text')
    elif what == 'watch':
        n = some_node(scene, k)
        if n is not None:
            log = nodes.Log(n, None)
            fs = scenes.visible_fields(n)
            if fs:
                log.watch(n, fs[ints[1] % len(fs)])
            if ints[0] % 3:
                world.logs.append(log)
                log.events = Forget()
    elif what == 'path':
        n = some_node(scene, k)
        # (the matrix of a Billboard depends on the viewer, and is the renderer's)
        kids = [n] if n is not None and not isinstance(n, basenodes.Billboard) else []
        p = [nodepath.NodePath, nodepath.WeakNodePath][ints[0] % 2]([scene] + kids)
        p.transformMatrix()
        q = p + [c for c in scene.children if not isinstance(c, basenodes.Billboard)][:2]
        q.transformMatrix(inverse=True, translate=bool(ints[1] % 2))
        if ints[2] % 3 == 0:
            p.invalidate()
        if ints[3] % 2 and isinstance(p, nodepath.NodePath):
            world.paths.append(p)
            if ints[3] % 4 == 1:
                world.paths.append(q)
    elif what == 'cache':
        n = some_node(scene, k)
        m = some_node(scene, ints[0])
        if n is not None and m is not None:
            h = cache.CACHE.holder(n, object(), ('key', k % 2))
            fs = scenes.visible_fields(m)
            if fs and m is not n:
                h.depend(m, fs[ints[1] % len(fs)])
            if ints[2] % 2:
                h.depend(m)
            if ints[3] % 3 == 0:
                world.holders.append(h)
    elif what == 'remove':
        if scene.children:
            del scene.children[k % len(scene.children)]
    elif what == 'keep':
        n = some_node(scene, k)
        if n is not None:
            world.kept.append(n)
    elif what == 'unkeep':
        del world.kept[:], world.paths[:], world.holders[:]
    elif what == 'drop':
        world.scenes.remove(scene)
        scene = None
        collect()
        kept(world, rec)
    world.did += 1
    rec.label(what)


class Forget(list):
    """A log that knows how many notices there were, but keeps none of what they are about"""
    count = 0

    def append(self, item):
        self.count += 1


def kept(world, rec):
    """Parts kept from a dropped scene have no scene"""
    from vrml import protofunctions as pf, node as nodemodule
    from vrml.vrml97 import scenegraph, basenodes
    live = c17.Deep()
    for s in world.scenes:
        live.any(s)
    for n in world.kept:
        if any(n is m for m in live.nodes) or isinstance(n, scenegraph.SceneGraph):
            continue
        root = pf.root(n)
        if not root:
            rec.label('part of a dropped scene')
            new = scenegraph.SceneGraph(children=[basenodes.Group(children=[n])])
            check(pf.root(n) is new, 'a part of a dropped scene was not adopted by the scene it was put in')
            if pf.defName(n):
                check(new.getDEF(pf.defName(n)) is n, 'the name of a part of a dropped scene is not known to the scene it was put in')


def sequence(value, rec, make):
    ops, late = value
    warm()
    before = tables()
    world = World()
    world.scenes.append(make())
    was = reachable(world)
    size = len(was)
    for op in ops:
        step(world, op, rec)
        collect()
        now = reachable(world)
        for k, r in was.items():
            n = r()
            if n is not None and k not in now:
                n = None
                check(kept_by_type(world, k), 'after %s, a node that nothing holds is alive: %r', op[0], r())
            n = None
        was = now
    rec.nt(size >= 5 and world.did >= 3)
    logs = world.logs
    world = was = now = r = n = None
    collect()
    left = alive()
    check(not left, '%d objects are alive after everything was dropped: %s', len(left), [scenes.brief(o) for o in left[:3]])
    after = tables()
    # (kept observers are in no table, as what they observed is gone)
    check(after == before, 'tables grew: %s, were %s', after, before)
    counts = [log.events.count for log in logs]
    from vrml.vrml97 import basenodes
    made = []
    for t in ('Box', 'Group', 'Transform', 'Sphere', 'Material', 'TimeSensor', 'Text', 'Viewpoint')[:2 + late % 7]:
        for i in range(6):
            n = getattr(basenodes, t)()
            made.append(n)
            for f in scenes.visible_fields(n):
                f.fset(n, f.fget(n))
    check([log.events.count for log in logs] == counts, 'an observer of a node that is gone was told of another one')


def kept_by_type(world, k):
    """Is the node one of a prototype's own (a default, or in its body), whose type is alive?"""
    from vrml import node, field
    for o in gc.get_objects():
        if isinstance(o, field.Field):
            v = getattr(o, 'defaultobj', None)
            found = c17.Deep()
            if isinstance(v, node.Node):
                found.any(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, node.Node):
                        found.any(x)
            if any(id(x) == k for x in found.nodes):
                return True
        elif isinstance(o, type) and issubclass(o, node.PrototypedNode):
            sg = o.__dict__.get(' scenegraph')
            if sg:
                found = c17.Deep()
                found.any(sg)
                if any(id(x) == k for x in found.nodes):
                    return True
    return False


def plain(value, rec):
    model, style, parsed, rest = value
    sequence(rest, rec, lambda: scenes.parse(printer.print_scene(model, [0])[0]) if parsed else scenes.build(model, style)[0])


def declared(value, rec):
    body, parsed, rest = value
    sequence(rest, rec, lambda: scenes.parse(protos.text_of(body, [0])) if parsed else protos.build(body)[0])


INTS = st.lists(st.integers(0, 50), min_size=4, max_size=4)
OPS = ['write', 'copy', 'read', 'edit', 'edit', 'edit', 'refuse', 'text', 'watch', 'watch', 'path', 'path', 'cache', 'cache', 'remove', 'keep', 'unkeep', 'drop']
STEP = st.tuples(st.sampled_from(OPS), st.integers(0, 3), st.integers(0, 40), INTS)
REST = st.tuples(st.lists(STEP, min_size=2, max_size=12), st.integers(0, 6))
CASES = [
    Case('plain', st.tuples(scenes.scenes(max_nodes=10, values=printer.SHORT), st.integers(0, 7), st.booleans(), REST), plain, 1600),
    Case('declared', st.tuples(protos.bodies(left=3, more_ties=1), st.booleans(), REST), declared, 1200),
]
