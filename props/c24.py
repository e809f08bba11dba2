"""C24 writing a scene is repeatable and changes nothing"""
from hypothesis import strategies as st
from harness import scenes, vals, protos, printer
from harness.core import Case, check
from props import c17

RULE = ('random scenes of built-in nodes (shared nodes, routes, routed nodes without names, nodes shared without names, names like those the writer makes up, also ones given up since) and scenes with declarations, instances, '
        'Scripts and IS, built in Python or parsed, never read before or read in full; written as scene, as node and as list of nodes, twice, with other options in between, after a write that fails midway, '
        'and as twin built the same way; with the defaults, minimal1 and random values of all eight options. Texts must be equal, the deep snapshots (with prototype bodies, declarations, routes, names and the option '
        'dictionaries) too except for new names of routed nodes, no signal is sent except for those; every text is read again and compared with the scene. naming: names (known to the scene, not known to it, given up) of the kind that the writer makes, nested nodes, and routes, of which each joins the same nodes in the text. Non-trivial: two or more nodes.')
ASSUMPTIONS = ['names of prototypes are unique', 'acyclic graphs', 'separators are of blanks, commas and line ends, and ones that follow a comment have a line end']

OPTIONS = dict(indent=['', ' ', '\t', '    ', ' \t'], numsep=[',', ' ', ', ', '\n', '  ', ' , '], subelspacer=[', ', ' ', ',\n', '\n', ','], courtesyspace=['', ' ', '  '],
               full_element_separator=['\n', '\r\n', '\n\n', ' \n', '\n ', '\r'], mffieldsep=['\n', ' ', ', ', '\r\n'], EndComments=[0, 1, 2, 10, 10000, None])
ORDER = sorted(OPTIONS)


def options(ints):
    """(base dictionary, named options)"""
    from vrml.vrml97 import linearise
    base = [linearise.defaults, linearise.minimal1][ints[0] % 2]
    named = {}
    for name, i in zip(ORDER, ints[1:]):
        if i:
            v = OPTIONS[name][i % len(OPTIONS[name])]
            if v is not None:
                named[name] = v
    return base, named


def write(x, base=None, named={}):
    from vrml.vrml97 import linearise
    return linearise.linearise(x) if base is None else linearise.linearise(x, base, **named)


def failing():
    """A scene whose writing fails midway"""
    from vrml import node, fieldtypes
    from vrml.vrml97 import basenodes, scenegraph

    class Refusing(fieldtypes.SFString):
        def vrmlstr(self, value, lineariser=None):
            raise RuntimeError('refused')

    class Wrong(node.Node):
        PROTO = 'Wrong'
        x = Refusing('x', 1, '')
    return scenegraph.SceneGraph(children=[basenodes.Group(children=[basenodes.Transform(children=[basenodes.Box(size=(1, 2, 3)), Wrong(x='a')])])])


def everything(scene):
    """(snapshot of all that the scene has, the nodes by number)"""
    from vrml import protofunctions as pf, node as nodemodule
    d = c17.Deep()
    out = [d.scene(scene)]
    todo, done = [scene], set()
    while todo:
        s = todo.pop()
        if id(s) in done:
            continue
        done.add(id(s))
        for name, cls in sorted(s.protoTypes.items()):
            if not (isinstance(cls, type) and issubclass(cls, nodemodule.PrototypedNode)):
                continue  # (built-in)
            out.append((name, cls.__name__, [(type(f), f.name, f.typeName(), d.value(f.typeName(), f.getDefault()) if hasattr(f, 'getDefault') and not hasattr(f.getDefault(), '__get__') else None)
                                             for f in sorted(pf.getFields(cls, events=0), key=lambda f: f.name) if f.name != 'externalURL']))
            out.append(sorted((f.name, f.typeName()) for f in pf.getFields(cls, events=1)))
            out.append(sorted((k, [(d.node(n), f) for n, f in v]) for k, v in nodemodule.ismaps(cls).items()))
            sub = pf.getSceneGraph(cls)
            if sub:
                out.append(d.scene(sub))
                todo.append(sub)
    return out, d


def unchanged(before, after, fresh, what):
    """fresh: numbers of the nodes that may have got a name"""
    def clean(x):
        if isinstance(x, list) and len(x) >= 4 and isinstance(x[0], int) and isinstance(x[1], str) and isinstance(x[2], type) and x[0] in fresh:
            return [clean(y) for y in x[:3]] + ['*'] + [clean(y) for y in x[4:]]
        if isinstance(x, dict):
            return {k: v for k, v in x.items() if v not in fresh}
        if isinstance(x, (list, tuple)):
            return type(x)([clean(y) for y in x])
        return x
    d = c17.difference(clean(before), clean(after))
    check(d is None, '%s changed the scene: %s', what, d)


def make(value):
    """(scene, routed nodes without names, whether nodes without name are shared)"""
    kind, model, layout, style, strip = value
    from vrml import protofunctions as pf
    from vrml.vrml97 import scenegraph
    if kind == 'protos':
        scene = protos.build(model)[0] if style & 1 else scenes.parse(protos.text_of(model, layout))
        return scene, [], False
    real, defs = scenes.build(dict(children=model['children'], routes=[]), style)
    scene = scenegraph.SceneGraph(children=list(real.children))
    routed = {n for r in model['routes'] for n in (r[0], r[2])}
    uses = repr(model)
    shared = False
    for i, name in enumerate(sorted(defs)):
        s = strip[i % len(strip)]
        if s == 1 and name in routed or s == 2:
            pf.defName(defs[name], '')
            if name not in routed and repr(('USE', name)) in uses:
                shared = True
        elif s == 3:
            # a name the writer might make up
            scene.regDefName('%s_%d' % (pf.protoName(defs[name]), i % 2), defs[name])
        elif s == 5:
            # one that the node had before, and by which the scene still finds it
            scene.regDefName('%s_%d' % (pf.protoName(defs[name]), i % 2), defs[name])
            pf.defName(defs[name], 'late%d' % i)
        else:
            scene.regDefName(name, defs[name])
    for s, sf, d, df in model['routes']:
        scene.addRoute((defs[s], sf, defs[d], df))
    nameless = []
    for s, sf, d, df in model['routes']:
        for n in (defs[s], defs[d]):
            if not pf.defName(n) and not any(n is m for m in nameless):
                nameless.append(n)
    return scene, nameless, shared


def nodes_of(scene):
    out = []

    def add(n):
        from vrml import node
        if n is not None and n is not node.NULL:
            out.append(n)
            for f in scenes.visible_fields(n):
                if f.typeName() in ('SFNode', 'MFNode'):
                    v = f.fget(n)
                    for c in v if f.typeName() == 'MFNode' else [v]:
                        add(c)
    for c in scene.children:
        add(c)
    return out


def repeat(value, rec):
    subject, opts, other, between, read_first = value
    from pydispatch import dispatcher
    from vrml import protofunctions as pf
    from vrml.vrml97 import linearise
    scene, nameless, shared = make(subject)
    rec.label(subject[0])
    rec.label('routed without name', bool(nameless))
    rec.label('shared without name', shared)
    base, named = options(opts)
    kept = [dict(linearise.defaults), dict(linearise.minimal1)]
    sent = []

    def receiver(signal, sender):
        sent.append((signal, sender))
    before, d = everything(scene) if read_first else (None, None)
    own = dict(base)
    dispatcher.connect(receiver, signal=dispatcher.Any, sender=dispatcher.Any)
    try:
        if between & 7 == 7:
            # descriptions for people are no change either
            for n in nodes_of(scene):
                check(repr(n) == repr(n) and str(n), 'no description of a %s', pf.protoName(n))
                for f in scenes.visible_fields(n):
                    if f.name in n.__dict__:
                        check(f.name in repr(n), 'the set field %s is not in %r', f.name, n)
        first = write(scene, own, named)
    finally:
        dispatcher.disconnect(receiver, signal=dispatcher.Any, sender=dispatcher.Any)
    for signal, sender in sent:
        check(any(sender is n for n in nameless), 'writing sent %r from %r', signal, sender)
        check(isinstance(signal, tuple) and getattr(signal[-1], 'name', None) in (' DEF', ' root'), 'writing sent %r from %r', signal, sender)
    for n in nameless:
        check(pf.defName(n), 'the routed %s has no name after writing', pf.protoName(n))
        check(scene.getDEF(pf.defName(n)) is n, 'the new name %r is not that of the node', pf.defName(n))
    after, d2 = everything(scene)
    rec.nt(len(d2.nodes) >= 2)
    if before is not None:
        fresh = {i for i, n in enumerate(d.nodes) if any(n is m for m in nameless)}
        check(len(d.nodes) == len(d2.nodes) and all(a is b for a, b in zip(d.nodes, d2.nodes)), 'writing changed which nodes there are')
        unchanged(before, after, fresh, 'writing')
    check(own == base, 'writing changed the given options to %r', own)
    check([linearise.defaults, linearise.minimal1] == kept, 'writing changed the default options')
    # names are of one node each
    all_defs = {}
    for n in nodes_of(scene):
        if pf.defName(n):
            check(all_defs.setdefault(pf.defName(n), n) is n or subject[0] == 'protos', 'the name %r given to two nodes', pf.defName(n))
    if between & 1:
        write(scene, *options(other))
    if between & 2:
        try:
            write(failing(), *options(other))
        except RuntimeError:
            pass
        else:
            check(False, 'the failing write did not fail')
    if between & 4:
        write(make(subject)[0])
    if between & 8:
        scene.toString()
    if between & 16:
        write(list(scene.children), *options(other))
    sent = []
    dispatcher.connect(receiver, signal=dispatcher.Any, sender=dispatcher.Any)
    try:
        second = write(scene, base, named)
    finally:
        dispatcher.disconnect(receiver, signal=dispatcher.Any, sender=dispatcher.Any)
    check(first == second, 'written again:\n%s\n---- first:\n%s', second, first)
    check(not sent, 'writing again sent %r', sent)
    last, d3 = everything(scene)
    unchanged(after, last, set(), 'writing again')
    check([linearise.defaults, linearise.minimal1] == kept, 'writing changed the default options')
    twin = write(make(subject)[0], base, named)
    check(twin == first, 'a scene built the same way is written as\n%s\n---- not:\n%s', twin, first)


def expand(n):
    """The node in full, without names, nodes repeated where they are shared"""
    from vrml import protofunctions as pf, node as nodemodule
    if n is None or n is nodemodule.NULL:
        return None
    out = [pf.protoName(n)]
    for f in scenes.visible_fields(n):
        v, t = f.fget(n), f.typeName()
        out.append((f.name, t, expand(v) if t == 'SFNode' else [expand(c) for c in v] if t == 'MFNode' else vals.plain(t, v) if t in vals.TYPES else v))
    return out


def layout(value, rec):
    """Whatever the options, the text describes the scene"""
    subject, opts, form = value
    scene, nameless, shared = make(subject)
    rec.label(subject[0])
    rec.label('form %d' % form)
    rec.label('shared without name', shared)
    base, named = options(opts)
    if form == 0:
        text = write(scene, base, named)
    elif form == 1:
        text = write(list(scene.children), base, named)
    elif form == 2:
        text = write(tuple(scene.children), dict(base, **named))
    else:
        if not len(scene.children):
            return
        text = write(scene.children[0], base, named)
    try:
        again = scenes.parse(text)
    except Exception as e:
        check(False, 'the text cannot be read: %r\n%s', e, text)
    here = list(scene.children)[:1 if form == 3 else None]
    rec.nt(len(nodes_of(scene)) >= 2)
    a, b = [expand(n) for n in here], [expand(n) for n in again.children]
    d = c17.difference(a, b)
    check(d is None, 'options %r %r: the text describes another scene: %s\n%s', sorted(base.items()), named, d, text)
    if form == 0 and not shared:
        d = protos.diff(protos.snapshot(again), protos.snapshot(scene))
        check(d is None, 'options %r %r: the text describes another scene: %s\n%s', sorted(base.items()), named, d, text)


NAMING = ['', '', 'TimeSensor_0', 'TimeSensor_1', 'Fog_0', 'Fog_1', 'TimeSensor_2', 'own', 'Fog', 'TimeSensor_']


def naming(value, rec):
    """Routed nodes get names that no other node of the scene has, however it came by them"""
    specs, routes, twice = value
    from vrml import protofunctions as pf
    from vrml.vrml97 import basenodes, scenegraph, linearise
    scene = scenegraph.SceneGraph()
    made, used, groups, stale = [], set(), [], {}
    for i, (kind, name, how, where) in enumerate(specs):
        n = [basenodes.TimeSensor, basenodes.Fog][kind]()
        setattr(n, 'cycleInterval' if kind == 0 else 'visibilityRange', float(i + 1))
        if name in used:
            name = ''
        used.add(name)
        if name and how == 0:
            # (known when it is put into the scene by assignment)
            n.DEF = name
        home = scene
        if where >= 3:
            # (in a field that holds one node)
            home = basenodes.Shape()
            if where == 3:
                scene.children.append(home)
            home.geometry = n
            if where == 4:
                scene.children.append(home)
        elif where:
            home = groups[-1] if groups and where == 2 else basenodes.Group()
            if home not in groups:
                scene.children.append(home)
                groups.append(home)
        if where >= 3:
            pass
        elif how & 1:
            home.children = list(home.children) + [n]
        else:
            home.children.append(n)
        if name and how == 1:
            scene.regDefName(name, n)
        elif name and how == 2:
            n.DEF = name
        elif name and how == 3:
            scene.regDefName(name, n)
            n.DEF = 'late%d' % i
        elif name and how == 4:
            pf.root(n, scene)
            pf.defName(n, name)
        made.append((n, kind, home))
    nameless = {i for i, (n, kind, home) in enumerate(made) if not n.DEF}
    want = {i: n.DEF for i, (n, kind, home) in enumerate(made)}
    registry = dict(scene.defNames)
    wired = []
    for a, b, r in routes:
        s, d = a % len(made), b % len(made)
        f = [lambda k: ['startTime', 'startTime'][0] if k == 0 else 'fogType', lambda k: 'loop' if k == 0 else 'color'][r](made[s][1])
        g = [lambda k: 'stopTime' if k == 0 else 'fogType', lambda k: 'enabled' if k == 0 else 'color'][r](made[d][1])
        scene.addRoute(made[s][0], f, made[d][0], g)
        wired.append((s, f, d, g))
    texts = [linearise.linearise(scene) for i in range(1 + twice)]
    check(len(set(texts)) == 1, 'two texts differ:\n%s\n----\n%s', texts[0], texts[-1])
    routed = {i for s, f, d, g in wired for i in (s, d)}
    rec.nt(bool(routed & nameless) and any(n.DEF for n, kind, home in made))
    rec.label('name made', bool(routed & nameless))
    rec.label('name that would be made is taken', bool(routed & nameless) and any(want.values()))
    for i, (n, kind, home) in enumerate(made):
        if i in routed & nameless:
            check(n.DEF and scene.getDEF(n.DEF) is n, 'routed node %d has the name %r', i, n.DEF)
        else:
            check(n.DEF == want[i], 'the name of node %d is %r, was %r', i, n.DEF, want[i])
    names = [n.DEF for n, kind, home in made if n.DEF]
    check(len(set(names)) == len(names), 'a name of two nodes: %r\n%s', names, texts[0])
    for name, n in registry.items():
        check(not name or scene.getDEF(name) is n, 'the scene finds %r for %r, it was %r', scene.getDEF(name), name, n)
    again = scenes.parse(texts[0])

    def key(n):
        return int(n.cycleInterval if pf.protoName(n) == 'TimeSensor' else n.visibilityRange) - 1
    got = [(key(r.source), r.sourceField, key(r.destination), r.destinationField) for r in again.routes]
    check(got == wired, 'routes %r, were %r\n%s', got, wired, texts[0])


SUBJECT = st.one_of(
    st.tuples(st.just('plain'), scenes.scenes(values=printer.SHORT), st.just([0]), st.integers(0, 7), st.lists(st.integers(0, 4), min_size=1, max_size=8)),
    st.tuples(st.just('plain'), scenes.scenes(values=printer.SHORT, max_nodes=6, depth=2), st.just([0]), st.integers(0, 7), st.just([1])),
    st.tuples(st.just('protos'), protos.bodies(), printer.LAYOUT, st.integers(0, 1), st.just([0])))
STALE = st.tuples(st.just('plain'), scenes.scenes(values=printer.SHORT, max_nodes=6, depth=2), st.just([0]), st.integers(0, 7), st.lists(st.sampled_from([1, 5]), min_size=1, max_size=8))
INTS = st.tuples(*[st.integers(0, 1)] + [st.integers(0, 6)] * len(ORDER))

CASES = [
    Case('repeat', st.tuples(st.one_of(SUBJECT, SUBJECT, STALE), INTS, INTS, st.integers(0, 31), st.booleans()), repeat, 1000),
    Case('naming', st.tuples(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(NAMING), st.integers(0, 4), st.integers(0, 4)), min_size=2, max_size=7),
                             st.lists(st.tuples(st.integers(0, 6), st.integers(0, 6), st.integers(0, 1)), min_size=1, max_size=4), st.integers(0, 1)), naming, 1500),
    Case('layout', st.tuples(SUBJECT, INTS, st.integers(0, 3)), layout, 1000),
]
