"""C01 write -> parse gives the same scene"""
from hypothesis import strategies as st
from harness import scenes, vals, spec97, protos
from harness.core import Case, check

RULE = ('random scene graphs of built-in node types (up to 12 nodes, depth 3, random subsets of fields over all 20 field types, '
        'lists up to 250 entries, DEF/USE sharing, routes), written in random formatting options and re-read; single nodes, node '
        'lists and one-field nodes of every type likewise; trees of up to 160 nodes, up to 50 deep, with sharing and routes; scenes in which some shared nodes have no name; routed nodes without names among nodes named as the writer would name them. Non-trivial: at least 3 nodes, or a shared node, a route, or a list/string value.')
ASSUMPTIONS = ['DEF names are legal VRML97 identifiers, unique in the scene', 'a node without a name that is used more than once is read as as many nodes (with the named nodes below it shared)',
               'nodes are nested at most 50 deep (beyond about 130 (known findings) Python\'s recursion limit ends writing and parsing)', 'numbers are finite; snapshots are read through field objects of the library (getFields, fget)']


def stats(model, rec):
    nodes = scenes.all_nodes(model)
    text = repr(model)
    rec.label('route', bool(model['routes']))
    rec.label('shared node', "'USE'" in text)
    rec.label('depth>=2', len(nodes) >= 3)
    rec.label('long list', any(isinstance(v, list) and len(v) > 30 for n in nodes for f, v in n[3]))
    rec.label('string', any(isinstance(v, str) and v for n in nodes for f, v in n[3]))
    rec.nt(len(nodes) >= 3 or bool(model['routes']) or "'USE'" in text or
           any(isinstance(v, (list, str)) and v for n in nodes for f, v in n[3]))


def roundtrip(value, rec):
    model, style, compact = value
    stats(model, rec)
    scene, defs = scenes.build(model, style)
    want = scenes.expected(model)
    d = scenes.diff(scenes.snapshot(scene), want)
    check(d is None, 'the built scene is not the described one: %s', d)
    text = write(scene, compact)
    again = scenes.parse(text)
    d = scenes.diff(scenes.snapshot(again), want)
    check(d is None, 're-read scene differs: %s\n%s', d, text)
    for name, n in defs.items():
        got = again.getDEF(name)
        check(got is not None and got.DEF == name, 'DEF %r lost\n%s', name, text)


def anonymous(value, rec):
    """Shared nodes without names are read as so many nodes, named ones below them as one"""
    model, style, compact, keep = value
    scene, defs = scenes.build(model, style)
    routed = {n for r in model['routes'] for n in (r[0], r[2])}
    gone = [n for i, n in enumerate(sorted(defs)) if n not in routed and not keep >> i & 1]
    for name in gone:
        del scene.defNames[name]
        defs[name].DEF = ''
    rec.nt(any("('USE', %r)" % n in repr(model) for n in gone))
    want = protos.Snap().body(scene)
    text = write(scene, compact)
    got = protos.Snap().body(scenes.parse(text))
    d = protos.diff(got, want)
    check(d is None, 're-read scene differs: %s\n%s', d, text)
    # named nodes are one
    check(named_nodes(scenes.parse(text)) == named_nodes(scene), 'sharing of named nodes was lost:\n%s', text)


def named_nodes(scene):
    """The names of all nodes, once for each node"""
    seen, out, todo = set(), [], list(scene.children)
    while todo:
        n = todo.pop()
        if not n or id(n) in seen:
            continue
        seen.add(id(n))
        if n.DEF:
            out.append(n.DEF)
        for f in scenes.visible_fields(n):
            if f.typeName() == 'SFNode':
                todo.append(f.fget(n))
            elif f.typeName() == 'MFNode':
                todo.extend(f.fget(n))
    return sorted(out)


def write(value, compact):
    from vrml.vrml97 import linearise
    if compact:
        return linearise.linearise(value, linearise.minimal1)
    return linearise.linearise(value)


def partial(value, rec):
    """A single node, or a list of nodes"""
    model, as_list, compact = value
    model = dict(model, routes=[])
    stats(model, rec)
    scene, defs = scenes.build(model, 0)
    nodes = list(scene.children)
    del scene.children[:]
    want = scenes.expected(model)['children']
    if as_list:
        text = write(nodes if as_list == 1 else tuple(nodes), compact)
    else:
        text, want = write(nodes[0], compact), want[:1]
    again = scenes.parse(text)
    d = scenes.diff([c for c in scenes.snapshot(again)['children']], want)
    check(d is None, 're-read nodes differ: %s\n%s', d, text)


def single(value, rec):
    """Every field of every type with every kind of value, alone"""
    t, f, v, compact = value
    model = dict(children=[('N', t, None, [(f, v)])], routes=[])
    rec.nt(isinstance(v, (list, str, tuple)) or spec97.NODES[t][f][2] != v)
    rec.label(spec97.NODES[t][f][1])
    scene, defs = scenes.build(model, 4)
    want = scenes.expected(model)
    text = write(scene.children[0], compact) if compact & 2 else write(scene, compact & 1)
    d = scenes.diff(scenes.snapshot(scenes.parse(text)), want)
    check(d is None, 're-read node differs: %s\n%s', d, text)


UTYPES = ['Transform', 'Group', 'TimeSensor', 'PositionInterpolator', 'Viewpoint', 'Switch']
UNAMES = [t + '_%d' % i for t in UTYPES[:4] for i in range(3)] + ['other', 'Transform', 'Group_01', 'TimeSensor_']


def unnamed(value, rec):
    """Routed nodes without names are given names that no other node has"""
    from vrml.vrml97 import basenodes, scenegraph
    spec, routes, style, compact = value
    real, names = [], set()
    top = []
    for t, parent, name in spec:
        node = getattr(basenodes, UTYPES[t])()
        if name is not None and UNAMES[name % len(UNAMES)] not in names:
            node.DEF = UNAMES[name % len(UNAMES)]
            names.add(node.DEF)
        homes = [n for n in real if hasattr(type(n), 'children')]
        if homes and parent >= 0:
            homes[parent % len(homes)].children.append(node)
        else:
            top.append(node)
        real.append(node)
    scene = scenegraph.SceneGraph(children=top)
    if style:
        for n in real:
            if n.DEF:
                scene.regDefName(n.DEF, n)
    by = {}
    for i, n in enumerate(real):
        src, dst = scenes.route_ends(type(n).__name__)
        for f, ft in src:
            by.setdefault(ft, ([], []))[0].append((n, f))
        for f, ft in dst:
            by.setdefault(ft, ([], []))[1].append((n, f))
    ok = [by[ft] for ft in sorted(by) if by[ft][0] and by[ft][1]]
    for a, b, c in routes:
        if ok:
            s, d = ok[a % len(ok)]
            scene.addRoute(s[b % len(s)] + d[c % len(d)])
    given = [(n, n.DEF) for n in real if n.DEF]
    routed = {id(n) for r in scene.routes for n in (r.source, r.destination)}
    rec.nt(any(not n.DEF and id(n) in routed for n in real))
    rec.label('generated-style name taken', bool(names))
    before = scenes.snapshot(scene)
    text = write(scene, compact)
    for n, name in given:
        check(n.DEF == name, 'writing renamed the node %r to %r', name, n.DEF)
    now = [n.DEF for n in real if n.DEF]
    check(len(now) == len(set(now)), 'two nodes have one name: %r\n%s', now, text)
    for n in real:
        check(bool(n.DEF) == (id(n) in routed or any(n is g for g, name in given)), '%r is named %r\n%s', n, n.DEF, text)
        if n.DEF:
            check(scene.getDEF(n.DEF) is n, 'the scene finds another node as %r', n.DEF)
    d = scenes.diff(scenes.snapshot(scenes.parse(text)), scenes.snapshot(scene))
    check(d is None, 're-read scene differs: %s\n%s', d, text)
    check(scenes.snapshot(scene)['routes'] == before['routes'], 'writing changed the routes')


def large(value, rec):
    """Many nodes, deep or wide, many of them shared"""
    shape, count, marks, style, compact = value
    kids = {i: [] for i in range(-1, count)}
    depth = {-1: 0}
    for i in range(count):
        a = shape[i % len(shape)]
        p = i - 1 if a < 6 else (i * a + a) % (i + 1) - 1
        if depth[p] >= 50:
            p = -1
        kids[p].append(i)
        depth[i] = depth[p] + 1
    defined = []

    def make(i):
        m = marks[i % len(marks)]
        children = [make(j) for j in kids[i]]
        if m == 1 and defined:
            # (names of nodes complete before this one)
            children.insert(0 if i % 2 else len(children), ('USE', defined[i * 7 % len(defined)])) if not kids[i] else None
        name = 'n%d' % i if m in (2, 3) else None
        n = ('N', ['Group', 'Transform', 'Anchor', 'Collision'][i % 4], name, [('children', children)] + ([('translation', (float(i), 0.5, -1.0))] if i % 4 == 1 else []))
        if name:
            defined.append(name)
        return n
    model = dict(children=[make(i) for i in kids[-1]], routes=[])
    moving = [n for n in defined if int(n[1:]) % 4 == 1]
    model['routes'] = [(a, 'translation', b, 'scale') for a, b in zip(moving, moving[1:])]
    rec.label('deep', max(depth.values()) >= 40)
    rec.label('many routes', len(moving) > 10)
    rec.label('shared', "('USE'" in repr(model))
    roundtrip((model, style, compact), rec)


by_type = {}
for t in sorted(spec97.NODES):
    for f, (k, ft, d) in sorted(spec97.NODES[t].items()):
        if ft in vals.TYPES:
            by_type.setdefault(ft, []).append((t, f))
SINGLE = st.sampled_from(sorted(by_type)).flatmap(
    lambda ft: st.tuples(st.sampled_from(by_type[ft]), vals.VALUES[ft], st.integers(0, 3))).map(
        lambda x: (x[0][0], x[0][1], x[1], x[2]))



def deep_nesting():
    """True while a scene of children nested 400 deep is not written"""
    import sys
    from vrml.vrml97 import basenodes, scenegraph
    sys.setrecursionlimit(1000)     # Python's default, which the worker raises
    n = basenodes.Group()
    for i in range(400):
        n = basenodes.Group(children=[n])
    try:
        text = scenegraph.SceneGraph(children=[n]).toString()
    except RecursionError:
        return True
    return text.count('Group') != 401


PROBES = {'deep-nesting': deep_nesting}
CASES = [
    Case('scene', st.tuples(scenes.scenes(), st.integers(0, 7), st.booleans()), roundtrip, 2400),
    Case('field', SINGLE, single, 8000),
    Case('unnamed', st.tuples(st.lists(st.tuples(st.sampled_from([0, 0, 1, 2, 2, 3, 4, 5]), st.integers(-1, 4), st.one_of(st.none(), st.integers(0, len(UNAMES) - 1))),
                                       min_size=1, max_size=7),
                              st.lists(st.tuples(st.integers(0, 20), st.integers(0, 40), st.integers(0, 40)), max_size=4), st.integers(0, 1), st.booleans()), unnamed, 800),
    Case('large', st.tuples(st.lists(st.integers(0, 12), min_size=1, max_size=12), st.integers(20, 160), st.lists(st.integers(0, 5), min_size=1, max_size=9), st.integers(0, 7), st.booleans()),
         large, 200, 3000),
    Case('anonymous', st.tuples(scenes.scenes(), st.integers(0, 7), st.booleans(), st.integers(0, 255)), anonymous, 1600),
    Case('nodes', st.tuples(scenes.scenes(routes=False), st.integers(0, 2), st.booleans()), partial, 1200),
]
