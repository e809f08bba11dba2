"""C34 describing things for people never fails and changes nothing"""
import gc
import weakref
from hypothesis import strategies as st
from harness import scenes, vals, protos, printer
from harness.core import Case, check
from props import c24

RULE = ('str() and repr() of everything in random scenes (plain, or with prototypes, Scripts, IS and routes; built in Python or parsed; with cycles, fields deleted, nodes and containers whose parts have '
        'died, events with and without values): nodes, scenes, fields, events, routes, lists of nodes, node paths, weak lists and weak tuples. None fails; every description of a node names its type, its DEF name '
        '(str) and exactly the fields it has values for (repr), that of a declaration its kind, type and name, that of a route its four parts, that of a path or weak list its live items in order; nothing '
        'gets or loses a value, no signal is sent, no weakly held item is kept alive. Non-trivial: two or more nodes.')
ASSUMPTIONS = ['the wording around the names and values is free']


def both(x, what):
    out = []
    for fn in (str, repr):
        try:
            out.append(fn(x))
        except Exception as e:
            check(False, '%s of %s raises %r', fn.__name__, what, e)
        check(isinstance(out[-1], str) and out[-1], '%s of %s is %r', fn.__name__, what, out[-1])
    check([str(x), repr(x)] == out, 'the descriptions of %s differ: %s', what, out)
    return out


def in_order(texts, whole, what):
    at = 0
    for t in texts:
        k = whole.find(t, at)
        check(k >= 0, '%s: %r is not described (in order) in %s', what, t, whole)
        at = k + len(t)


def describe_node(n, plain):
    from vrml import protofunctions as pf, node
    what = 'a ' + pf.protoName(n)
    before = dict(n.__dict__)
    s, r = both(n, what)
    check(list(n.__dict__) == list(before) and all(n.__dict__[k] is v for k, v in before.items()), 'describing %s changed what it has', what)
    name = type(n).__name__
    check(name in s and name in r, '%s: %r, %r do not name the type %s', what, s, r, name)
    if n.__dict__.get(' DEF'):
        check(repr(n.__dict__[' DEF']) in s, '%s with the name %r is %s', what, n.__dict__[' DEF'], s)
    leaf = True
    for f in scenes.visible_fields(n):
        if f.name not in n.__dict__:
            continue
        check(f.name in r, '%s: the field %s that has a value is not in %s', what, f.name, r)
        v = n.__dict__[f.name]
        if isinstance(v, node.Node):
            leaf = leaf and not v
            check(str(v) in r, '%s: the node in %s is not in %s', what, f.name, r)
        elif isinstance(v, list) and f.typeName() == 'MFNode':
            leaf = leaf and not v
        else:
            check(repr(v) in r, '%s: the value %r of %s is not in %s', what, v, f.name, r)
    if leaf and plain:
        for f in scenes.visible_fields(n):
            if f.name not in n.__dict__:
                check('\t%s = ' % f.name not in r, '%s: the field %s that has no value is in %s', what, f.name, r)
    return s, r


def describe_declaration(f, exposed, other, flag):
    s = str(f)
    repr(f)
    for w in ([exposed if flag else other] + [f.typeName(), f.name.strip()]):
        check(w in s, 'the declaration %s does not have %r', s, w)
    check(exposed not in s or flag or exposed in (f.name + f.typeName() + str(getattr(f, 'defaultobj', ''))), 'the declaration %s is of another kind', s)


def contain(cls, kind, items, nodes, dead):
    """A container of some nodes, what of them stays alive and its description"""
    from vrml.vrml97 import basenodes
    mine = [nodes[i % len(nodes)] if nodes and i % 3 else basenodes.Group(DEF='G%d' % i) for i in items]
    c = cls(mine)
    kept = []
    live = []
    for i in range(len(mine)):
        if not dead >> i & 1:
            kept.append(mine[i])
        if not dead >> i & 1 or (nodes and items[i] % 3) or kind in (0, 3):
            live.append(str(mine[i]) if kind < 2 else repr(mine[i]))
    fresh = [weakref.ref(m) for m in mine if isinstance(m.__dict__.get(' DEF'), str) and m.__dict__[' DEF'][:1] == 'G' and not any(m is n for n in nodes)]
    return c, kept, live, fresh


def run(value, rec):
    subject, changes, paths, dead = value
    from pydispatch import dispatcher
    from vrml import protofunctions as pf, node as nodemodule, weaklist, weaktuple
    from vrml.vrml97 import nodepath, basenodes
    scene, nameless, shared = c24.make(subject)
    rec.label(subject[0])
    nodes = c24.nodes_of(scene)
    rec.nt(len(nodes) >= 2)
    for what, a, b in changes:
        if not nodes:
            break
        n = nodes[a % len(nodes)]
        fields = sorted(scenes.visible_fields(n), key=lambda f: f.name)
        if not fields:
            continue
        f = fields[b % len(fields)]
        if what == 0:
            f.fget(n)
        elif what == 1:
            if f.fhas(n):
                f.fdel(n)
        elif what == 2 and hasattr(n, 'children') and isinstance(n.children, list) and subject[0] == 'plain':
            # a cycle
            n.children.append(nodes[b % len(nodes)])
            rec.label('cycle possible')
        elif what == 3:
            events = sorted(pf.getFields(n, 1), key=lambda e: e.name)
            if events:
                e = events[b % len(events)]
                if e.typeName() in ('SFBool', 'SFString', 'SFInt32'):
                    e.__set__(n, 1)
        elif what == 4:
            n.DEF = ['', 'x', "it's", 'caf\u00e9 \U0001f600', '%s', '"'][b % 6]
    sent = []

    def receiver(signal, sender):
        sent.append((signal, type(sender).__name__))  # not the sender: it would stay alive
    # (only nodes not of cycles are compared in depth)
    cyclic = any(c[0] == 2 for c in changes)
    before = None if cyclic else c24.everything(scene)
    held = [(n, dict(n.__dict__)) for n in nodes]
    dispatcher.connect(receiver, signal=dispatcher.Any, sender=dispatcher.Any)
    try:
        for n in nodes:
            describe_node(n, subject[0] == 'plain')
            for f in pf.getFields(n):
                if f.name[:1] != ' ':
                    describe_declaration(f, 'exposedField', 'field', f.exposure)
            for e in pf.getFields(n, 1):
                describe_declaration(e, 'eventOut', 'eventIn', e.direction)
        s, r = both(scene, 'a scene')
        for x in (s, r):
            check('SceneGraph' in x, 'the scene is %s', x)
        for rt in scene.routes:
            s, r = both(rt, 'a route')
            for x in (type(rt.source).__name__, type(rt.destination).__name__):
                check(x in s, 'the route %s does not have %s', s, x)
            in_order([rt.sourceField, rt.destinationField], s[s.index(' '):], 'a route')
        both(scene.children, 'a list of nodes')
        for n in nodes:
            sub = pf.getSceneGraph(n) if isinstance(n, nodemodule.PrototypedNode) else None
            if sub:
                both(sub, 'a body')
                for rt in sub.routes:
                    both(rt, 'a body route')
        check(str(nodemodule.NULL) == 'NULL' and 'NULL' in repr(nodemodule.NULL), 'NULL is %s, %r', nodemodule.NULL, nodemodule.NULL)
        # containers, some of whose items have died
        for kind, items in paths:
            cls = [nodepath.NodePath, nodepath.WeakNodePath, weaklist.WeakList, weaktuple.WeakTuple][kind]
            c, kept, expect, fresh = contain(cls, kind, items, nodes, dead)
            refs = len(items) - len(expect)
            s, r = both(c, cls.__name__)
            check(cls.__name__ in s and cls.__name__ in r, 'a %s is %s, %s', cls.__name__, s, r)
            if kind < 2:
                in_order(expect, s, 'a path')
                check(s.count('Group( DEF=\'G') == sum("DEF='G" in e for e in expect), 'a path has other nodes than %s: %s', expect, s)
            elif kind == 2:
                in_order(expect, r, 'a weak list')
            rec.label('%s with dead items' % cls.__name__, bool(refs))
            if kind in (1, 2):
                check(len(c) == len(expect), 'a %s has %d items, not %d', cls.__name__, len(c), len(expect))
            if kind:
                del kept
                alive = [1 for ref in fresh if ref() is not None]
                if alive:
                    gc.collect()
                check(not any(ref() is not None for ref in fresh), 'describing a %s keeps its items alive', cls.__name__)
                rec.label('all items dead after')
                s, r = both(c, 'a %s whose items have died' % cls.__name__)
    finally:
        dispatcher.disconnect(receiver, signal=dispatcher.Any, sender=dispatcher.Any)
    sent = [x for x in sent if not (isinstance(x[0], tuple) and getattr(x[0][-1], 'name', '') == ' DEF')]
    check(not sent, 'describing sent %r', sent[:3])
    for n, d in held:
        check(list(n.__dict__) == list(d) and all(n.__dict__[k] is v for k, v in d.items()), 'describing changed what a %s has', pf.protoName(n))
    if before is not None:
        after = c24.everything(scene)
        c24.unchanged(before[0], after[0], (), 'describing')


PATHS = st.lists(st.tuples(st.integers(0, 3), st.lists(st.integers(0, 12), max_size=5)), max_size=4)
CHANGES = st.lists(st.tuples(st.integers(0, 4), st.integers(0, 20), st.integers(0, 40)), max_size=8)
CASES = [Case('describe', st.tuples(c24.SUBJECT, CHANGES, PATHS, st.integers(0, 31)), run, 1500)]
