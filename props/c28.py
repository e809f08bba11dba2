"""C28 events reach their handler, keep their value and are told to the right listeners"""
import contextlib, gc, io
import types as types_
from hypothesis import strategies as st
from harness import nodes
from harness.core import Case, check, Violation

RULE = ('histories over up to 3 nodes of up to 2 generated types (prototypes, and subclasses of them, with fields, events and on_<event> methods of every signature: value only, with event, **named, '
        'on the class, on a base class or on the instance; recording, raising, or passing the value on to a field or the next event of the node), with watchers, callables attached by addRoute (node or '
        'DEF name) and routes between events; up to 14 steps of giving values (attribute, __set__, ROUTE from a field), reading, attaching, releasing callables, setting and deleting fields. The '
        'calls of handlers, watchers and callables are compared with the model, handlers in order and before the listeners. Non-trivial: a handler ran and a listener heard of the same event.')
ASSUMPTIONS = ['handlers do not pass values on in circles', 'callables are held weakly: once released they hear nothing', 'the order among several listeners of one change is not specified']

FIELDS = {'f': 'SFFloat', 'm': 'MFFloat', 's': 'SFString'}
EVENTS = ['a', 'set_d', 'e_changed']
ETYPES = ['SFFloat', 'SFTime', 'SFString', 'MFFloat', 'SFBool', 'SFNode', 'MFInt32', 'SFVec3f']
# what a handler does: None (there is none), or (signature, action)
ON = st.tuples(st.integers(0, 4), st.sampled_from(['record', 'record', 'field', 'next', 'next', 'raise', 'raise', 'value', 'type', 'read']))
HANDLER = st.one_of(st.none(), ON, ON, ON)
VALUES = st.one_of(st.integers(-3, 3), st.sampled_from([0.5, '', 'abc', (), False, True, None]), st.lists(st.integers(0, 5), max_size=3))
TYPE = st.tuples(st.lists(st.tuples(st.integers(0, len(ETYPES) - 1), st.integers(0, 1), HANDLER), min_size=len(EVENTS), max_size=len(EVENTS)), st.integers(0, 3))
NODE, EVENT = st.integers(0, 2), st.integers(0, len(EVENTS) - 1)
NAME = st.sampled_from([0, 0, 1, 1, 2, 2, 3, 4, 5])
STEP = st.one_of(
    st.tuples(st.just('give'), NODE, EVENT, VALUES, st.integers(0, 2)),
    st.tuples(st.just('give'), NODE, EVENT, VALUES, st.integers(0, 2)),
    st.tuples(st.just('give'), NODE, EVENT, VALUES, st.integers(0, 2)),
    st.tuples(st.just('read'), NODE, EVENT),
    st.tuples(st.just('watch'), NODE, NAME, st.integers(0, 3)),
    st.tuples(st.just('watch'), NODE, NAME, st.integers(0, 3)),
    st.tuples(st.just('release'), st.integers(0, 5)),
    st.tuples(st.just('field'), NODE, st.integers(0, 2), st.integers(0, 5), st.integers(0, 2)),
    st.tuples(st.just('route'), NODE, EVENT, NODE, EVENT),
    st.tuples(st.just('route'), NODE, EVENT, NODE, EVENT),
)


class Refuse(Exception):
    pass


# a handler's usual ways to refuse a value; a route ends there
class RefuseValue(ValueError, Refuse):
    pass


class RefuseType(TypeError, Refuse):
    pass


RAISES = {'raise': Refuse, 'value': RefuseValue, 'type': RefuseType}


def handler(world, event, spec):
    """An on_<event> method"""
    signature, action = spec

    def act(self, value, got):
        world.log.append(('handler', world.index(self), event, value, got))
        if action in RAISES:
            raise RAISES[action](event)
        if action == 'field':
            self.f = 2.5
        if action == 'next':
            i = EVENTS.index(event)
            if i + 1 < len(EVENTS):
                setattr(self, EVENTS[i + 1], value)
        if action == 'read':
            # the value is not yet the event's
            try:
                world.log.append(('old', world.index(self), event, getattr(self, event)))
            except AttributeError:
                world.log.append(('old', world.index(self), event, 'none'))
    if signature == 0:
        def on(self, value):
            act(self, value, None)
    elif signature == 1:
        def on(self, value, event):
            act(self, value, event.name)
    elif signature == 2:
        def on(self, value, event=None):
            act(self, value, event.name)
    elif signature == 3:
        def on(self, value, **named):
            act(self, value, named['event'].name)
    else:
        def on(self, v, event=None, other=5):
            act(self, v, event.name)
    return on


class World:
    def __init__(self, types, which):
        from vrml import node, field
        from vrml.vrml97 import scenegraph
        self.log, self.nodes = [], []
        self.types, own = [], {}
        for i, (events, how) in enumerate(types):
            attrs = {n: nodes.field(n, t) for n, t in FIELDS.items()}
            ons = {}
            for name, (t, direction, h) in zip(EVENTS, events):
                attrs[name] = field.newEvent(name, ETYPES[t], direction)
                if h is not None:
                    ons['on_' + name] = handler(self, name, h)
            if how == 0:
                # fields and handlers in one class
                cls = type('T%d' % i, (node.Node,), dict(attrs, PROTO='T%d' % i, **ons))
            elif how == 1:
                # handlers in a derived class
                base = type('B%d' % i, (node.Node,), dict(attrs, PROTO='T%d' % i))
                cls = type('T%d' % i, (base,), dict(ons))
            elif how == 3:
                # handlers of the nodes themselves
                cls = node.prototype('T%d' % i, list(attrs.values()))
                own[cls] = ons
            else:
                # handlers in a mixed-in class
                base = node.prototype('T%d' % i, list(attrs.values()))
                mixin = type('M%d' % i, (object,), dict(ons))
                cls = type('T%d' % i, (mixin, base), {})
            self.types.append(cls)
        self.which = [w % len(types) for w in which]
        self.spec = [types[w][0] for w in self.which]
        for i, w in enumerate(self.which):
            n = self.types[w](DEF='n%d' % i)
            for name, on in own.get(self.types[w], {}).items():
                setattr(n, name, types_.MethodType(on, n))
            self.nodes.append(n)
        self.scene = scenegraph.SceneGraph(children=list(self.nodes))
        for i, n in enumerate(self.nodes):
            self.scene.regDefName('n%d' % i, n)
        self.values = [{} for n in self.nodes]
        self.fields = [{} for n in self.nodes]
        self.receivers = []   # [callable or None, node, name, number]
        self.routes = []      # (node, event, node, event)
        self.stopped = False

    def index(self, n):
        for i, x in enumerate(self.nodes):
            if x is n:
                return i
        return 'another node'

    # ---- the model: what giving the event a value does
    def expect(self, n, e, value, via):
        """Appends to self.want; raises Refuse as the handler does.  via: set of destinations of this propagation, or None for a fresh one"""
        h = self.spec[n][EVENTS.index(e)][2]
        if h is not None:
            signature, action = h
            self.want.append(('handler', n, e, value, None if signature == 0 else e))
            if action in RAISES:
                raise RAISES[action](e)
            if action == 'field':
                self.fields[n]['f'] = 2.5
                self.tell(n, 'f', 'set', 2.5)
            if action == 'next' and e != EVENTS[-1]:
                self.expect(n, EVENTS[EVENTS.index(e) + 1], value, None)
            if action == 'read':
                self.want.append(('old', n, e, self.values[n].get(e, 'none')))
        self.values[n][e] = value
        if via is None:
            self.tell(n, e, 'set', value)
            for r in self.routes:
                if r[:2] == (n, e):
                    self.forward(r, value, {(r[2], r[3])})
        else:
            for r in self.routes:
                if r[:2] == (n, e) and (r[2], r[3]) not in via:
                    via.add((r[2], r[3]))
                    self.forward(r, value, via)

    def forward(self, r, value, via):
        try:
            self.expect(r[2], r[3], value, via)
        except (RefuseValue, RefuseType):
            self.stopped = True

    def tell(self, n, name, kind, value):
        for r in self.receivers:
            if r[0] is not None and r[1] == n and r[2] == name:
                self.want.append(('heard', r[3], n, kind, name, value))


def P(x):
    import numpy as np
    return x.tolist() if isinstance(x, np.ndarray) else x


def same(a, b):
    return repr(a) == repr(b)


def events(value, rec):
    from vrml import protofunctions as pf
    types, which, watches, steps = value
    steps = [('watch',) + x for x in watches] + steps
    w = World(types, which)
    rec.label('types', len(types) > 1)
    N = len(w.nodes)
    number = [0]

    def compare(what):
        ordered = lambda log: [repr(x) for x in log if x[0] != 'heard']
        heard = lambda log: sorted(repr(x) for x in log if x[0] == 'heard')
        check(ordered(w.log) == ordered(w.want), '%s: the handlers called were\n%s, expected\n%s', what, ordered(w.log), ordered(w.want))
        check(heard(w.log) == heard(w.want), '%s: the listeners heard\n%s, expected\n%s', what, heard(w.log), heard(w.want))
        # the handler comes before the listeners
        told = set()
        for x in w.log:
            if x[0] == 'heard':
                told.add((x[2], x[4]))
            elif x[0] == 'handler':
                check((x[1], x[2]) not in told, '%s: listeners heard of it before the handler: %s', what, w.log)
        if any(x[0] == 'handler' for x in w.log) and any(x[0] == 'heard' for x in w.log):
            rec.nt()
        for n in range(N):
            for e in EVENTS:
                try:
                    got = getattr(w.nodes[n], e)
                except AttributeError:
                    got = 'none'
                check(same(got, w.values[n].get(e, 'none')), '%s: n%d.%s is %r, expected %r', what, n, e, got, w.values[n].get(e, 'none'))
        del w.log[:]

    for step in steps:
        kind, args = step[0], step[1:]
        w.want = []
        del w.log[:]
        n = args[0] % N
        if kind == 'give':
            e = EVENTS[args[1]]
            raised = expected = None
            try:
                w.expect(n, e, args[2], None)
            except Refuse as err:
                expected = str(err)
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    if args[3] == 0:
                        setattr(w.nodes[n], e, args[2])
                    elif args[3] == 1:
                        pf.getField(w.nodes[n], e).__set__(w.nodes[n], args[2])
                    else:
                        type(w.nodes[n]).__dict__.get(e, pf.getField(w.nodes[n], e)).__set__(w.nodes[n], args[2], notify=1)
            except Refuse as err:
                raised = str(err)
            check(raised == expected, 'n%d.%s = %r raised %r, expected %r', n, e, args[2], raised, expected)
            rec.label('raised', raised is not None)
            rec.label('stopped behind a route', w.stopped)
            compare('n%d.%s = %r' % (n, e, args[2]))
        elif kind == 'read':
            e = EVENTS[args[1]]
            try:
                got = getattr(w.nodes[n], e)
            except AttributeError:
                got = 'none'
            check(same(got, w.values[n].get(e, 'none')), 'n%d.%s reads %r', n, e, got)
            check(not w.log, 'reading called %s', w.log)
        elif kind == 'watch':
            name = (EVENTS + sorted(FIELDS))[args[1]]
            k = number[0]
            number[0] += 1
            f = pf.getField(w.nodes[n], name)

            def receiver(signal, sender, value=None, k=k, f=f):
                check(signal[1] is f, 'listener of %s heard %s', f, signal)
                w.log.append(('heard', k, w.index(sender), signal[0], f.name, P(value)))
            form = args[2]
            if form == 0:
                f.watch(w.nodes[n], receiver, ('set', f))
                f.watch(w.nodes[n], receiver, ('del', f))
            elif form == 1:
                w.scene.addRoute((w.nodes[n], name, receiver))
            elif form == 2:
                w.scene.addRoute('n%d' % n, name, receiver)
            else:
                w.scene.addRoute(w.nodes[n], name, receiver)
            rec.label('callable route', form > 0)
            w.receivers.append([receiver, n, name, k])
            del receiver
        elif kind == 'release':
            if w.receivers:
                r = w.receivers[args[0] % len(w.receivers)]
                r[0] = None
                rec.label('released')
                gc.collect(0)
        elif kind == 'field':
            name = sorted(FIELDS)[args[1]]
            v = {'f': args[2] / 2.0, 'm': [args[2] / 4.0] * (args[2] % 3), 's': 's%d' % args[2]}[name]
            if args[3] == 2:
                if name in w.fields[n]:
                    delattr(w.nodes[n], name)
                    del w.fields[n][name]
                    w.tell(n, name, 'del', None)
                    compare('del n%d.%s' % (n, name))
            else:
                setattr(w.nodes[n], name, v)
                w.fields[n][name] = v
                w.tell(n, name, 'set', v)
                compare('n%d.%s = %r' % (n, name, v))
        else:
            r = (n, EVENTS[args[1]], args[2] % N, EVENTS[args[3]])
            w.routes.append(r)
            if loops(w) or r in w.routes[:-1]:
                w.routes.pop()
                continue
            w.scene.addRoute(w.nodes[r[0]], r[1], w.nodes[r[2]], r[3])
            rec.label('route')


def loops(w):
    """Whether values could go in circles, along routes and handlers, or meet a handler that raises something else than ValueError or TypeError behind a route, or meet twice"""
    edges = {}
    for a, e, b, f in w.routes:
        edges.setdefault((a, e), []).append((b, f))
    for n, spec in enumerate(w.spec):
        for i, (t, d, h) in enumerate(spec):
            if h is not None and h[1] == 'next' and i + 1 < len(EVENTS):
                edges.setdefault((n, EVENTS[i]), []).append((n, EVENTS[i + 1]))
    dests = {(b, f) for a, e, b, f in w.routes}
    # one way in at most: no node event reached over two ways, none in a circle
    for start in [(n, e) for n in range(len(w.nodes)) for e in EVENTS]:
        seen, todo = set(), [start]
        while todo:
            x = todo.pop()
            for y in edges.get(x, ()):
                if y in seen or y == start:
                    return True
                seen.add(y)
                todo.append(y)
        if start in dests or any(y in dests for y in seen):
            for n, e in seen | {start}:
                h = w.spec[n][EVENTS.index(e)][2]
                if h is not None and h[1] == 'raise':
                    return True
        # (one listener order: no two routes from one event, whose order is not specified)
        if len(edges.get(start, ())) > 1:
            return True
    return False


CASES = [
    Case('events', st.tuples(st.lists(TYPE, min_size=1, max_size=2), st.lists(st.integers(0, 1), min_size=1, max_size=3), st.lists(st.tuples(NODE, NAME, st.integers(0, 3)), min_size=2, max_size=6),
                             st.lists(STEP, min_size=1, max_size=14)), events, 6000),
]
