"""C15 routes deliver every change along every path and always stop"""
import contextlib, gc, io
from hypothesis import strategies as st
from harness import nodes, reactions, scenes, spec97
from harness.core import Case, check

RULE = ('histories: up to 5 nodes (a prototype with fields of 13 types and events, and built-in nodes), up to 12 routes between fields and events of convertible types '
        '(chains, fan-out, fan-in, diamonds, cycles, self loops, duplicates; set_x and x_changed spellings; made as ROUTE objects, by addRoute with nodes or DEF names, by the scene\'s '
        'constructor, or parsed), up to 10 changes (attribute, fset, deletion, event, in-place list edit, failing and silent sets, routes added and dropped). After each every '
        'field and event of every node and all notifications are compared with the reachability in the route graph. '
        'Non-trivial: a change reached at least two other destinations. chain: lines and rings of up to 100 nodes. reactions: trees of routes whose fields have observers that set '
        'the root of another tree while they are told; every field of all trees concerned gets its value, its observers are told once (non-trivial: two trees).')
ASSUMPTIONS = ['each route leaving the changed field starts a propagation of its own: a destination reached from k of them may be visited up to k times',
               'where paths convert a value differently, any of the results is accepted', 'a route whose destination refuses the value delivers nothing',
               'silent sets and failed sets are not changes', 'events take any value as it comes']

# name -> type; events: ('in'|'out', type)
W_FIELDS = {'f': 'SFFloat', 'g': 'SFFloat', 'i': 'SFInt32', 't': 'SFTime', 'b': 'SFBool', 'm': 'MFFloat', 'v': 'SFVec3f', 'c': 'SFColor', 'p': 'MFVec3f', 's': 'SFString', 'q': 'MFString',
            'n': 'SFNode', 'k': 'MFNode', 'x_changed': 'SFFloat', 'h': 'MFFloat', 'r': 'SFRotation'}
W_EVENTS = {'fin': ('in', 'SFFloat'), 'fout': ('out', 'SFFloat'), 'set_h': ('in', 'MFFloat'), 'vin': ('in', 'SFVec3f'), 'nout': ('out', 'SFNode')}
DEFAULTS = {'f': 0.5, 'g': 1.5, 'i': 7, 't': 2.0, 'b': 1, 'm': [1.0, 2.0], 'v': (1, 2, 3), 'c': (0.5, 0.25, 1), 'p': [(1, 2, 3)], 's': 'abc', 'q': ['x'], 'x_changed': 4.0, 'h': [], 'r': (0, 1, 0, 0)}
TYPES = ['W', 'W', 'W', 'Transform', 'Material', 'PositionInterpolator', 'TimeSensor', 'Switch', 'ElevationGrid', 'Group', 'Extrusion', 'Collision']
GROUP = {'SFFloat': 0, 'SFInt32': 0, 'SFTime': 0, 'MFFloat': 0, 'SFBool': 0, 'SFVec3f': 1, 'SFColor': 1, 'MFVec3f': 1, 'SFString': 2, 'MFString': 2, 'SFNode': 3, 'MFNode': 3,
         'SFRotation': 4, 'MFRotation': 4, 'SFVec2f': 5, 'MFVec2f': 5, 'MFInt32': 0, 'MFColor': 1, 'MFTime': 0}
_w = []


def W():
    if not _w:
        from vrml import field
        fs = [nodes.field(n, t, DEFAULTS[n]) if n in DEFAULTS else nodes.field(n, t) for n, t in W_FIELDS.items()]
        _w.append(nodes.proto('W', *(fs + [field.newEvent(n, t, d == 'out') for n, (d, t) in W_EVENTS.items()])))
    return _w[0]


def tables(t):
    """name -> (is event, type)"""
    if t == 'W':
        fs, es = W_FIELDS, {n: x[1] for n, x in W_EVENTS.items()}
    else:
        fs = {n: x[1] for n, x in spec97.NODES[t].items()}
        es = {n: x[1] for n, x in spec97.EVENTS[t].items()}
    d = {n: (False, x) for n, x in fs.items()}
    d.update({n: (True, x) for n, x in es.items()})
    return d


TABLES = {t: tables(t) for t in set(TYPES)}


def resolve(t, name):
    tab = TABLES[t]
    if name in tab:
        return name
    if name.startswith('set_'):
        return resolve(t, name[4:])
    return resolve(t, name[:-8])


def P(v):
    """A value as plain data, nodes by identity"""
    from vrml import node
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [P(x) for x in v]
    if v is node.NULL:
        return 'NULL'
    if isinstance(v, node.Node):
        return ('node', id(v))
    return v


def form(v):
    return type(v), str(getattr(v, 'dtype', '')), [form(x) for x in v] if type(v) in (list, tuple) else 0


def sample(ft, a, b, pool):
    base = [a / 4.0, b / 4.0, (a + b) / 8.0]
    if ft in ('SFFloat', 'SFTime'):
        # (integers refuse an infinite value)
        return a / 4.0 if a != b else float('inf')
    if ft == 'SFInt32':
        # (floats refuse one that is too large)
        return a if a != b else 10 ** 400
    if ft == 'SFBool':
        return a % 2 == 0
    if ft in ('MFFloat', 'MFTime'):
        return base[:b % 4]
    if ft == 'MFInt32':
        return [a, b, a + b][:b % 4]
    if ft == 'SFVec3f':
        return base
    if ft == 'SFVec2f':
        return base[:2]
    if ft == 'SFColor':
        return [abs(x) % 1.25 for x in base]
    if ft == 'MFVec3f':
        return [base, base[::-1], base][:b % 3]
    if ft == 'MFVec2f':
        return [base[:2], base[1:]][:b % 3]
    if ft == 'SFRotation':
        return base + [1.0]
    if ft == 'MFRotation':
        return [base + [1.0]] * (b % 3)
    if ft == 'SFString':
        return 's%d' % a
    if ft == 'MFString':
        return ['s%d' % a, 't'][:b % 3]
    if ft == 'SFNode':
        return pool[a % len(pool)] if b % 4 else None
    if ft == 'MFNode':
        return [pool[(a + i) % len(pool)] for i in range(b % 3)]
    raise KeyError(ft)


class World:
    def __init__(self, types, routes, how):
        from vrml import protofunctions as pf
        from vrml.vrml97 import basenodes, scenegraph
        self.types = types
        self.pool = [basenodes.Box(), basenodes.Sphere(), basenodes.Group()]
        self.live = []     # (source, dest, ROUTE object)
        self.scene = None
        how = how % 5
        if how == 4:
            decl = ''
            if 'W' in types:
                from harness import vals, printer
                fs = ['exposedField %s %s %s' % (t, n, self.text(t, DEFAULTS.get(n))) for n, t in W_FIELDS.items()]
                fs += ['event%s %s %s' % (d.title(), t, n) for n, (d, t) in W_EVENTS.items()]
                decl = 'PROTO W [\n%s\n] {}\n' % '\n'.join(fs)
            text = '#VRML V2.0 utf8\n' + decl + '\n'.join('DEF n%d %s {}' % (i, t) for i, t in enumerate(types)) + '\n'
            text += '\n'.join('ROUTE n%d.%s TO n%d.%s' % r for r in routes) + '\n'
            self.scene = scenes.parse(text)
            self.nodes = list(self.scene.children)
            for r, obj in zip(routes, self.scene.routes):
                self.live.append((r, obj))
            obj = None
        else:
            self.nodes = [W()() if t == 'W' else getattr(basenodes, t)() for t in types]
            if how == 3:
                self.scene = scenegraph.SceneGraph(children=list(self.nodes), routes=[(self.nodes[a], fa, self.nodes[b], fb) for a, fa, b, fb in routes])
                self.live = [(r, obj) for r, obj in zip(routes, self.scene.routes)]
                obj = None
            else:
                self.scene = scenegraph.SceneGraph(children=list(self.nodes))
                for i, r in enumerate(routes):
                    self.add(r, how + i)
        check(len(self.live) == len(routes), '%d routes made, %d asked for', len(self.live), len(routes))
        self.f, self.log = [], []
        from pydispatch import dispatcher
        self.receivers = []
        for i, (nd, t) in enumerate(zip(self.nodes, types)):
            self.f.append({n: pf.getField(nd, n) for n in TABLES[t]})

            def receiver(signal, sender, value=None, i=i):
                self.log.append((i, signal, sender, value, P(value)))
            dispatcher.connect(receiver, sender=nd, signal=dispatcher.Any)
            self.receivers.append(receiver)

    def text(self, t, d):
        if d is None:
            return {'SFNode': 'NULL', 'MFNode': '[]'}[t]
        if t == 'SFBool':
            return 'TRUE'
        if t == 'SFString':
            return '"%s"' % d
        if t == 'MFString':
            return '[%s]' % ' '.join('"%s"' % x for x in d)
        if isinstance(d, list):
            return '[%s]' % ', '.join(' '.join(map(repr, x)) if isinstance(x, tuple) else repr(x) for x in d)
        if isinstance(d, tuple):
            return ' '.join(map(repr, d))
        return repr(d)

    def add(self, r, how):
        from vrml import route, protofunctions as pf
        a, fa, b, fb = r
        na, nb = self.nodes[a], self.nodes[b]
        how = how % 4
        if how == 0:
            obj = route.ROUTE(source=na, sourceField=fa, destination=nb, destinationField=fb)
        elif how == 1:
            obj = route.ROUTE(na, fa, nb, fb)
            self.scene.addRoute(obj)
        elif how == 2:
            obj = self.scene.addRoute(na, fa, nb, fb)
        else:
            self.scene.regDefName('n%d' % a, na)
            self.scene.regDefName('n%d' % b, nb)
            obj = self.scene.addRoute(('n%d' % a, fa, 'n%d' % b, fb))
        self.live.append((r, obj))

    def drop(self, k):
        r, obj = self.live.pop(k % len(self.live))
        # (lists compare routes by identity, a ROUTE's equality is that of an object)
        if any(x is obj for x in self.scene.routes):
            self.scene.routes.remove(obj)
        obj = None
        gc.collect()

    def read(self, i, n):
        if TABLES[self.types[i]][n][0]:
            return P(self.nodes[i].__dict__.get(n, '(none)'))
        return P(self.f[i][n].fget(self.nodes[i]))


def key(world, i, n):
    return (i, resolve(world.types[i], n))


def propagate(world, origin, stored):
    """What a change of origin to the stored value may do: dest -> (values, least and most visits, certain)"""
    edges = {}
    for (a, fa, b, fb), obj in world.live:
        edges.setdefault(key(world, a, fa), []).append(key(world, b, fb))
    cands = {origin: [(P(stored), stored)]}
    refused = set()
    todo = [origin]
    while todo:
        s = todo.pop()
        for d in edges.get(s, ()):
            isevent, ft = TABLES[world.types[d[0]]][d[1]]
            for p, v in list(cands[s]):
                if not isevent:
                    try:
                        v = world.f[d[0]][d[1]].coerce(v)
                    except (ValueError, TypeError, OverflowError):
                        refused.add(d)
                        continue
                have = cands.setdefault(d, [])
                pv = P(v)
                if not any(pv == q and form(v) == form(x) for q, x in have):
                    have.append((pv, v))
                    todo.append(d)
    # visits
    most = {}
    for first in edges.get(origin, ()):
        seen, stack = {first}, [first]
        while stack:
            for d in edges.get(stack.pop(), ()):
                if d not in seen:
                    seen.add(d)
                    stack.append(d)
        for d in seen:
            most[d] = most.get(d, 0) + 1
    # destinations that might not be reached, because a value was refused before
    unsure, stack = set(refused), list(refused)
    while stack:
        for d in edges.get(stack.pop(), ()):
            if d not in unsure:
                unsure.add(d)
                stack.append(d)
    # (a refusing destination remains able to take part: what it refuses depends on the path)
    return {d: ([p for p, v in cands.get(d, ())], 0 if d in unsure else 1, k) for d, k in most.items()}


def history(value, rec):
    with contextlib.redirect_stderr(io.StringIO()):
        _history(value, rec)


def _history(value, rec):
    from vrml import node
    types, routes, how, ops = value
    w = World(types, routes, how)
    where = [(i, n) for i, t in enumerate(types) for n in sorted(TABLES[t])]
    state = {x: w.read(*x) for x in where}
    # events keep the very value they were sent, which may be a node's list
    held = {}
    for num, (op, a, n, x, y, r) in enumerate(ops):
        i = a % len(types)
        # prefer ends of routes
        names = sorted(TABLES[types[i]])
        if w.live and op != 'silent':
            s, fs, d, fd = w.live[n % len(w.live)][0]
            i, name = key(w, s, fs) if r[0] % 4 else key(w, d, fd)
        else:
            name = names[n % len(names)]
        isevent, ft = TABLES[types[i]][name]
        nd, f = w.nodes[i], w.f[i][name]
        what = 'operation %d (%s of %s.%s)' % (num, op, types[i], name)
        own = None       # the notification the change itself sends
        w.log[:] = []
        v = sample(ft, x, y, w.pool)
        expect = {}
        if op == 'add':
            if len(w.live) < 14:
                w.add(pick_route(types, r), x)
        elif op == 'drop':
            if w.live:
                w.drop(n)
                rec.label('dropped')
        elif op == 'fail':
            if isevent or ft in ('SFString', 'MFString', 'SFBool', 'SFNode', 'MFNode'):
                continue
            try:
                setattr(nd, name, object())
            except ValueError:
                pass
            else:
                check(False, '%s: accepted', what)
        elif op == 'silent':
            if isevent:
                continue
            f.fset(nd, v, 0)
            state[i, name] = P(f.coerce(v))
        elif op == 'del':
            if isevent or not f.fhas(nd):
                continue
            delattr(nd, name)
            stored = f.coerce(f.getDefault())
            own = 'del'
        elif op == 'edit':
            lists = [q[0] for q in w.live if TABLES[types[q[0][0]]][key(w, q[0][0], q[0][1])[1]] == (False, 'MFNode')]
            if not lists:
                continue
            i, name = key(w, *lists[n % len(lists)][:2])
            nd, f = w.nodes[i], w.f[i][name]
            f.fget(nd).append(w.pool[x % len(w.pool)])
            stored = f.coerce(list(f.fget(nd)))
            what = 'operation %d (append to %s.%s)' % (num, types[i], name)
            own = 'set'
            check(P(stored) == state[i, name] + [P(w.pool[x % len(w.pool)])], '%s: list is %r', what, P(stored))
        elif isevent:
            setattr(nd, name, v)
            stored = v
            own = 'set'
        else:
            if op == 'fset':
                f.fset(nd, v)
            else:
                setattr(nd, name, v)
            stored = f.coerce(v)
            own = 'set'
        if own:
            expect = propagate(w, (i, name), stored)
            state[i, name] = P(stored)
            rec.label(op)
            rec.label('cycle', (i, name) in expect)
            rec.label('fan-in', any(k[2] > 1 for k in expect.values()))
            rec.label('refusal', any(not k[1] for k in expect.values()))
            rec.nt(len(set(expect) - {(i, name)}) >= 2)
        counts = {}
        for j, signal, sender, value, pv in w.log:
            if not (isinstance(signal, tuple) and signal[0] in ('set', 'del', 'route')):
                continue
            # by storage: two nodes of one type have the same field objects
            fn = [m for m, g in w.f[j].items() if g is signal[1]]
            if signal[1].name[:1] == ' ':
                continue    # (a DEF name, the scene)
            check(len(fn) == 1 and sender is w.nodes[j], '%s: notification %r', what, signal)
            counts.setdefault((j, fn[0]), []).append((signal[0], pv))
        for x in where:
            got = w.read(*x)
            seen = counts.get(x, [])
            label = '%s: %s.%s (node %d)' % (what, types[x[0]], x[1], x[0])
            ownseen = [s for s in seen if s[0] != 'route']
            routed = [s for s in seen if s[0] == 'route']
            if own and x == (i, name):
                check(len(ownseen) == 1 and ownseen[0][0] == own, '%s: notifications %r', label, ownseen)
            else:
                check(not ownseen, '%s: notified %r', label, ownseen)
            if x in expect:
                values, least, most = expect[x]
                check(least <= len(routed) <= most, '%s was visited %d times, expected %d to %d', label, len(routed), least, most)
                for s, pv in routed:
                    check(any(pv == q for q in values), '%s: an observer saw %r, expected one of %r', label, pv, values)
                if not routed and TABLES[types[x[0]]][x[1]][0]:
                    check(w.nodes[x[0]].__dict__.get(x[1]) is (stored if own and x == (i, name) else held.get(x)), '%s changed without being visited', label)
                    held[x] = w.nodes[x[0]].__dict__.get(x[1])
                    continue
                ok = [routed[-1][1]] if routed else [state[x]]
                check(any(got == q for q in ok), '%s holds %r after the routed %r', label, got, ok)
                state[x] = got
                held[x] = w.nodes[x[0]].__dict__.get(x[1])
            elif TABLES[types[x[0]]][x[1]][0] and own and x == (i, name):
                held[x] = stored
                check(not routed and got == state[x], '%s holds %r, expected %r; notified %r', label, got, state[x], routed)
            elif TABLES[types[x[0]]][x[1]][0]:
                check(not routed, '%s is not reachable but notified %r', label, routed)
                now = w.nodes[x[0]].__dict__.get(x[1])
                check(now is held.get(x), '%s holds %r, expected %r', label, now, held.get(x))
            else:
                check(not routed, '%s is not reachable but notified %r', label, routed)
                check(got == state[x], '%s holds %r, expected %r', label, got, state[x])


def pick_route(types, r):
    """A route between fields of convertible types, from a list of integers"""
    a, b = r[0] % len(types), r[1] % len(types)
    src = sorted(TABLES[types[a]].items())
    fa, (ea, ta) = src[r[2] % len(src)]
    same = [(n, x) for n, x in sorted(TABLES[types[b]].items()) if x[1] == ta]
    near = [(n, x) for n, x in sorted(TABLES[types[b]].items()) if GROUP.get(x[1], x[1]) == GROUP.get(ta, ta)]
    any_ = sorted(TABLES[types[b]].items())
    options = ([same, same, near, near, near, any_][r[3] % 6]) or near or any_
    fb, (eb, tb) = options[r[4] % len(options)]
    if not ea and r[5] % 3 == 1 and fa + '_changed' not in TABLES[types[a]]:
        fa += '_changed'
    if not eb and r[5] % 4 == 1 and 'set_' + fb not in TABLES[types[b]]:
        fb = 'set_' + fb
    return (a, fa, b, fb)


INTS = st.lists(st.integers(0, 60), min_size=6, max_size=6)


@st.composite
def worlds(draw):
    types = draw(st.lists(st.sampled_from(TYPES), min_size=1, max_size=5))
    routes = []
    n = draw(st.integers(1, 12))
    for r in draw(st.lists(INTS, min_size=n, max_size=n)):
        new = pick_route(types, r)
        if routes and r[5] % 5 < 3:
            # go on from the end of an earlier one, perhaps back to the start of one
            last = routes[r[2] % len(routes)]
            a, fa = last[2], resolve(types[last[2]], last[3])
            ea, ta = TABLES[types[a]][fa]
            b = r[1] % len(types)
            near = [n for n, x in sorted(TABLES[types[b]].items()) if GROUP.get(x[1], x[1]) == GROUP.get(ta, ta)]
            if r[4] % 4 == 0:
                first = routes[r[3] % len(routes)]
                b, near = first[0], [resolve(types[first[0]], first[1])]
            if near:
                new = (a, fa, b, near[r[4] % len(near)])
        routes.append(new)
        if r[5] % 23 == 0:
            routes.append(new)
    return types, routes


OP = st.tuples(st.sampled_from(['set', 'set', 'set', 'fset', 'del', 'edit', 'add', 'drop', 'fail', 'silent']), st.integers(0, 20), st.integers(0, 40), st.integers(-20, 20), st.integers(-20, 20), INTS)


def chain(value, rec):
    """Lines and rings of many nodes"""
    from vrml import route, protofunctions as pf
    types, n, ring, start, branch, x = value
    cls = W()
    ns = [cls() for i in range(n)]
    names = [types[i % len(types)] for i in range(n)]
    rs = [route.ROUTE(ns[i], names[i], ns[i + 1], names[i + 1]) for i in range(n - 1)]
    if ring:
        rs.append(route.ROUTE(ns[-1], names[-1], ns[0], names[0]))
    # shortcuts
    for a, b in branch:
        rs.append(route.ROUTE(ns[a % n], names[a % n], ns[b % n], names[b % n]))
    i = start % n
    for x in x:
        setattr(ns[i], names[i], x)
        reached = {i}
        todo = [i]
        while todo:
            k = todo.pop()
            nxt = [k + 1] if k + 1 < n else ([0] if ring else [])
            nxt += [b % n for a, b in branch if a % n == k]
            for m in nxt:
                if m not in reached:
                    reached.add(m)
                    todo.append(m)
        for k in range(n):
            got = getattr(ns[k], names[k])
            if k in reached:
                check(got == x and type(got) == {'f': float, 'g': float, 't': float, 'i': int}[names[k]], 'node %d of %d holds %r after %r at %d', k, n, got, x, i)
        rec.nt(len(reached) > 10)


def long_chain():
    """True while a change does not get through a chain of 400 routes"""
    import sys
    from vrml import route
    sys.setrecursionlimit(1000)     # Python's default, which the worker raises
    cls = W()
    ns = [cls() for i in range(401)]
    rs = [route.ROUTE(a, 'f', b, 'f') for a, b in zip(ns, ns[1:])]
    try:
        ns[0].f = 3
    except RecursionError:
        return True
    return ns[-1].f != 3


PROBES = {'long-chain': long_chain}
CASES = [
    Case('reactions', reactions.strategy(True), lambda v, rec: reactions.run(v, rec, True), 1000),
    Case('history', st.builds(lambda w, how, ops: (w[0], w[1], how, ops), worlds(), st.integers(0, 9), st.lists(OP, min_size=1, max_size=10)), history, 6000),
    Case('chain', st.tuples(st.lists(st.sampled_from(['f', 'g', 't', 'i']), min_size=1, max_size=4), st.integers(2, 100), st.booleans(), st.integers(0, 20),
                            st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99)), max_size=5), st.lists(st.integers(-9, 9), min_size=1, max_size=3)), chain, 300),
]
