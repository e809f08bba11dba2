"""Observers that change other fields while they are told of a change

The keys (node, field) form groups; within a group they may be joined by routes (a tree), and a key of a group may
have an observer that sets the root of a later group.  Each group's root is set by one observer at most, so what must
happen does not depend on the order in which observers and routes of one field are served.
"""
import gc
from collections import Counter
from hypothesis import strategies as st
from harness import nodes
from harness.core import check

FIELDS = 'abcd'
DEFAULTS = {'a': 0.0, 'b': 0.5, 'c': 2.0, 'd': -1.0}
VALUE = st.integers(-8, 8).map(lambda x: x / 4.0)


def strategy(routes):
    tree = st.lists(st.integers(0, 9), max_size=5 if routes else 2)  # the parent of each further key
    groups = st.lists(st.tuples(tree, st.tuples(st.integers(0, 9), st.integers(0, 9), VALUE, st.integers(0, 2))), min_size=2, max_size=5)
    ops = st.lists(st.tuples(st.sampled_from(['attr', 'attr', 'fset', 'silent', 'del', 'fdel', 'again', 'gc']), st.integers(0, 30), VALUE), min_size=1, max_size=8)
    return st.tuples(groups, ops, st.booleans(), st.booleans())


def run(value, rec, routes):
    from vrml import protofunctions as pf, route
    groups, ops, routes_first, record_first = value
    proto = nodes.proto('R', *[nodes.field(f, 'SFFloat', DEFAULTS[f]) for f in FIELDS])
    total = sum(1 + len(t) for t, _ in groups)
    # (keys next to one another are of the same node)
    made = [proto() for i in range((total + 3) // 4)]
    keys, children, group_of, roots = [], {}, [], []
    for g, (tree, _) in enumerate(groups):
        start = len(keys)
        roots.append(start)
        for j, parent in enumerate([None] + list(tree)):
            k = len(keys)
            keys.append((made[k // 4], FIELDS[k % 4]))
            group_of.append(g)
            children[k] = []
            if j and routes:
                children[start + parent % j].append(k)
    field = {f: pf.getField(proto, f) for f in FIELDS}
    reactions = {}
    for g, (tree, (on, which, v, how)) in enumerate(groups):
        if g:
            target = [k for k in range(len(keys)) if group_of[k] == on % g]
            reactions.setdefault(target[which % len(target)], []).append((roots[g], v, how))
            if how == 2:
                # twice: what the first change reached is reached again
                reactions[target[which % len(target)]].append((roots[g], v + 1, 0))
    log, held = [], []
    seen = {}

    def assign(k, v, how):
        n, f = keys[k]
        if how:
            setattr(n, f, v)
        else:
            field[f].fset(n, v)

    def recorder(k):
        def told(signal, sender, value=None):
            n, f = keys[k]
            log.append((k, signal[0], value))
            seen[k] = (field[f].fget(n),) if field[f].fhas(n) else ()
        return told

    def reactor(todo):
        def told(signal, sender, value=None):
            for target, v, how in todo:
                assign(target, v, how)
        return told

    def connect_observers():
        for k in range(len(keys)):
            mine = [recorder(k)]
            if k in reactions:
                mine.append(reactor(reactions[k]))
            if not record_first:
                mine.reverse()
            for r in mine:
                held.append(r)
                for kind in ('set', 'del', 'route'):
                    field[keys[k][1]].watch(keys[k][0], r, (kind, field[keys[k][1]]))

    def connect_routes():
        for k in sorted(children):
            for c in children[k]:
                held.append(route.ROUTE(source=keys[k][0], sourceField=keys[k][1], destination=keys[c][0], destinationField=keys[c][1]))
    for part in ([connect_routes, connect_observers] if routes_first else [connect_observers, connect_routes]):
        part()
    # the model
    model, expected = {}, []

    def react(k):
        for target, v, how in reactions.get(k, ()):
            change(target, 'set', v)

    def change(k, kind, v):
        model[k] = v
        expected.append((k, kind, v))
        react(k)
        for c in children[k]:
            change(c, 'route', v)
    deep = 0
    for i, (op, a, v) in enumerate(ops):
        k = a % len(keys)
        n, f = keys[k]
        where = 'change %d (%s of key %d)' % (i, op, k)
        del log[:], expected[:]
        seen.clear()
        if op in ('attr', 'fset'):
            assign(k, v, op == 'attr')
            change(k, 'set', v)
        elif op == 'again':
            v = model.setdefault(k, DEFAULTS[f])
            setattr(n, f, getattr(n, f))
            change(k, 'set', v)
        elif op == 'silent':
            field[f].fset(n, v, 0)
            model[k] = v
        elif op in ('del', 'fdel'):
            if k not in model:
                continue
            if op == 'del':
                delattr(n, f)
            else:
                field[f].fdel(n)
            del model[k]
            expected.append((k, 'del', None))
            react(k)
            for c in children[k]:
                # (reading what is to be delivered gives the field its default)
                model[k] = DEFAULTS[f]
                change(c, 'route', DEFAULTS[f])
        else:
            gc.collect()
        deep = max(deep, len({group_of[x] for x, _, _ in expected}))
        check(Counter(log) == Counter(expected), '%s: told %s, expected %s', where, sorted(log, key=repr), sorted(expected, key=repr))
        for k, (n, f) in enumerate(keys):
            check(field[f].fhas(n) == (k in model), '%s: key %d set: %r', where, k, field[f].fhas(n))
            if k in model:
                check(field[f].fget(n) == model[k], '%s: key %d is %r, expected %r', where, k, field[f].fget(n), model[k])
            if k in seen and not (op in ('del', 'fdel') and k == a % len(keys)):
                check(seen[k] == (model[k],), '%s: the observer of key %d found %r, not the final %r', where, k, seen[k], model[k])
    rec.nt(deep >= 3 or (routes and deep >= 2))
    rec.label('groups reached: %d' % deep)
