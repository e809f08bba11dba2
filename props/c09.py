"""C09 observers see every change of a watched field, exactly once"""
import gc
import numpy as np
from hypothesis import strategies as st
from harness import vals, nodes, reactions
from harness.core import Case, check

RULE = ('histories of up to 16 operations (construct, read, assign by attribute / set / silent set, assign an equal value, failing assign, delete, '
        'silent delete, in-place list edits incl. of lists no longer in use) over up to 3 nodes of a prototype with 9 field types or of built-in '
        'types, with one observer per node and field; the notifications of every operation are compared with those a model predicts. '
        'Non-trivial: at least 3 operations that must notify. reactions: observers that set further fields while they are told of a change, up to five deep; '
        'every observer is told of every change once, with its value (non-trivial: a change led to two others).')
ASSUMPTIONS = ['observers connect to one signal of one field of one node (Field.watch)', 'in-place edits of arrays and string lists are not announced',
               'list edits that leave the membership unchanged may or may not be announced']

FT = [('b', 'SFBool'), ('i', 'SFInt32'), ('s', 'SFString'), ('v', 'SFVec3f'), ('c', 'SFColor'), ('m', 'MFFloat'), ('ms', 'MFString'), ('mv', 'MFVec3f'),
      ('n', 'SFNode'), ('k', 'MFNode'), ('k2', 'MFNode')]
VALUES = {
    'SFBool': [True, False, 'TRUE', 0], 'SFInt32': [0, 3, '3', 3.0], 'SFString': ['', 'a', ['a'], 'b'], 'SFVec3f': [(0, 0, 0), [1, 2, 3], '1 2 3', np.ones(3)],
    'SFColor': ['red', (1, 0, 0), (.5, .5, .5)], 'MFFloat': [[], [1, 2], '1 2', 4], 'MFString': [[], 'a', ['a'], ['a', 'b']],
    'MFVec3f': [[], [(1, 2, 3)], [[1, 2, 3], [4, 5, 6]]]}
BAD = {'SFBool': np.array([1, 2]), 'SFInt32': 'x', 'SFString': ['a', 1], 'SFVec3f': (1, 2), 'SFColor': 'nocolour', 'MFFloat': ['x'], 'MFString': 5,
       'MFVec3f': [1, 2], 'SFNode': 'x', 'MFNode': ['x']}
# plain results of VALUES by type
PLAIN = {
    'SFBool': [1, 0, 1, 0], 'SFInt32': [0, 3, 3, 3], 'SFString': ['', 'a', 'a', 'b'], 'SFVec3f': [(0, 0, 0), (1, 2, 3), (1, 2, 3), (1, 1, 1)],
    'SFColor': [(1, 0, 0), (1, 0, 0), (.5, .5, .5)], 'MFFloat': [[], [1, 2], [1, 2], [4]], 'MFString': [[], ['a'], ['a'], ['a', 'b']],
    'MFVec3f': [[], [(1, 2, 3)], [(1, 2, 3), (4, 5, 6)]]}
DEFAULT = {'SFBool': 0, 'SFInt32': 0, 'SFString': '', 'SFVec3f': (0, 0, 0), 'SFColor': (0, 0, 0), 'MFFloat': [], 'MFString': [], 'MFVec3f': [], 'SFNode': None, 'MFNode': []}

_classes = {}


def classes():
    if not _classes:
        from vrml.vrml97 import basenodes
        _classes[0] = (nodes.proto('W', *[nodes.field(n, t) for n, t in FT]), FT)
        _classes[1] = (basenodes.Transform, [('translation', 'SFVec3f'), ('bboxCenter', 'SFVec3f'), ('children', 'MFNode')])
        _classes[2] = (basenodes.Shape, [('appearance', 'SFNode'), ('geometry', 'SFNode')])
        _classes[3] = (basenodes.IndexedFaceSet, [('coord', 'SFNode'), ('ccw', 'SFBool'), ('convex', 'SFBool')])
        _classes[4] = (basenodes.Switch, [('choice', 'MFNode'), ('whichChoice', 'SFInt32')])
        _classes[5] = (basenodes.PositionInterpolator, [('key', 'MFFloat'), ('keyValue', 'MFVec3f')])
        _classes[6] = (basenodes.Text, [('string', 'MFString'), ('length', 'MFFloat'), ('fontStyle', 'SFNode')])
    return _classes


BUILTIN_DEFAULT = {('IndexedFaceSet', 'ccw'): 1, ('IndexedFaceSet', 'convex'): 1, ('Switch', 'whichChoice'): -1}


def plain(t, v):
    if t == 'SFNode':
        return None if not v else id(v)
    if t == 'MFNode':
        return [id(x) for x in v]
    return vals.plain(t, v)


class Node:
    def __init__(self, which, initial, pool):
        self.cls, self.ft = classes()[which]
        kw, self.model = {}, {}
        for f, n in initial:
            name, t = self.ft[f % len(self.ft)]
            o, p = pick(t, n, pool)
            kw[name] = o
            self.model[name] = p
        self.node = self.cls(**kw)
        from vrml import protofunctions
        self.f = {name: protofunctions.getField(self.node, name) for name, t in self.ft}
        # what an observer that is told finds in the node (nothing, if the field is unset: looking there would set it)
        def look(name, t):
            return lambda node: (plain(t, getattr(node, name)),) if self.f[name].fhas(node) else ()
        self.logs = {name: nodes.Log(self.node, self.f[name], look(name, t)) for name, t in self.ft}

    def default(self, name, t):
        return BUILTIN_DEFAULT.get((self.cls.__name__, name), DEFAULT[t])


def pick(t, n, pool):
    """(object, plain result)"""
    if t == 'SFNode':
        o = [None, pool[0], pool[1], [pool[2]]][n % 4]
        return o, [None, id(pool[0]), id(pool[1]), id(pool[2])][n % 4]
    if t == 'MFNode':
        items = [[], [0], [1, 2], [0, 1, 2], [2, 2], [3]][n % 6]
        o = [pool[i] for i in items]
        if items == [3]:
            return pool[3], [id(pool[3])]  # a single node
        return (tuple(o) if n % 2 else o), [id(x) for x in o]
    k = n % len(VALUES[t])
    o = VALUES[t][k]
    return (o.copy() if isinstance(o, np.ndarray) else o), PLAIN[t][k]


def edit_list(lst, n, pool):
    """An in-place edit; returns the exception type it ended with, if any"""
    x = pool[n % len(pool)]
    size = len(lst)
    try:
        k = (n // len(pool)) % 12
        if k == 0:
            lst.append(x)
        elif k == 1:
            lst.insert(n % (size + 1), x)
        elif k == 2:
            del lst[n % (size + 1)]
        elif k == 3:
            lst.pop()
        elif k == 4:
            lst.remove(x)
        elif k == 5:
            lst[n % (size + 1)] = x
        elif k == 6:
            lst[:n % 3] = [x]
        elif k == 7:
            lst += [x]
        elif k == 8:
            lst.extend([x, pool[0]])
        elif k == 9:
            lst.clear()
        elif k == 10:
            lst[:] = [pool[1], x]
        else:
            lst.reverse()
    except (IndexError, ValueError) as e:
        return type(e)
    return None


def only_copies(before, after, n, pool):
    """Did edit n only add further copies of items that the assigned slice held already?"""
    k = (n // len(pool)) % 12
    if k not in (6, 10):
        return False
    size = min(n % 3, len(before)) if k == 6 else len(before)
    old, new = before[:size], after[:len(after) - len(before) + size]
    return set(new) <= set(old) and all(new.count(x) >= old.count(x) for x in old)


def history(value, rec):
    from vrml.vrml97 import basenodes
    starts, ops = value
    pool = [basenodes.Group(), basenodes.Box(), basenodes.Group(), basenodes.Sphere()]
    w = [Node(which, initial, pool) for which, initial in starts]
    old = []
    must = 0
    for n, (op, a, f, arg) in enumerate(ops):
        nd = w[a % len(w)]
        name, t = nd.ft[f % len(nd.ft)]
        field = nd.f[name]
        expected = []
        where = 'operation %d (%s) on %s.%s' % (n, op, nd.cls.__name__, name)
        anynumber = False
        if op in ('attr', 'fset', 'silent'):
            o, p = pick(t, arg, pool)
            if op == 'attr':
                setattr(nd.node, name, o)
            elif op == 'fset':
                field.fset(nd.node, o)
            else:
                field.fset(nd.node, o, 0)
            nd.model[name] = p
            if op != 'silent':
                expected = [('set', p)]
        elif op == 'again':
            # the very value the field has
            cur = getattr(nd.node, name)
            nd.model.setdefault(name, nd.default(name, t))
            setattr(nd.node, name, cur)
            expected = [('set', nd.model[name])]
        elif op == 'fail':
            try:
                if arg % 2:
                    setattr(nd.node, name, BAD[t])
                else:
                    field.fset(nd.node, BAD[t])
            except ValueError:
                pass
            else:
                check(False, '%s: bad value accepted', where)
        elif op in ('del', 'fdel', 'silent del'):
            held = getattr(nd.node, name) if t == 'MFNode' and name in nd.model else None
            try:
                if op == 'del':
                    delattr(nd.node, name)
                elif op == 'fdel':
                    field.fdel(nd.node)
                else:
                    field.fdel(nd.node, 0)
            except AttributeError:
                check(name not in nd.model, '%s: AttributeError although it is set', where)
            else:
                check(name in nd.model, '%s: no AttributeError although it is unset', where)
                del nd.model[name]
                if op != 'silent del':
                    expected = [('del', None)]
                if held is not None:
                    old.append(held)
        elif op == 'read':
            got = plain(t, [getattr, lambda x, y: field.fget(x)][arg % 2](nd.node, name))
            nd.model.setdefault(name, nd.default(name, t))
            check(vals.same(got, nd.model[name]), '%s: read %r, expected %r', where, got, nd.model[name])
        elif op == 'edit':
            lists = [x for x, y in nd.ft if y == 'MFNode']
            if not lists:
                continue
            name, t = lists[f % len(lists)], 'MFNode'
            lst = getattr(nd.node, name)
            before = nd.model.setdefault(name, [])
            held = [id(x) for x in lst]
            failed = edit_list(lst, arg, pool)
            after = [id(x) for x in lst]
            nd.model[name] = after
            where = 'operation %d (edit %d) on %s.%s' % (n, arg, nd.cls.__name__, name)
            if failed:
                check(after == before, '%s: failed but changed the list', where)
            elif sorted(after) != sorted(before):
                if only_copies(held, after, arg, pool):
                    # (the observers may be told or not)
                    for l in nd.logs.values():
                        l.take()
                else:
                    expected = [('set', after)]
                    anynumber = True
            else:
                for l in nd.logs.values():
                    l.take()
        elif op == 'edit old':
            if old:
                edit_list(old[arg % len(old)], arg, pool)
        elif op == 'gc':
            gc.collect()
        must += bool(expected)
        for m in w:
            for fname, ft in m.ft:
                events = m.logs[fname].take()
                if events:
                    has = (m.model[fname],) if fname in m.model else ()
                    seen = m.logs[fname].seen
                    check(len(seen) == len(has) and all(vals.same(x, y) for x, y in zip(seen, has)),
                          '%s: the observer of %s.%s found %r in the node, not the final %r', where, m.cls.__name__, fname, seen, has)
                if m is nd and fname == name:
                    if anynumber:
                        check(len(events) >= 1, '%s: no notification', where)
                        check(all(s == ('set', m.f[fname]) for s, *_ in events), '%s: notifications %r', where, events)
                        check(plain(ft, events[-1][2]) == expected[0][1], '%s: last notification has %r', where, events[-1][2])
                        check(all(v is getattr(m.node, fname) for s, x, v in events), '%s: notified with something else than the list', where)
                        continue
                    check(len(events) == len(expected), '%s: %d notifications instead of %d: %r', where, len(events), len(expected), events)
                    for (s, sender, v), (kind, want) in zip(events, expected):
                        check(s == (kind, m.f[fname]) and sender is m.node, '%s: notification %r', where, (s, sender))
                        if kind == 'set':
                            check(vals.same(plain(ft, v), want), '%s: notified value %r, expected %r', where, v, want)
                else:
                    check(not events, '%s: notification of %s.%s: %r', where, m.cls.__name__, fname, events)
        # values follow the model (only what is set, reading would set it)
        for m in w:
            for fname, ft in m.ft:
                check(bool(m.f[fname].fhas(m.node)) == (fname in m.model), '%s: %s.%s set is %r', where, m.cls.__name__, fname, m.f[fname].fhas(m.node))
                if fname in m.model:
                    got = plain(ft, getattr(m.node, fname))
                    check(vals.same(got, m.model[fname]), '%s: %s.%s is %r, expected %r', where, m.cls.__name__, fname, got, m.model[fname])
    rec.nt(must >= 3)
    for op, *_ in ops:
        rec.label(op)


OP = st.tuples(st.sampled_from(['attr', 'attr', 'fset', 'silent', 'again', 'fail', 'del', 'del', 'fdel', 'silent del', 'read', 'edit', 'edit', 'edit', 'edit old', 'gc']),
               st.integers(0, 2), st.integers(0, 20), st.integers(0, 71))
START = st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5, 6]), st.lists(st.tuples(st.integers(0, 20), st.integers(0, 11)), max_size=4))
CASES = [
    Case('history', st.tuples(st.lists(START, min_size=1, max_size=3), st.lists(OP, min_size=2, max_size=16)), history, 5000),
    Case('reactions', reactions.strategy(False), lambda v, rec: reactions.run(v, rec, False), 1000),
]
