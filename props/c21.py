"""C21 weak containers act as containers of exactly their live items"""
import gc, operator, weakref
from hypothesis import strategies as st
from harness.core import Case, check

RULE = ('histories of up to 24 operations on two weak lists (or weak node paths, plain or with matrices, of nodes) against plain lists from which dead items are struck: every list method, slices, '
        'comparison, repetition, iteration during which items die, items given as weak references, items equal but not identical, items in reference cycles. tuples: every operation before and '
        'after any items die. dict: histories on the weak-keyed dictionary. Non-trivial: an item died that was in a container, and the container was looked at afterwards.')
ASSUMPTIONS = ['weak tuples search by identity and their index() of an absent item is not decided', 'after a failed sort the order is not decided',
               'a weak tuple may still answer from its live items where the answer is right']


class Item:
    """Compared by key, so that equal items need not be identical"""
    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        return isinstance(other, Item) and self.key == other.key

    def __lt__(self, other):
        return self.key < other.key

    def __gt__(self, other):
        return self.key > other.key

    def __le__(self, other):
        return self.key <= other.key

    def __ge__(self, other):
        return self.key >= other.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Item(%r)' % (self.key,)


class Plain:
    """Compared by identity; cannot be sorted"""


class World:
    """The strong references"""
    def __init__(self, kinds, make):
        self.live = {}
        self.refs = {}
        self.ids = {}
        for i, k in enumerate(kinds):
            x = make(k)
            if k >= 4:
                x.cycle = x
            self.live[i] = x
            self.refs[i] = weakref.ref(x)
            del x

    def name(self, x):
        for i, y in self.live.items():
            if y is x:
                return i
        return repr(x)

    def names(self, l):
        return [self.name(x) for x in l]

    def kill(self, gone):
        for i in gone:
            self.live.pop(i, None)
        if any(self.refs[i]() is not None for i in gone):
            gc.collect()
        for i in gone:
            check(self.refs[i]() is None, 'item %d is kept alive', i)


def make_item(k):
    return Item(k % 4) if k < 12 else Plain()


def make_node(k):
    from vrml.vrml97 import basenodes
    return basenodes.Transform(translation=(k, 0, 0)) if k % 2 else basenodes.Shape()


def outcome(fn, *args, **named):
    """('value', x) or ('error', type)"""
    try:
        return 'value', fn(*args, **named)
    except (IndexError, ValueError, TypeError, AttributeError) as e:
        return 'error', type(e).__name__


def same(w, model, world, what):
    got = world.names(w)
    check(got == model, 'after %s: iteration gives %r, expected %r', what, got, model)
    check(len(w) == len(model), 'after %s: length %d, expected %d', what, len(w), len(model))
    check(bool(w) == bool(model), 'after %s: truth value', what)


def lists(value, rec):
    kinds, history = value
    drive(kinds, history, rec, make_item, 'list')


def paths(value, rec):
    kinds, history, which = value
    drive([k % 12 for k in kinds], history, rec, make_node, 'path97' if which else 'path')


def drive(kinds, history, rec, make, what):
    if what == 'list':
        from vrml.weaklist import WeakList as cls
    elif what == 'path':
        from vrml.nodepath import WeakNodePath as cls
    else:
        from vrml.vrml97.nodepath import WeakNodePath as cls
    world = World(kinds, make)
    ws, models = [cls(), cls()], [[], []]
    died = False
    for step in history:
        op, which, a, b, items, flag = step
        w, m = ws[which], models[which]
        world_ids = sorted(world.live)
        if world_ids:
            ids = [world_ids[i % len(world_ids)] for i in items]
            one = world_ids[a % len(world_ids)]
        else:
            ids, one = [], None
        if one is None and op in ('append', 'insert', 'set', 'remove', 'index', 'indexrange', 'count', 'contains', 'weakitem'):
            continue
        L = world.live
        strong = [L[i] for i in ids]
        lo, hi = [None if x > 8 else x - 5 if x > 4 else x for x in (a % 11, b % 11)]
        sl = slice(lo, hi, [None, None, None, 1, 2, -1, -2][b % 7])
        what_ = '%s %r of %r' % (op, (a, b, ids, flag), m)
        before = list(m)
        r1 = r2 = None
        strongm = [L[i] for i in m]
        if op == 'new':
            ws[which] = w = cls(strong) if flag else cls([weakref.ref(x) for x in strong])
            models[which] = m = list(ids)
        elif op == 'append':
            w.append(L[one])
            m.append(one)
        elif op == 'weakitem':
            [lambda: w.append(weakref.ref(L[one])), lambda: w.insert(0, weakref.ref(L[one])), lambda: w.extend([weakref.ref(L[one])])][b % 3]()
            m.insert(0 if b % 3 == 1 else len(m), one)
        elif op == 'insert':
            w.insert(b - 6, L[one])
            m.insert(b - 6, one)
        elif op == 'extend':
            w.extend([strong, tuple(strong), iter(strong)][b % 3])
            m.extend(ids)
        elif op == 'extendself':
            if len(m) < 12:
                if flag:
                    w.extend(ws[b % 2])
                else:
                    w += ws[b % 2]
                m.extend(list(models[b % 2]))
        elif op == 'iadd':
            x = w
            w += strong
            check(w is x, '%s: += gives another object', what_)
            m.extend(ids)
        elif op == 'imul':
            if len(m) < 6:
                x = w
                w *= b % 4
                check(w is x, '%s: *= gives another object', what_)
                m *= b % 4
        elif op == 'set':
            r1, r2 = outcome(operator.setitem, w, b - 6, L[one]), outcome(operator.setitem, m, b - 6, one)
        elif op == 'setslice':
            if flag and not sl.step:
                r1, r2 = outcome(operator.setitem, w, sl, ws[1 - which]), outcome(operator.setitem, m, sl, list(models[1 - which]))
            else:
                r1, r2 = outcome(operator.setitem, w, sl, strong), outcome(operator.setitem, m, sl, ids)
        elif op == 'del':
            r1, r2 = outcome(operator.delitem, w, b - 6), outcome(operator.delitem, m, b - 6)
        elif op == 'delslice':
            del w[sl]
            del m[sl]
        elif op == 'pop':
            r1, r2 = (outcome(w.pop), outcome(m.pop)) if flag else (outcome(w.pop, b - 6), outcome(m.pop, b - 6))
            if r1[0] == 'value':
                r1 = 'value', world.name(r1[1])
        elif op == 'remove':
            r1, r2 = outcome(w.remove, L[one]), outcome(strongm.remove, L[one])
            models[which] = m = world.names(strongm)
        elif op == 'reverse':
            w.reverse()
            m.reverse()
        elif op == 'sort':
            if what == 'list':
                named = [{}, dict(reverse=True), dict(key=lambda x: -x.key), dict(key=lambda x: (x.key % 2,), reverse=True)][b % 4]
                if all(isinstance(x, Item) for x in strongm):
                    w.sort(**named)
                    strongm.sort(**named)
                    models[which] = m = world.names(strongm)
                elif len(m) > 1:
                    x = outcome(w.sort, key=lambda x: x.missing)
                    del x
            else:
                order = dict((id(L[i]), (i * 7 + b) % 5) for i in m)
                w.sort(key=lambda x: order[id(x)])
                m.sort(key=lambda i: (i * 7 + b) % 5)
        elif op == 'clear':
            w.clear()
            m.clear()
        elif op == 'bad':
            f = [lambda: w.append(5), lambda: w.insert(0, 'x'), lambda: w.extend(strong + [5]), lambda: operator.setitem(w, slice(0, 1), strong + [3.5]), lambda: cls([5]), lambda: operator.iadd(w, [None])][b % 6]
            r = outcome(f)
            check(r == ('error', 'TypeError'), '%s: an item that cannot be weakly referenced: %r', what_, r)
        elif op == 'get':
            r1, r2 = outcome(operator.getitem, w, b - 6), outcome(operator.getitem, m, b - 6)
            if r1[0] == 'value':
                r1 = 'value', world.name(r1[1])
        elif op == 'getslice':
            r1, r2 = ('value', world.names(w[sl])), ('value', m[sl])
        elif op == 'getall':
            r1, r2 = ('value', [world.names(w.get()), world.names(reversed(w)), world.names(list(w)), world.names(tuple(w)), world.names(x for x in w)]), ('value', [m, m[::-1], m, m, m])
        elif op == 'count':
            r1, r2 = outcome(w.count, L[one]), outcome(strongm.count, L[one])
        elif op == 'contains':
            r1, r2 = outcome(operator.contains, w, L[one]), outcome(operator.contains, strongm, L[one])
        elif op == 'index':
            r1, r2 = outcome(w.index, L[one]), outcome(strongm.index, L[one])
        elif op == 'foreign':
            # things that cannot be in the list
            x = [5, None, 'x', (), [], 2.5, object()][a % 7]
            f = [lambda l: bool(x in l), lambda l: l.count(x), lambda l: l.index(x), lambda l: l.remove(x), lambda l: bool(l == x) if l or x not in ([], ()) else None,
                 lambda l: bool(l != x) if l or x not in ([], ()) else None, lambda l: bool(x == l) if l or x not in ([], ()) else None][b % 7]
            r1, r2 = outcome(f, w), outcome(f, list(strongm))
            x = None
        elif op == 'indexrange':
            args = (b - 6,) if flag else (b % 5, b % 5 + items[0] % 4 if items else 9)
            r1, r2 = outcome(w.index, L[one], *args), outcome(strongm.index, L[one], *args)
        elif op == 'compare':
            other = [strong, strongm, strongm[:b % 3], strongm + strong, ws[1 - which], w][b % 6]
            plain = [strong, strongm, strongm[:b % 3], strongm + strong, [L[i] for i in models[1 - which]], strongm][b % 6]
            for f in [operator.eq, operator.ne] + ([operator.lt, operator.le, operator.gt, operator.ge] if what == 'list' and all(isinstance(x, Item) for x in strongm + plain) else []):
                r1, r2 = outcome(f, w, other), outcome(f, strongm, plain)
                if r1[0] == 'value':
                    r1 = 'value', bool(r1[1])
                check(r1 == r2, '%s: %s gives %r, expected %r', what_, f.__name__, r1, r2)
                if what == 'list':
                    r1, r2 = outcome(f, other, w), outcome(f, plain, strongm)
                    check(r1 == r2, '%s: reversed %s gives %r, expected %r', what_, f.__name__, r1, r2)
            del other, plain
        elif op == 'add':
            r1, r2 = (('value', world.names(w + ws[b % 2])), ('value', m + models[b % 2])) if flag else (('value', world.names(w + strong)), ('value', m + ids))
        elif op == 'mul':
            if what == 'list' and len(m) < 8:
                r1, r2 = ('value', [world.names(w * (b % 3)), world.names((b % 3) * w)]), ('value', [m * (b % 3), m * (b % 3)])
        elif op == 'copy':
            x = w.copy()
            same(x, m, world, what_)
            x.append(w)
            check(len(w) == len(m), '%s: the copy is the list itself', what_)
            del x
        elif op == 'copynew':
            ws[1 - which] = cls(w)
            models[1 - which] = list(m)
        elif op == 'repr':
            repr(w), str(w)
        elif op == 'kill':
            gone = sorted(set(ids[:1 + b % 3])) if not flag or not m else sorted({m[i % len(m)] for i in items[:1 + b % 3] + [a]})
            del strong, strongm
            r1 = r2 = None
            if any(i in x for i in gone for x in models):
                died = True
            world.kill(gone)
            for k in (0, 1):
                models[k] = [i for i in models[k] if i not in gone]
            m = models[which]
        elif op == 'walk':
            # items die while the list is walked
            gone = sorted(set(ids[:2])) if not flag or not m else sorted({m[i % len(m)] for i in items[:2]})
            del strong, strongm
            seen, expect, k = [], [], 0
            for x in w:
                seen.append(world.name(x))
                del x
                if len(seen) == 1 + b % 3:
                    gone = [i for i in gone if i != seen[-1]]
                    if any(i in y for i in gone for y in models):
                        died = True
                    world.kill(gone)
            count = 0
            while k < len(m):
                expect.append(m[k])
                count += 1
                if count == 1 + b % 3:
                    models[0], models[1] = [[i for i in y if i not in gone] for y in models]
                    m = models[which]
                k += 1
            check(seen == expect, '%s: the walk during which %r die sees %r, expected %r', what_, gone, seen, expect)
        check(r1 == r2, '%s: gives %r, expected %r', what_, r1, r2)
        strong = strongm = L = r1 = r2 = None
        w = ws[which]
        same(w, models[which], world, what_)
        same(ws[1 - which], models[1 - which], world, what_)
        check(type(w) is cls, '%s: the list is now a %s', what_, type(w).__name__)
        if died and op != 'kill':
            rec.nt()
        rec.label(op)
    # nothing in the end keeps an item alive; the lists still work
    w = x = None
    world.kill(sorted(world.live))
    for w in ws:
        check(list(w) == [] and len(w) == 0, 'after all items died: %r', len(w))


def tuples(value, rec):
    from vrml.weaktuple import WeakTuple
    kinds, members, other, dead, queries = value
    world = World(kinds, make_item)
    n = len(kinds)
    members = [i % n for i in members]
    L = world.live
    if queries and queries[0][1] & 1:
        t = WeakTuple([weakref.ref(L[i]) for i in members])
    else:
        t = WeakTuple(L[i] for i in members)
    gone = sorted(set(i % n for i in dead))
    for stage in (0, 1):
        p = [L.get(i) for i in members]    # None where dead
        bad = [i for i, x in enumerate(p) if x is None]
        o = tuple(L[i % n] for i in other if i % n in L)
        check(bool(t.valid()) == (not bad), 'tuple %r: valid() is %r with %r dead', members, t.valid(), gone)
        check(len(t) == len(p) and bool(t) == bool(p), 'tuple %r: length %d', members, len(t))
        for q, k in queries:
            live = [x for x in L.values()]
            x = live[k % len(live)] if live else Plain()
            k -= 5
            sl = slice(None if k % 4 == 0 else k % 7 - 3, None if k % 3 == 0 else k % 5 - 2, [None, 2, -1][k % 3])
            sane = all(isinstance(y, Item) for y in p + list(o))
            full = True
            if q == 'iter':
                f, g = lambda: [list(t), tuple(t), [y for y in t]], lambda: [p, tuple(p), p]
            elif q == 'get':
                f, g = lambda: t[k], lambda: p[k]
                full = -len(p) <= k < len(p) and p[k] is None
            elif q == 'slice':
                f, g = lambda: t[sl], lambda: tuple(p)[sl]
                full = None in p[sl]
            elif q == 'contains':
                # by identity
                f, g = lambda: bool(x in t), lambda: any(y is x for y in p)
                full = None if any(y is x for y in p) else True
            elif q == 'count':
                f, g = lambda: t.count(x), lambda: sum(y is x for y in p)
            elif q == 'index':
                if not any(y is x for y in p):
                    continue
                f, g = lambda: t.index(x), lambda: [y is x for y in p].index(True)
                full = None
            elif q == 'add':
                f, g = lambda: t + o, lambda: tuple(p) + o
            elif q == 'eq':
                z = [o, tuple(p), tuple(p) + o][k % 3]
                f, g = lambda: [t == z, t != z], lambda: [tuple(p) == z, tuple(p) != z]
            elif q == 'order':
                if not sane and not bad:
                    continue
                z = [o, tuple(y for y in p if y is not None), tuple(y for y in p[:2] if y is not None) + o][k % 3]
                f, g = lambda: [t < z, t <= z, t > z, t >= z], lambda: [tuple(p) < z, tuple(p) <= z, tuple(p) > z, tuple(p) >= z]
            else:
                f, g = lambda: repr(t), None
            try:
                got = 'value', f()
            except (IndexError, TypeError, ValueError) as e:
                got = 'error', type(e).__name__
            except ReferenceError:
                got = 'dead', None
            rec.label('%s %s' % (q, ['live', 'dead'][stage]))
            if q == 'repr':
                check(got[0] == 'value', 'repr of %r: %r', members, got)
                continue
            if bad and full is not False:
                # a dead item is needed (or, where full is None, may be)
                if got[0] == 'dead':
                    continue
                check(full is None, 'tuple %r: %s %d gives %r although %r died', members, q, k, got, gone)
            try:
                want = 'value', g()
            except (IndexError, TypeError, ValueError) as e:
                want = 'error', type(e).__name__
            check(got[0] == want[0] and show(got[1], world) == show(want[1], world), 'tuple %r, dead %r: %s %d gives %r, expected %r', members, gone if stage else [], q, k, got, want)
            if stage and bad:
                rec.nt()
        if not stage:
            p = o = x = y = z = live = f = g = got = want = None
            sane = None
            if gone and set(gone) & set(members):
                rec.nt()
            world.kill(gone)


def show(x, world):
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [show(y, world) for y in x])
    if isinstance(x, (Item, Plain)):
        return world.name(x)
    return x


def dicts(value, rec):
    from vrml.weakkeydictfix import WeakKeyDictionary
    kinds, history, start = value
    # keys are hashed and compared by key: one live item per key value, and others by identity
    world = World(list(range(4)) + [12, 13, 16, 17], make_item)
    L = world.live
    d = WeakKeyDictionary({L[i % 8]: i for i in start} if start else None)
    m = {i % 8: i for i in start}
    died = False
    for op, i, v in history:
        if i not in L:
            continue
        k = L[i]
        r1 = r2 = None
        if op == 'set':
            d[k] = v
            m[i] = v
        elif op == 'del':
            r1, r2 = errors(operator.delitem, d, k), errors(operator.delitem, m, i)
        elif op == 'get':
            r1, r2 = errors(operator.getitem, d, k), errors(operator.getitem, m, i)
        elif op == 'getdefault':
            r1, r2 = (d.get(k), d.get(k, 7)), (m.get(i), m.get(i, 7))
        elif op == 'setdefault':
            r1, r2 = d.setdefault(k, v), m.setdefault(i, v)
        elif op == 'pop':
            r1, r2 = errors(d.pop, k), errors(m.pop, i)
        elif op == 'update':
            d.update({k: v})
            m[i] = v
        elif op == 'clear':
            d.clear()
            m.clear()
        elif op == 'contains':
            r1, r2 = k in d, i in m
        elif op == 'kill':
            died = died or i in m
            del k
            world.kill([i])
            m.pop(i, None)
        k = None
        check(r1 == r2, '%s %d: %r, expected %r', op, i, r1, r2)
        got = sorted((world.name(x), y) for x, y in list(d.items()))
        x = None
        check(got == sorted(m.items()), 'after %s %d: %r, expected %r', op, i, got, m)
        check(len(d) == len(m) and sorted(world.names(list(d.keys()))) == sorted(m) and sorted(world.names(list(d))) == sorted(m) and sorted(d.values()) == sorted(m.values()), 'after %s %d: %r', op, i, m)
        rec.nt(died and op != 'kill')


def errors(fn, *args):
    try:
        return fn(*args)
    except KeyError:
        return 'KeyError'


OPS = ['new', 'append', 'append', 'insert', 'extend', 'extend', 'extendself', 'iadd', 'imul', 'set', 'setslice', 'setslice', 'del', 'delslice', 'pop', 'remove', 'reverse', 'sort', 'clear', 'bad', 'get', 'getslice',
       'getall', 'count', 'contains', 'index', 'indexrange', 'compare', 'add', 'mul', 'copy', 'copynew', 'repr', 'foreign', 'foreign', 'kill', 'kill', 'kill', 'kill', 'walk', 'walk', 'weakitem']
KINDS = st.lists(st.one_of(st.integers(0, 11), st.integers(0, 17)), min_size=2, max_size=9)
SMALL = st.integers(0, 13)
HISTORY = st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 1), SMALL, SMALL, st.lists(st.integers(0, 8), max_size=5), st.booleans()), min_size=3, max_size=24)
FILL = st.tuples(st.just('extend'), st.integers(0, 1), st.just(0), st.just(0), st.lists(st.integers(0, 8), min_size=3, max_size=7), st.just(True))
HISTORY = st.one_of(HISTORY, *[st.tuples(FILL, HISTORY).map(lambda x: [x[0]] + x[1])] * 3)
Q = st.lists(st.tuples(st.sampled_from(['iter', 'get', 'get', 'slice', 'contains', 'contains', 'count', 'index', 'add', 'eq', 'order', 'repr']), st.integers(0, 12)), max_size=8)
CASES = [
    Case('lists', st.tuples(KINDS, HISTORY), lists, 5000),
    Case('paths', st.tuples(KINDS, HISTORY, st.booleans()), paths, 2000),
    Case('tuples', st.tuples(KINDS, st.lists(st.integers(0, 8), max_size=8), st.lists(st.integers(0, 8), max_size=3), st.lists(st.integers(0, 8), max_size=3), Q), tuples, 5000),
    Case('dict', st.tuples(st.just(()), st.lists(st.tuples(st.sampled_from(['set', 'set', 'set', 'del', 'get', 'getdefault', 'setdefault', 'pop', 'update', 'clear', 'contains', 'kill']), st.integers(0, 7), st.integers(0, 5)), max_size=20),
                           st.lists(st.integers(0, 20), max_size=4)), dicts, 2000),
]
