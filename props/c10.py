"""C10 observable lists are lists that announce every change in membership"""
import copy, gc, weakref
from collections import Counter
from hypothesis import strategies as st
from harness.core import Case, check

RULE = ('histories of up to 25 list operations (all mutating methods, operators, index and slice assignments and deletions with positive, negative, '
        'extended and invalid slices, failing operations) over up to 3 observable lists that share up to 7 items (identity-compared objects, '
        'objects that are equal to one another, with and without a hash) and may share a sender; a plain list with the same history is the model, observers of every list, '
        'sender and item record the announcements. Non-trivial: at least 4 operations changed a membership.')
ASSUMPTIONS = ['a sequence that fails while it is being read is not given to a list', 'sorting is by key (items need not be ordered)']


class Item(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'i%d' % self.n


class Equal(Item):
    """Equal to all others of its kind"""
    def __eq__(self, other):
        return isinstance(other, Equal)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'e%d' % self.n


class NoHash(Item):
    """Equal to all others of its kind, without a hash"""
    def __eq__(self, other):
        return isinstance(other, NoHash)

    __hash__ = None

    def __repr__(self):
        return 'h%d' % self.n


KINDS = [Item, Item, Equal, NoHash, Item, Equal, NoHash]


def key(item):
    """the same for items that are equal"""
    return NoHash if isinstance(item, NoHash) else item


class Sender(object):
    pass


def slice_of(a, b, c, size):
    def edge(x):
        x = x % (2 * size + 6)
        return None if x == 0 else x - size - 3
    step = [None, None, None, 1, 2, -1, -2, 3, 0][c % 9]
    return slice(edge(a), edge(b), step)


def apply(l, op, a, b, c, items, other):
    """Run one operation on l; returns (result or exception type)"""
    size = len(l)
    idx = a % (size + 2) - 1 if size else a % 3 - 1
    x = items[b % len(items)]
    several = [items[(b + i * c) % len(items)] for i in range(c % 4)]
    seq = [list, tuple, iter, lambda s: (y for y in s)][a % 4]
    try:
        if op == 'append':
            l.append(x)
        elif op == 'insert':
            l.insert(a % (2 * size + 3) - size - 1, x)
        elif op == 'pop':
            return ('value', l.pop() if a % 2 else l.pop(idx))
        elif op == 'remove':
            l.remove(x)
        elif op == 'del':
            del l[a % (2 * size + 3) - size - 1]
        elif op == 'set':
            l[a % (2 * size + 3) - size - 1] = x
        elif op == 'delslice':
            del l[slice_of(a, b, c, size)]
        elif op == 'setslice':
            l[slice_of(a, b, c, size)] = seq(several)
        elif op == 'extslice':
            # an extended slice of fitting length
            s = slice_of(a, b, c, size)
            l[s] = [items[(b + i) % len(items)] for i in range(len(range(*s.indices(size))))]
        elif op == 'selfslice':
            l[slice_of(a, b, 0, size)] = l
        elif op == 'swap':
            if size > 1:
                i, j = a % size, b % size
                l[i], l[j] = l[j], l[i]
        elif op == 'extend':
            l.extend(seq(several))
        elif op == 'extend other':
            l.extend(other)
        elif op == 'iadd':
            k = l
            k += seq(several)
            check(k is l, '+= made a new list')
        elif op == 'imul':
            if size * (c % 4) < 60:
                k = l
                k *= c % 5 - 1
                check(k is l, '*= made a new list')
        elif op == 'clear':
            l.clear()
        elif op == 'sort':
            l.sort(key=lambda i: (i.n * 7 + a) % 5, reverse=bool(b % 2))
        elif op == 'reverse':
            l.reverse()
        elif op == 'bad extend':
            l.extend(5)
        elif op == 'bad slice':
            l[0:1] = 5
        elif op == 'bad pop':
            l.pop(size + 3)
        elif op == 'bad index':
            l['x'] = x
        elif op == 'bad insert':
            l.insert('x', x)
        elif op == 'bad del':
            del l['x']
        elif op == 'query':
            return ('value', (len(l), x in l, l.count(x), l[:2] + l[1:], list(reversed(l)), l == list(l), l * 2, l + [x], [x] + l, bool(l)))
        elif op == 'index':
            return ('value', l.index(x))
        elif op == 'copy':
            return ('value', list(l.copy()))
    except (IndexError, ValueError, TypeError) as e:
        return ('error', type(e))
    return ('done', None)


READS = ('query', 'index', 'copy')


def ident(v):
    if isinstance(v, (list, tuple)):
        return tuple(ident(x) for x in v)
    return id(v) if isinstance(v, Item) else v


def history(value, rec):
    from pydispatch import dispatcher
    from vrml.olist import OList
    inits, senders, nitems, ops = value
    items = [KINDS[i](i) for i in range(nitems)]
    shared = [Sender(), Sender()]
    lists, models, sender_of = [], [], []
    events = []

    def receiver(signal, sender, **named):
        events.append((signal, sender, named))
        seen[:] = [[ident(list(l)) for l in lists]]
    seen = []
    for i, init in enumerate(inits):
        l = OList([items[k % nitems] for k in init])
        s = senders[i % len(senders)]
        if s == 1:
            l.setSender(shared[0])
        elif s == 2:
            l.setSender(shared[1], extra='X')
        elif s == 3:
            l.setSender(shared[0])
            l.setSender(None)
        lists.append(l)
        models.append(list(l))
        sender_of.append({1: shared[0], 2: shared[1]}.get(s, l))
    for o in lists + shared + items:
        dispatcher.connect(receiver, sender=o)
    changes = 0
    for n, (op, which, a, b, c) in enumerate(ops):
        i = which % len(lists)
        l, m = lists[i], models[i]
        before = list(l)
        others = [x for x in range(len(lists)) if x != i] or [i]
        got = apply(l, op, a, b, c, items, lists[others[a % len(others)]])
        want = apply(m, op, a, b, c, items, list(models[others[a % len(others)]]) if others != [i] else m)
        where = 'operation %d: %s %r on %r' % (n, op, (a, b, c), before)
        check(got[0] == want[0] and (got[0] != 'error' or got[1] is want[1]), '%s gave %r, a list gives %r', where, got, want)
        if got[0] == 'value':
            check(ident(got[1]) == ident(want[1]), '%s gave %r, a list gives %r', where, got, want)
        for k, (x, y) in enumerate(zip(lists, models)):
            check(ident(list(x)) == ident(y), '%s: list %d is %r, should be %r', where, k, list(x), y)
        ev, events[:] = list(events), []
        if got[0] == 'error' or op in READS:
            check(not ev, '%s announced %r', where, ev)
            continue
        # who is told last finds the list as it is now
        if ev:
            check(seen[0][i] == ident(m), '%s: at the last announcement the list did not hold what it holds now', where)
        # announcements to the list's side and the item's side correspond
        sender = sender_of[i]
        extra = {'extra': 'X'} if sender is shared[1] else {}
        tally = {}
        for signal, s, named in ev:
            for k, v in extra.items():
                check(named.get(k) == v, '%s: announcement without extra argument: %r', where, named)
            if signal in ('new', 'del'):
                check(s is sender, '%s: %s sent from %r', where, signal, s)
                item = named['value']
            elif signal in ('added', 'removed'):
                check(named['parent'] is sender, '%s: %s has parent %r', where, signal, named['parent'])
                item = s
            else:
                check(False, '%s: unknown signal %r', where, signal)
            check(any(item is x for x in items), '%s: announcement about %r', where, item)
            tally.setdefault(signal, Counter())[key(item)] += 1
        for x, y in (('new', 'added'), ('del', 'removed')):
            check(tally.get(x, Counter()) == tally.get(y, Counter()), '%s: %s %r but %s %r', where, x, tally.get(x), y, tally.get(y))
        new, gone = tally.get('new', Counter()), tally.get('del', Counter())
        change = Counter(map(key, m))
        change.subtract(Counter(map(key, before)))
        net = Counter(new)
        net.subtract(gone)
        changes += any(change.values())
        for x in items:
            d, e = change[key(x)], net[key(x)]
            if d == e:
                continue
            if op in ('setslice', 'extslice', 'selfslice'):
                # further copies of an item the slice held already
                s = slice_of(a, b, 0 if op == 'selfslice' else c, len(before))
                if x in before[s] and 0 <= e < d:
                    continue
            check(False, '%s: %r went from %d to %d times, announced +%d -%d', where, x, before.count(x), m.count(x), new[key(x)], gone[key(x)])
        rec.label(op)
    rec.nt(changes >= 4)


def lifetime(value, rec):
    """A designated sender that is gone: the list announces itself"""
    from pydispatch import dispatcher
    from vrml.olist import OList
    n, ops = value
    items = [Item(i) for i in range(4)]
    l = OList(items[:n])
    s = Sender()
    l.setSender(s)
    r = weakref.ref(s)
    events = []

    def receiver(signal, sender, **named):
        events.append((signal, sender, named))
    dispatcher.connect(receiver, sender=l)
    l.append(items[0])
    check(not events, 'the list announced itself although it has a sender')
    del s
    gc.collect()
    check(r() is None, 'the list keeps its sender alive')
    rec.nt()
    for k in ops:
        before = len(l)
        if k % 2 and l:
            x = l.pop(k % len(l))
            want = ('del', x)
        else:
            x = items[k % 4]
            l.insert(k % 5, x)
            want = ('new', x)
        check([(sig, nm['value']) for sig, sn, nm in events] == [want] and events[0][1] is l, 'announced %r instead of %r', events, want)
        del events[:]


OPS = ['append', 'insert', 'pop', 'remove', 'del', 'set', 'delslice', 'setslice', 'setslice', 'extslice', 'selfslice', 'swap', 'extend', 'extend other', 'iadd',
       'imul', 'clear', 'sort', 'reverse', 'bad extend', 'bad slice', 'bad pop', 'bad index', 'bad insert', 'bad del', 'query', 'index', 'copy']
OP = st.tuples(st.sampled_from(OPS), st.integers(0, 2), st.integers(0, 20), st.integers(0, 20), st.integers(0, 20))
CASES = [
    Case('history', st.tuples(st.lists(st.lists(st.integers(0, 5), max_size=6), min_size=1, max_size=3), st.lists(st.integers(0, 3), min_size=1, max_size=3),
                              st.integers(1, 7), st.lists(OP, min_size=2, max_size=25)), history, 14000),
    Case('lifetime', st.tuples(st.integers(0, 4), st.lists(st.integers(0, 20), min_size=1, max_size=6)), lifetime, 400),
]
CONFIGS = ['accel0']
