"""C11 cached data disappears when anything it depends on changes"""
import gc, weakref
from hypothesis import strategies as st
from harness import nodes
from harness.core import Case, check

RULE = ('histories of up to 22 operations over 2 caches and the global one, up to 4 nodes and 3 keys: store with up to 3 dependencies (fields by name '
        'or field object, existence of nodes, signals), add dependencies, store again, set/delete/route/edit lists/failing sets, destroy nodes and '
        'create others (reusing identities), send signals, drop or keep holders; all entries are compared with a model after every operation. '
        'Non-trivial: at least one entry disappeared and one stayed through a change of something else. '
        'wide: up to 12 clients with up to 12 keys each, one entry with up to 40 dependencies (fields, objects, signals, other holders), of which any one changes. Non-trivial: more than 8.')
ASSUMPTIONS = ['silent sets are not changes', 'cleared data may read as None instead of the given default', 'clients, senders and depended-on objects are nodes']

_cls = []


def W():
    if not _cls:
        _cls.append(nodes.proto('W', nodes.field('a', 'SFFloat'), nodes.field('b', 'MFFloat'), nodes.field('c', 'MFNode'), nodes.field('d', 'SFNode')))
    return _cls[0]


F = ['a', 'b', 'c', 'd']
KEYS = ['', 'k', ('t', 1)]
GONE = object()


def change(node, f, how, arg):
    """Change (or not) a field; returns whether it was changed"""
    fld = getattr(type(node), f)
    from vrml.vrml97 import basenodes
    value = {'a': 1.0 + arg, 'b': [1.0] * arg, 'c': [basenodes.Box()], 'd': basenodes.Box()}[f]
    if how == 0:
        setattr(node, f, value)
    elif how == 1:
        fld.fset(node, value)
    elif how == 2:
        if not fld.fhas(node):
            return False
        delattr(node, f)
    elif how == 3:
        try:
            setattr(node, f, 'bad value')
        except ValueError:
            pass
        return False
    elif how == 4:
        getattr(node, f)
        return False
    elif how == 5:
        if f != 'c':
            return False
        node.c.append(basenodes.Box())
    elif how == 6:
        from vrml import route
        if f in 'cd':
            return False
        src = W()()
        r = route.ROUTE(source=src, sourceField=f, destination=node, destinationField=['set_' + f, f][arg % 2])
        setattr(src, f, value)
        del r
    return True


def history(value, rec):
    from vrml import cache as cachemodule
    from pydispatch import dispatcher
    nclients, ops = value
    cls = W()
    caches = [cachemodule.Cache(), cachemodule.Cache(), cachemodule.CACHE]
    world = [cls() for i in range(nclients)]
    serial = [0]
    # (cache number, node number, key) -> [data, deps]; a node number stands for the node now there
    model = {}
    holders, kept = {}, []
    lost = stayed = False

    def verify(where):
        for ci, c in enumerate(caches):
            for ni, n in enumerate(world):
                if n is None:
                    continue
                for k in KEYS:
                    want = model.get((ci, ni, k))
                    default = object()
                    got = c.getData(n, k, default)
                    if want is None or want[0] is GONE:
                        check(got is default or got is None, '%s: cache %d has %r for node %d key %r, should be gone', where, ci, got, ni, k)
                    else:
                        check(got is want[0], '%s: cache %d has %r for node %d key %r, expected %r', where, ci, got, ni, k, want[0])
                        h = c.getHolder(n, k)
                        check(h is not None and h.data is want[0], '%s: holder %r', where, h)

    def touch(pred):
        nonlocal lost, stayed
        for m in model.values():
            if m[0] is GONE:
                continue
            if any(pred(d) for d in m[1]):
                m[0] = GONE
                lost = True
            else:
                stayed = True

    def depend(h, m, how, b, f):
        live = [i for i, n in enumerate(world) if n is not None]
        i = live[b % len(live)]
        name = F[f % 4]
        if how == 0:
            h.depend(world[i], name)
            m[1].add(('field', i, name))
        elif how == 1:
            h.depend(world[i], getattr(cls, name))
            m[1].add(('field', i, name))
        elif how == 2:
            h.depend(world[i])
            m[1].add(('object', i))
        elif how == 3:
            h.depend_signal('sig%d' % (f % 2), world[i])
            m[1].add(('signal', 'sig%d' % (f % 2), i))
        elif how == 4:
            h.depend_signal('sig%d' % (f % 2))
            m[1].add(('signal', 'sig%d' % (f % 2), None))
        else:
            h.depend(world[i], ['set_' + name, name + '_changed'][f % 2])
            m[1].add(('field', i, name))

    for n, (op, a, b, f, k, arg) in enumerate(ops):
        live = [i for i, x in enumerate(world) if x is not None]
        where = 'operation %d (%s)' % (n, op)
        key = (a % 3, live[b % len(live)], KEYS[k % 3]) if live else None
        if op == 'new':
            if len(world) < 8:
                world.append(cls())
        elif not live:
            continue
        elif op in ('store', 'replace'):
            if op == 'replace':
                # an entry that is there, whose holder stays in use
                keys = sorted((kk for kk in model if world[kk[1]] is not None and model[kk][0] is not GONE), key=repr)
                if not keys:
                    continue
                key = keys[b % len(keys)]
                k = KEYS.index(key[2])
                kept.append(caches[key[0]].getHolder(world[key[1]], key[2]))
                rec.label('replaced while held')
            serial[0] += 1
            data = ['data %d' % serial[0], [serial[0]], cls(), 0, '', [], False, 0.0][arg % 8]
            if key in holders and arg % 4 == 1:
                kept.append(holders[key])
            cache = caches[key[0]]
            if arg % 2:
                h = cache.holder(world[key[1]], data, KEYS[k % 3])
            else:
                h = cachemodule.CacheHolder(world[key[1]], data, KEYS[k % 3], cache)
            m = model[key] = [data, set()]
            holders.pop(key, None)
            for j in range(f % 4):
                depend(h, m, (arg + j) % 6, b + j + a, f + j)
            if arg % 5 < 2:
                holders[key] = h
            h = None
        elif op == 'depend':
            if key in model and model[key][0] is not GONE:
                h = caches[key[0]].getHolder(world[key[1]], key[2])
                depend(h, model[key], arg % 6, b + a, f)
                h = None
        elif op == 'restore':
            if key in model and model[key][0] is not GONE:
                h = caches[key[0]].getHolder(world[key[1]], key[2])
                serial[0] += 1
                model[key][0] = ['data %d' % serial[0], [], 0][arg % 3]
                h.set(model[key][0])
                h = None
        elif op == 'change':
            i, name = key[1], F[f % 4]
            if change(world[i], name, (k + arg) % 7, arg % 5):
                touch(lambda d: d == ('field', i, name))
                rec.label('change')
        elif op == 'signal':
            i, s = key[1], 'sig%d' % (f % 2)
            dispatcher.send(s, world[i])
            touch(lambda d: d[0] == 'signal' and d[1] == s and d[2] in (i, None))
        elif op == 'destroy':
            i = key[1]
            r, ident = weakref.ref(world[i]), id(world[i])
            world[i] = None
            gc.collect()
            check(r() is None, '%s: the cache keeps a client or dependency alive', where)
            for kk in [kk for kk in model if kk[1] == i]:
                del model[kk]
                holders.pop(kk, None)
            touch(lambda d: d == ('object', i))
            rec.label('destroy')
            # another node, of the same identity if that can be had
            if arg % 2 and len(world) < 8:
                more = []
                for j in range(30):
                    more.append(cls())
                    if id(more[-1]) == ident:
                        rec.label('identity reused')
                        break
                world.append(more[-1])
                more = None
        elif op == 'forget':
            holders.clear()
            kept[:] = []
        elif op == 'gc':
            gc.collect()
        verify(where)
    rec.nt(lost and stayed)


def wide(value, rec):
    """Many clients and keys, and data with many dependencies, of which one changes"""
    from vrml import cache as cachemodule
    from pydispatch import dispatcher
    nclients, nkeys, deps, extra, (which, how, arg) = value
    cls = W()
    cache = cachemodule.Cache() if arg % 2 else cachemodule.CACHE
    clients = [cls() for i in range(nclients)]
    things = [cls() for i in range(len(deps))]
    others = {}
    for i, c in enumerate(clients):
        for k in range(nkeys):
            others[i, k] = cache.holder(c, ('data', i, k), key=('key', k))
    # (the data that depends on it all)
    target = (nclients - 1, nkeys - 1)
    h = others[target]
    inner = {}
    for n, (kind, f) in enumerate(deps):
        if kind == 0:
            h.depend(things[n], F[f])
        elif kind == 1:
            h.depend(things[n])
        elif kind == 2:
            h.depend_signal('sig%d' % f, things[n])
        elif kind == 3:
            h.depend_signal('any%d' % n)
        else:
            # data of another entry, by its holder
            inner[n] = cache.holder(things[n], 'inner %d' % n, key='inner')
            h.depend(inner[n])
    # what others depend on is theirs alone
    for n, f in extra:
        i, k = n % nclients, n % nkeys
        if (i, k) != target:
            others[i, k].depend(cls(), F[f])
    del h
    gc.collect(0)

    def verify(gone, where):
        for (i, k) in others:
            got = cache.getData(clients[i], ('key', k), GONE)
            if (i, k) == target and gone:
                check(got is GONE or got is None, '%s: the data with %d dependencies is still there, %r', where, len(deps), got)
            else:
                check(got == ('data', i, k), '%s: the data of client %d for key %d is %r', where, i, k, got)
    verify(False, 'when stored')
    n = which % len(deps)
    kind, f = deps[n]
    # of another: nothing happens
    other = cls()
    change(other, F[f], [0, 1][how % 2], 1)
    dispatcher.send('sig%d' % f, other)
    dispatcher.send('none')
    verify(False, 'after changes of others')
    if kind == 0:
        change(things[n], F[f], [0, 1, 6 if f < 2 else 0][how % 3], arg % 5)
    elif kind == 1:
        things[n] = None
        gc.collect()
    elif kind == 2:
        dispatcher.send('sig%d' % f, things[n])
    elif kind == 3:
        dispatcher.send('any%d' % n, other)
    else:
        # another entry's data is dropped: its holder goes once no one else holds it
        r = weakref.ref(inner[n])
        del inner[n]
        things[n] = None
        gc.collect()
        if r() is not None:
            rec.label('holder lives on')
            return
    rec.nt(len(deps) > 8)
    rec.label(['field', 'object', 'signal', 'any sender', 'holder'][kind])
    rec.label('many', len(deps) > 16)
    verify(True, 'after the change of dependency %d of kind %d' % (n, kind))


few = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7])
OP = st.tuples(st.sampled_from(['store', 'store', 'store', 'replace', 'depend', 'change', 'change', 'change', 'change', 'signal', 'destroy', 'restore', 'new', 'forget', 'gc']),
               st.sampled_from([0, 0, 1, 2]), few, few, few, st.integers(0, 14))
CASES = [Case('history', st.tuples(st.integers(1, 4), st.lists(OP, min_size=6, max_size=22)), history, 8000),
         Case('wide', st.tuples(st.integers(1, 12), st.integers(1, 12), st.one_of(*[st.lists(st.tuples(st.integers(0, 4), st.integers(0, 3)), min_size=m, max_size=n) for m, n in ((1, 6), (7, 16), (17, 40))]),
                                st.lists(st.tuples(st.integers(0, 50), st.integers(0, 3)), max_size=6),
                                st.tuples(st.one_of(st.integers(0, 40), st.integers(-4, -1)), st.integers(0, 5), st.integers(0, 9))), wide, 1500)]
