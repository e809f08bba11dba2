"""C22 node paths form a sound path algebra"""
import gc, weakref
from hypothesis import strategies as st
from harness.core import Case, check

RULE = ('histories of up to 24 operations on up to 12 paths (strong and weak, with and without matrices, and a derived class) over 6 nodes, some with equal contents: extending by a node, a list, another '
        'path of any kind or nothing, failing extensions, dropping paths, invalidating, comparing, common parts, matrix queries, listings walked while paths come and go; after each the '
        'contents, kinds, children, descendants and broken flags of all paths against a model tree. Non-trivial: at least three levels of paths, of which one was dropped or invalidated.')
ASSUMPTIONS = ['whether the descendants include more than two levels is not decided (a unit test fixes two)', 'the broken flag of a path made below a broken path is not decided',
               'paths are extended with +; nodes live as long as the history']


def kinds():
    from vrml import nodepath
    from vrml.vrml97 import nodepath as np97

    class Derived(np97.NodePath):
        """A user's own kind of path"""
    return [np97.NodePath, np97.NodePath, np97.WeakNodePath, Derived, nodepath.NodePath, nodepath.WeakNodePath]


class P:
    """A path of the model: nodes, kind, parent, children; held is the harness's strong reference"""
    def __init__(self, path, nodes, kind, parent):
        self.held, self.ref = path, weakref.ref(path)
        self.nodes, self.kind, self.parent, self.kids = nodes, kind, parent, []
        self.broken = False
        self.made = None

    def live(self):
        """Held, or the parent of a live path"""
        return self.held is not None or any(k.live() for k in self.kids)

    def below(self):
        for k in self.kids:
            if k.live():
                yield k
                for d in k.below():
                    yield d

    def depth(self):
        return 0 if self.parent is None else 1 + self.parent.depth()


def algebra(value, rec):
    from vrml.vrml97 import basenodes
    how, history = value
    Kinds = kinds()
    nodes = [basenodes.Transform(translation=(i // 2, 0, 0), rotation=(0, 1, 0, i // 3)) if (how >> i) & 1 else basenodes.Shape() for i in range(6)]
    paths = []
    touched = False

    def held():
        return [p for p in paths if p.held is not None]

    def verify(what):
        for p in paths:
            x = p.ref()
            if not p.live():
                if x is not None:
                    x = None
                    gc.collect()
                    x = p.ref()
                check(x is None, 'after %s: a path nobody holds is still alive', what)
                continue
            check(x is not None, 'after %s: a path that is the start of a live one died', what)
            check(type(x) is p.kind, 'after %s: path %r is a %s, expected %s', what, p.nodes, type(x).__name__, p.kind.__name__)
            got = [nodes.index(n) for n in x]
            check(got == p.nodes and len(x) == len(p.nodes), 'after %s: path holds %r, expected %r', what, got, p.nodes)
            if not hasattr(p.kind, 'iterchildren'):
                continue
            check(x.parent is (p.parent.ref() if p.parent else None), 'after %s: parent of %r', what, p.nodes)
            if p.broken is not None:
                check(bool(x.broken) == p.broken, 'after %s: path %r broken is %r', what, p.nodes, x.broken)
            kids = list(x.iterchildren())
            want = [k for k in p.kids if k.live()]
            check(sorted(id(k) for k in kids) == sorted(id(k.ref()) for k in want), 'after %s: children of %r are %r, expected %r', what, p.nodes, [[nodes.index(n) for n in k] for k in kids], [k.nodes for k in want])
            desc = list(x.iterdescendents())
            ok = set(id(d.ref()) for d in p.below())
            check(len(set(id(d) for d in desc)) == len(desc) and all(id(d) in ok for d in desc), 'after %s: descendants of %r are %r, expected among %r', what, p.nodes, [[nodes.index(n) for n in k] for k in desc], [d.nodes for d in p.below()])
            near = set(id(k) for k in kids) | set(id(g.ref()) for k in want for g in k.kids if g.live())
            check(near <= set(id(d) for d in desc), 'after %s: descendants of %r lack a child or grandchild', what, p.nodes)
            kids = desc = x = None

    for op, a, b, items in history:
        H = held()
        what = '%s %r' % (op, (a, b, items))
        if op == 'new' or not H:
            if len(paths) >= 12:
                continue
            kind = Kinds[b % len(Kinds)]
            paths.append(P(kind([nodes[i] for i in items]) if items or b & 1 else kind(), list(items), kind, None))
        else:
            p = H[a % len(H)]
            q = H[b % len(H)]
            if op == 'extend':
                if len(paths) >= 12:
                    continue
                form = b % 5
                if form == 0:
                    new, more = p.held + nodes[items[0] if items else 0], items[:1] or [0]
                elif form == 1:
                    if len(q.nodes) > 12:
                        continue
                    new, more = p.held + q.held, q.nodes
                elif form == 2:
                    new, more = p.held + [], []
                else:
                    new, more = p.held + [nodes[i] for i in items], items
                n = P(new, p.nodes + list(more), p.kind, p)
                new = None
                if p.broken is not False:
                    n.broken = None
                p.kids.append(n)
                paths.append(n)
                rec.label('extended by form %d' % form)
                if not hasattr(p.kind, 'iterchildren'):
                    n.parent = None
                    p.kids.remove(n)
            elif op == 'fail':
                try:
                    p.held + [None, 5, 3.5][b % 3]
                except TypeError:
                    pass
                else:
                    check(False, 'extended by %r', [None, 5, 3.5][b % 3])
            elif op == 'drop':
                touched = touched or bool(p.kids)
                p.held = None
            elif op == 'droplast':
                # leaves before their starts
                p = max(H, key=lambda x: (x.depth(), paths.index(x)))
                touched = True
                p.held = None
            elif op == 'invalidate':
                if hasattr(p.kind, 'iterchildren'):
                    touched = True
                    p.held.invalidate()
                    p.broken = True
                    for d in p.below():
                        d.broken = True
            elif op == 'common':
                c = p.held.common(q.held)
                n = 0
                while n < len(p.nodes) and n < len(q.nodes) and p.nodes[n] == q.nodes[n]:
                    n += 1
                check(type(c) is p.kind and [nodes.index(x) for x in c] == p.nodes[:n], 'common part of %r and %r is %r', p.nodes, q.nodes, [nodes.index(x) for x in c])
                check(c == q.held.common(p.held), 'common part of %r and %r differs from that of the second and the first', p.nodes, q.nodes)
                # it is a path by itself, which the caller may change
                c.append(nodes[b % 6])
                check([nodes.index(x) for x in c] == p.nodes[:n] + [b % 6], 'common part of %r and %r, appended to, is %r', p.nodes, q.nodes, [nodes.index(x) for x in c])
                c = None
            elif op == 'common2':
                # with a path that leaves it at a chosen point
                n = b % (len(p.nodes) + 1)
                o = q.kind([nodes[i] for i in p.nodes[:n] + items])
                m = p.nodes[:n] + items
                k = 0
                while k < len(p.nodes) and k < len(m) and p.nodes[k] == m[k]:
                    k += 1
                c = p.held.common(o)
                check([nodes.index(x) for x in c] == p.nodes[:k], 'common part of %r and %r is %r', p.nodes, m, [nodes.index(x) for x in c])
                check(bool(p.held == o) == (p.nodes == m), '%r == %r is %r', p.nodes, m, p.held == o)
                c = o = None
            elif op == 'change':
                # equal but for one node, or one longer
                m = list(p.nodes)
                if m and b & 1:
                    m[b % len(m)] = items[0] if items else (m[b % len(m)] + 1) % 6
                elif b & 2:
                    m = m + items[:1]
                else:
                    m = m[:-1]
                o = q.kind([nodes[i] for i in m])
                check(bool(p.held == o) == (p.nodes == m) and bool(o == p.held) == (p.nodes == m), '%r == %r is %r', p.nodes, m, p.held == o)
                check(bool(p.held != o) == (p.nodes != m), '%r != %r is %r', p.nodes, m, p.held != o)
                o = None
            elif op == 'compare':
                for r in H:
                    check(bool(p.held == r.held) == (p.nodes == r.nodes), '%r == %r is %r', p.nodes, r.nodes, p.held == r.held)
                    check(bool(p.held != r.held) == (p.nodes != r.nodes), '%r != %r is %r', p.nodes, r.nodes, p.held != r.held)
                # with what is no path, and amid such things
                o = [None, 5, 'x', nodes[0], object()][b % 5]
                check(not p.held == o and not o == p.held and p.held != o, '%r equals %r', p.nodes, o)
                check(p.held in [o, p.held] and [o, p.held].index(p.held) == 1, '%r is not found after %r', p.nodes, o)
                o = r = None
            elif op == 'matrix':
                if hasattr(p.kind, 'transformMatrix'):
                    p.held.transformMatrix(inverse=bool(b & 1), translate=bool(b & 2))
            elif op == 'repr':
                repr(p.held), str(p.held)
            elif op == 'walk':
                # a path comes or goes while the children are listed
                if hasattr(p.kind, 'iterchildren') and len(paths) < 12:
                    want = [k for k in p.kids if k.live()]
                    seen = []
                    gone = None
                    for k in (p.held.iterchildren() if b & 1 else p.held.iterdescendents()):
                        seen.append([x for x in p.below() if x.ref() is k][0])
                        k = None
                        if len(seen) == 1:
                            if b & 2:
                                n = P(p.held + nodes[0], p.nodes + [0], p.kind, p)
                                n.broken = None if p.broken is not False else False
                                p.kids.append(n)
                                paths.append(n)
                            elif len(want) > 1 and seen[0] is want[0]:
                                gone = want[-1]
                                gone.held = None
                                gone = gone if not gone.live() else None
                    check(len(set(map(id, seen))) == len(seen), '%s: listed twice', what)
                    for k in want:
                        check((k in seen) or k is gone, '%s: child %r of %r is not listed', what, k.nodes, p.nodes)
                    k = x = None
        p = q = H = None
        verify(what)
        rec.label(op)
        rec.nt(touched and any(x.depth() >= 2 for x in paths))


OPS = ['new', 'extend', 'extend', 'extend', 'extend', 'fail', 'drop', 'drop', 'droplast', 'invalidate', 'common', 'common2', 'change', 'compare', 'matrix', 'walk', 'repr']
ITEMS = st.lists(st.integers(0, 5), max_size=4)
STEP = st.tuples(st.sampled_from(OPS), st.integers(0, 11), st.integers(0, 29), ITEMS)
CHAIN = st.lists(st.tuples(st.just('extend'), st.integers(0, 11), st.integers(0, 29), ITEMS), min_size=3, max_size=7)
NEW = st.tuples(st.just('new'), st.just(0), st.integers(0, 29), ITEMS)
CASES = [
    Case('algebra', st.tuples(st.integers(0, 63), st.tuples(NEW, CHAIN, st.lists(STEP, min_size=1, max_size=18)).map(lambda x: [x[0]] + x[1] + x[2])), algebra, 5000),
]
