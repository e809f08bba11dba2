"""C16 the DEF registry and the owning scene of every node stay correct"""
import gc
from hypothesis import strategies as st
from harness import nodes, scenes, printer
from harness.core import Case, check

RULE = ('history: up to 30 operations over 2 scenes and up to 12 nodes (groups, shapes, switches, a prototype with SFNode and MFNode fields): create (with children, with a DEF name), put '
        'under another by attribute, fset, list assignment or list index, into a scene, make a scene of nodes, set the scene explicitly, register and rename with 4 names, destroy a scene. '
        'After each the scene of every node, every DEF name and every registry entry are compared with a model. Non-trivial: a subtree of two or more nodes was adopted and a name '
        'was given up or taken over. parsed: generated VRML97 texts; every node belongs to the scene, every DEF name finds its last node.')
ASSUMPTIONS = ['acyclic graphs', 'in-place additions to the list of a node that belongs to a scene are not followed', 'a node is registered with one scene only',
               'nodes that belong to one scene are not below a node that is put under another scene']
NAMES = ['x', 'y', 'z', 'USEx']
_w = []


def W():
    if not _w:
        _w.append(nodes.proto('W', nodes.field('n', 'SFNode'), nodes.field('k', 'MFNode'), nodes.field('m', 'SFNode'), nodes.field('f', 'SFFloat')))
    return _w[0]


# type -> node-valued fields
TYPES = {'Group': ['children'], 'Transform': ['children'], 'Shape': ['appearance', 'geometry'], 'Switch': ['choice'], 'W': ['n', 'k', 'm'], 'Collision': ['children', 'proxy'], 'Box': [], 'Appearance': ['material']}
MULTI = ('children', 'choice', 'k')
TNAMES = ['Group', 'Group', 'W', 'W', 'Transform', 'Shape', 'Switch', 'Collision', 'Box', 'Appearance']


class M:
    """The model of one node"""
    def __init__(self, t, home):
        self.t, self.home, self.root, self.name = t, home, None, ''
        self.kids = {}
        self.node = None

    def below(self):
        """The node and all its descendants"""
        out, todo = [], [self]
        while todo:
            m = todo.pop()
            if all(m is not x for x in out):
                out.append(m)
                todo += [c for f in m.kids for c in m.kids[f]]
        return out


class World:
    def __init__(self):
        from vrml.vrml97 import scenegraph
        self.scenes = [scenegraph.SceneGraph() for i in range(2)]
        self.tops = [[], []]
        self.defs = [{}, {}]
        self.ms = []
        self.adopted = self.gaveup = False

    def adopt(self, m, scene):
        """m (which has no scene) comes into a scene"""
        if scene is None or m.root is not None:
            return
        group = [x for x in m.below()]
        self.adopted |= len(group) > 1
        names = {}
        for x in group:
            if x.name:
                names.setdefault(x.name, []).append(x)
        for n, xs in names.items():
            before = self.defs[scene].get(n)
            if before is not None and any(x.root is not None for x in xs):
                # (belonged to the scene already: whether it counts as registered anew is open)
                xs = xs + (before if isinstance(before, list) else [before])
            self.defs[scene][n] = xs[0] if len(xs) == 1 else xs
        for x in group:
            x.root = scene

    def may(self, m, parent_root):
        """Whether m may be put where a scene is parent_root"""
        if parent_root is None or m.root is not None:
            return True
        return all(x.root in (None, parent_root) and x.home == parent_root for x in m.below())

    def verify(self, what):
        from vrml import protofunctions as pf
        for i, m in enumerate(self.ms):
            r = pf.root(m.node)
            want = None if m.root is None else self.scenes[m.root]
            check((r is want) if want is not None else not r, '%s: node %d (%s) belongs to %s, expected %s', what, i, m.t,
                  'no scene' if not r else 'scene %r' % [k for k, s in enumerate(self.scenes) if s is r], m.root)
            check(pf.defName(m.node) == m.name, '%s: node %d has the name %r, expected %r', what, i, pf.defName(m.node), m.name)
        for k, s in enumerate(self.scenes):
            for n in NAMES + ['w']:
                got, want = s.getDEF(n), self.defs[k].get(n)
                if isinstance(want, list):
                    check(any(got is x.node for x in want), '%s: scene %d finds %r under %s', what, k, got, n)
                    self.defs[k][n] = [x for x in want if x.node is got][0]
                else:
                    check(got is (want.node if want else None), '%s: scene %d finds %r under %s, expected %s', what, k, got, n, want and 'node %d' % [x is want for x in self.ms].index(True))


def history(value, rec):
    from vrml import protofunctions as pf
    from vrml.vrml97 import basenodes, scenegraph
    ops = value
    w = World()
    for num, (op, a, b, c, d) in enumerate(ops):
        what = 'operation %d (%s)' % (num, op)
        ms = w.ms
        if op == 'new' or not ms:
            if len(ms) >= 12:
                continue
            t = TNAMES[a % len(TNAMES)]
            m = M(t, b % 2)
            args = {}
            if c % 3 == 0:
                m.name = args['DEF'] = NAMES[d % 3]
            fields = TYPES[t]
            if fields and d % 3 and ms:
                f = fields[c % len(fields)]
                kids = [ms[(c + j) % len(ms)] for j in range(1 + d % 3)] if f in MULTI else [ms[c % len(ms)]]
                kids = [x for i, x in enumerate(kids) if all(x is not y for y in kids[:i])]
                m.kids[f] = kids
                args[f] = [x.node for x in kids] if f in MULTI else kids[0].node
            m.node = W()(**args) if t == 'W' else getattr(basenodes, t)(**args)
            ms.append(m)
        elif op in ('put', 'list', 'index'):
            p, m = ms[a % len(ms)], ms[b % len(ms)]
            fields = [f for f in TYPES[p.t] if (f in MULTI) == (op != 'put')]
            if not fields or any(x is p for x in m.below()) or not w.may(m, p.root):
                continue
            f = fields[c % len(fields)]
            if op == 'put':
                if d % 7 == 6:
                    p.kids[f] = []
                    setattr(p.node, f, None)
                else:
                    p.kids[f] = [m]
                    if d % 2:
                        setattr(p.node, f, m.node)
                    else:
                        pf.getField(p.node, f).fset(p.node, m.node)
                    w.adopt(m, p.root)
            elif op == 'list':
                more = [x for x in (ms[c % len(ms)], ms[d % len(ms)])[:d % 3] if all(y is not p for y in x.below()) and w.may(x, p.root)]
                kids = [m] + more
                if d % 5 == 4:
                    kids = []
                p.kids[f] = list(kids)
                v = [x.node for x in kids]
                if c % 3 == 0:
                    v = tuple(v)
                if d % 2:
                    setattr(p.node, f, v)
                else:
                    pf.getField(p.node, f).fset(p.node, v)
                for x in kids:
                    w.adopt(x, p.root)
            else:
                # in-place, only where nothing follows from it
                if p.root is not None and m.root is None:
                    continue
                getattr(p.node, f).append(m.node)
                p.kids[f] = p.kids.get(f, []) + [m]
        elif op == 'scene':
            k = a % 2
            kids = [x for x in (ms[b % len(ms)], ms[c % len(ms)])[:1 + d % 2] if w.may(x, k)]
            if d % 3 == 0:
                kids = w.tops[k] + kids
            w.tops[k] = list(kids)
            v = [x.node for x in kids]
            if d % 2:
                w.scenes[k].children = v
            else:
                pf.getField(w.scenes[k], 'children').fset(w.scenes[k], v)
            for x in kids:
                w.adopt(x, k)
        elif op == 'root':
            m = ms[a % len(ms)]
            if m.root is None and w.may(m, m.home):
                if b % 2:
                    pf.root(m.node, w.scenes[m.home])
                else:
                    pf.root(m.node, w.scenes[m.home], notify=0)
                w.adopt(m, m.home)
        elif op == 'register':
            m, n = ms[a % len(ms)], NAMES[b % len(NAMES)]
            k = m.home if m.root is None else m.root
            # registered with a scene that is not (yet) its own only if it will be
            w.scenes[k].regDefName(n, m.node)
            if w.defs[k].get(m.name) is m:
                del w.defs[k][m.name]
                w.gaveup |= m.name != n
            w.gaveup |= w.defs[k].get(n) not in (None, m)
            m.name = n
            w.defs[k][n] = m
            rec.label('register')
        elif op == 'renew':
            k = a % 2
            old = w.scenes[k]
            gone = [x for x in ms if x.root == k]
            kids = []
            if b % 3 == 0:
                # the scene goes, its nodes belong to none
                w.scenes[k] = None
                old = None
                gc.collect()
                for x in gone:
                    x.root = None
                w.defs[k] = {}
                w.tops[k] = []
                v = [x for x in (ms[c % len(ms)], ms[d % len(ms)])[:d % 3] if x.root is None and w.may(x, k)]
                v = [x for i, x in enumerate(v) if all(x is not y for y in v[:i])]
                w.scenes[k] = scenegraph.SceneGraph(children=[x.node for x in v])
                w.tops[k] = list(v)
                group = {}
                for x in v:
                    for y in x.below():
                        group[id(y)] = y
                names = {}
                for y in group.values():
                    y.root = k
                    if y.name:
                        names.setdefault(y.name, []).append(y)
                w.defs[k] = {n: (xs if len(xs) > 1 else xs[0]) for n, xs in names.items()}
                rec.label('scene destroyed')
            old = None
        rec.label(op)
        w.verify(what)
    rec.nt(w.adopted and w.gaveup)


def parsed(value, rec):
    """Every node of a parsed scene belongs to it"""
    from vrml import protofunctions as pf
    model, layout = value
    text, routes = printer.print_scene(model, layout)
    scene = scenes.parse(text)
    top, defs = scenes.resolve(model)
    found = {}

    def walk(m, n):
        if m is None or id(m) in found:
            return
        found[id(m)] = n
        check(pf.root(n) is scene, 'a parsed %s belongs to %r\n%s', m.type, pf.root(n), text)
        check(pf.defName(n) == (m.name or ''), 'a parsed %s has the name %r, expected %r\n%s', m.type, pf.defName(n), m.name, text)
        for f, v in m.fields.items():
            r = getattr(n, f)
            if isinstance(v, scenes.M):
                walk(v, r)
            elif isinstance(v, list) and v and isinstance(v[0], scenes.M):
                for x, y in zip(v, r):
                    walk(x, y)
    for m, n in zip(top, scene.children):
        walk(m, n)
    for name, m in defs.items():
        check(scene.getDEF(name) is found[id(m)], '%s finds %r\n%s', name, scene.getDEF(name), text)
    check(pf.root(scene) is scene, 'a scene belongs to %r', pf.root(scene))
    rec.nt(len(found) > 2 and bool(defs))


SMALL = st.integers(0, 30)
OP = st.tuples(st.sampled_from(['new', 'new', 'new', 'put', 'put', 'list', 'list', 'index', 'scene', 'scene', 'root', 'register', 'register', 'register', 'renew']), SMALL, SMALL, SMALL, SMALL)
CASES = [
    Case('history', st.lists(OP, min_size=12, max_size=30), history, 8000),
    Case('parsed', st.tuples(scenes.scenes(values=printer.SHORT, redef=True), printer.LAYOUT), parsed, 600),
]
