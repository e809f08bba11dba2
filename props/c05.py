"""C05 PROTO instances honour their IS connections and are independent"""
import copy

from hypothesis import strategies as st
from harness import scenes, vals, protos, printer, spec97
from harness.core import Case, check

RULE = ('random prototypes (up to 3, nested up to two deep, fields of all 20 types tied by IS to fields of built-in nodes, Scripts and nested instances, with '
        'fan-out, other body nodes and body routes), parsed or made from Python; up to 12 operations over up to 5 instances: new instance (with values), '
        'assignment, explicit set and deletion on an instance field, on a tied or untied body field at any depth. After every operation every instance is '
        'compared with the model: all cells of one IS connection hold the same value, nothing else changes. spelled: fields tied by the names of their component events on either side, through up to three levels. Non-trivial: a change of a tied field was seen '
        'on its partner while a second instance existed.')
ASSUMPTIONS = ['a body field is tied to one declared field; nodes that are declared defaults are shared by reference, only which node a field holds is compared',
               'fields that a body route could have changed while a program gave values at creation are taken as found']

NONE = object()


def generators():
    @st.composite
    def body(draw):
        g = protos.Gen(draw, 3, extern=False, events=False, more_ties=1)
        b = g.body(2, {})
        # (routes between the instances are C15's business)
        b['routes'] = []
        return b
    op = st.tuples(st.sampled_from(['set', 'set', 'set', 'body', 'body', 'body', 'untied', 'del', 'delbody', 'new', 'append', 'fset']), st.integers(0, 50), st.integers(0, 50),
                   st.lists(st.integers(-50, 50), min_size=4, max_size=4))
    return st.tuples(body(), printer.LAYOUT, st.integers(0, 3), st.lists(op, min_size=1, max_size=12))


def some_value(ft, ints, pool, kind=0):
    """A value of the type from a few integers (and what a field then holds)"""
    a, b, c, d = ints
    if ft == 'SFNode':
        v = pool[a % len(pool)] if b % 4 else None
        return v, ('ref', id(v)) if v is not None else None
    if ft == 'MFNode':
        v = [pool[x % len(pool)] for x in ints[:b % 4]]
        return v, [('ref', id(x)) for x in v]
    kind, count, dt = vals.TYPES[ft]

    def elem(x):
        return {'bool': lambda: x % 2 == 0, 'i': lambda: x, 'I': lambda: abs(x), 'f': lambda: x / 4.0, 'd': lambda: x / 10.0, 'str': lambda: 's%d' % x,
                'color': lambda: (abs(x) % 33) / 32.0}[dt]()
    if kind == 'scalar':
        v = elem(a)
    elif kind == 'vec':
        v = tuple(elem(x) for x in (ints * 2)[:count])
    elif kind == 'list':
        v = [elem(x) for x in ints[:a % 5]]
    else:
        v = [tuple(elem(x + i) for x in (ints * 2)[:count]) for i in range(a % 4)]
    return scenes.give(ft, v), vals.norm(ft, v)


def held(ft, v):
    """What a field holds, nodes by identity"""
    from vrml import node
    if ft == 'SFNode':
        return None if v is None or v is node.NULL else ('ref', id(v))
    if ft == 'MFNode':
        return [('ref', id(c)) for c in v]
    return vals.plain(ft, v)


class Cell:
    def __init__(self, obj, name, ft, default):
        self.obj, self.name, self.ft, self.default = obj, name, ft, default
        self.same, self.to = [], []      # IS partners; route destinations
        self.value = NONE

    def read(self):
        from vrml import protofunctions as pf
        return held(self.ft, pf.getField(self.obj, self.name).fget(self.obj))

    def reach(self, routes=True):
        seen, todo = {id(self): self}, [self]
        while todo:
            c = todo.pop()
            for o in c.same + (c.to if routes else []):
                if id(o) not in seen:
                    seen[id(o)] = o
                    todo.append(o)
        return list(seen.values())


class Instance:
    """A real instance and the cells of it and of everything in its body"""
    def __init__(self, obj, decl, env):
        self.obj, self.cells, self.order = obj, {}, []
        self.tops = []
        self.keep = [obj]
        self.members = set()
        self.rendered = []
        self.add(obj, decl, env, True)

    def cell(self, obj, name, ft, default):
        c = self.cells.get((id(obj), name))
        if c is None:
            c = self.cells[(id(obj), name)] = Cell(obj, name, ft, default)
            self.order.append(c)
        return c

    def add(self, obj, decl, env, top=False):
        """The fields of an instance and its body"""
        from vrml import protofunctions as pf
        check(id(obj) not in self.members, 'a node appears twice in one instance')
        self.members.add(id(obj))
        check(pf.protoName(obj) == decl[1], 'a %s is in the place of a %s', pf.protoName(obj), decl[1])
        own = {}
        for kind, ft, name, default in decl[2]:
            own[name] = self.cell(obj, name, ft, default)
        if top:
            self.tops = list(own.values())
        inner = dict(env)
        for d in decl[3]['decls']:
            inner[d[1]] = (d, dict(inner))
        sg = pf.getSceneGraph(obj)
        check(bool(sg), 'an instance has no body')
        model, names = decl[3], {}
        self.rendered.append(obj)
        check(len(sg.children) == len(model['children']), 'the body has %d nodes, declared were %d', len(sg.children), len(model['children']))

        def walk(n, real):
            if n[0] == 'USE':
                check(real is names[n[1]], 'USE %s is another node', n[1])
                return
            self.keep.append(real)
            check(pf.protoName(real) == n[1], 'a %s is in the place of a %s', pf.protoName(real), n[1])
            if n[2]:
                names[n[2]] = real
            if n[0] == 'S':
                self.members.add(id(real))
                fields = {'url': ('MFString', []), 'directOutput': ('SFBool', 0), 'mustEvaluate': ('SFBool', 0)}
                for kind, ft, name, default in n[4]:
                    fields[name] = (ft, NONE if protos.is_is(default) else default)
                ties = [(name, d[1]) for kind, ft, name, d in n[4] if protos.is_is(d)]
            elif n[1] in inner:
                d, denv = inner[n[1]]
                self.add(real, d, denv)
                fields = {name: (ft, default) for kind, ft, name, default in d[2]}
                ties = []
            else:
                check(id(real) not in self.members, 'a node appears twice in one instance')
                self.members.add(id(real))
                fields = {f: (x[1], x[2]) for f, x in spec97.NODES[n[1]].items()}
                ties = []
            for f, (ft, default) in sorted(fields.items()):
                self.cell(real, f, ft, default)
            given = {}
            for f, v in n[3]:
                if protos.is_is(v):
                    ties.append((f, v[1]))
                else:
                    given[f] = v
            for f, name in ties:
                a, b = self.cell(real, f, None, None), own[name]
                a.same.append(b)
                b.same.append(a)
            for f, v in given.items():
                ft = fields[f][0]
                c = self.cell(real, f, ft, None)
                if ft not in ('SFNode', 'MFNode'):
                    for o in c.reach(False):
                        o.value = vals.norm(ft, v)
                elif f == 'children' and n[1] in ('Group', 'Transform'):
                    got = pf.getField(real, f).fget(real)
                    check(len(got) == len(v), 'a body %s has %d children, not %d', n[1], len(got), len(v))
                    for m, r in zip(v, got):
                        walk(m, r)
        for n, real in zip(model['children'], sg.children):
            walk(n, real)
        for s, sf, d, df in model['routes']:
            a = self.route_cell(names[s], sf, 'src')
            b = self.route_cell(names[d], df, 'dst')
            if a and b:
                a.to.append(b)
        # (values given inside, to nested instances, were declared defaults of those)
        for name, c in own.items():
            kind, ft, n2, default = [x for x in decl[2] if x[2] == name][0]
            for o in c.reach(False):
                o.value = NONE if ft in ('SFNode', 'MFNode') else vals.norm(ft, default)

    def route_cell(self, obj, f, side):
        c = self.cells.get((id(obj), f))
        if c is None and f in spec97.EVENTS.get(type(obj).__name__, {}):
            return None
        if c is None and f.endswith('_changed') and side == 'src':
            c = self.cells.get((id(obj), f[:-8]))
        if c is None and f.startswith('set_') and side == 'dst':
            c = self.cells.get((id(obj), f[4:]))
        return c

    def finish(self, given, parsed=False):
        """Fill in what the instance starts with; given: name -> what the field holds

        Values given to a constructor may have been sent over body routes, those written in a text not.
        """
        loose = set()
        for c in [] if parsed else self.order:
            for o in c.to:
                loose |= {id(x) for x in o.reach()}
        for c in self.order:
            if c.value is NONE and not c.same and c.ft not in ('SFNode', 'MFNode') and c.default is not NONE:
                c.value = vals.norm(c.ft, c.default)
        for c in self.tops:
            if c.name in given:
                for o in c.reach(False):
                    o.value = given[c.name]
        for c in self.order:
            if id(c) in loose:
                c.value = NONE
        for c in self.order:
            if c.value is NONE:
                c.value = c.read()
        for c in self.order:
            if id(c) not in loose:
                for o in c.same:
                    if id(o) not in loose:
                        check(vals.same(c.value, o.value), 'a new instance: %s of %s is %s, %s of %s it is tied to is %s', c.name, type(c.obj).__name__, brief(c.value),
                              o.name, type(o.obj).__name__, brief(o.value))

    def verify(self, what):
        from vrml import protofunctions as pf
        for c in self.order:
            got = c.read()
            check(vals.same(got, c.value), '%s: %s.%s is %s, expected %s', what, type(c.obj).__name__, c.name, brief(got), brief(c.value))
        # what is drawn for an instance is its body
        for obj in self.rendered:
            body = list(pf.getSceneGraph(obj).children)
            got = list(obj.renderedChildren())
            check(len(got) == len(body) and all(x is y for x, y in zip(got, body)), '%s: the rendered children of a %s are %r, its body %r', what, pf.protoName(obj), got, body)
            for types in set(map(type, body)):
                got = list(obj.renderedChildren(types))
                want = [n for n in body if isinstance(n, types)]
                check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), '%s: the rendered children of type %s are %r, not %r', what, types, got, want)


brief = scenes.brief


def run(value, rec):
    from vrml import protofunctions as pf
    from vrml.vrml97 import basenodes
    body, layout, how, ops = value
    protos_ = [d for d in body['decls'] if d[0] == 'PROTO']
    if not protos_:
        return
    pool = [basenodes.Box(), basenodes.Group(), basenodes.Sphere(), basenodes.Transform()]
    if how & 1:
        scene, ties = protos.build(body)
        source = 'built'
    else:
        source = protos.text_of(body, layout)
        scene = scenes.parse(source)
    env, outer = {}, {}
    classes = []
    for d in body['decls']:
        outer[d[1]] = (d, dict(outer))
        classes.append((scene.getProto(d[1]), d, outer[d[1]][1]))
    templates = [protos.Snap().body(pf.getSceneGraph(c)) for c, d, e in classes]
    instances = []

    def existing(n, real):
        # instances written in the text
        if n and n[0] == 'N':
            if n[1] in outer:
                inst = Instance(real, outer[n[1]][0], outer[n[1]][1])
                inst.finish({f: vals.norm(c.ft, v) if c.ft in vals.TYPES else c.read() for f, v in n[3] for c in inst.tops if c.name == f}, not how & 1)
                instances.append(inst)
            elif n[1] == 'Group':
                for f, v in n[3]:
                    if f == 'children':
                        for m, r in zip(v, real.children):
                            existing(m, r)
    for n, real in zip(body['children'], scene.children):
        existing(n, real)

    def new(k, ints):
        if len(instances) >= 6:
            return
        cls, d, e = classes[k % len(classes)]
        given, wanted = {}, {}
        for i, (kind, ft, name, default) in enumerate(d[2]):
            if ints[i % 4] % 3 == 0:
                given[name], wanted[name] = some_value(ft, [x + i for x in ints], pool)
        if ints[3] % 3 == 2:
            # a program's own class, made from the prototype
            cls = type('Mine', (cls,), {'method': lambda self: 1})
            rec.label('derived')
        real = cls(**given)
        inst = Instance(real, d, e)
        inst.finish(wanted)
        for other in instances:
            shared = inst.members & other.members
            check(not shared, 'two instances share nodes of their bodies')
        instances.append(inst)
    new(0, [1, 1, 1, 1])
    new(1, [0, 3, 1, 2])
    for op, k, j, ints in ops:
        inst = instances[k % len(instances)]
        if op == 'new':
            new(k, ints)
            what = 'after a new instance'
        else:
            inside = [c for c in inst.order if c not in inst.tops]
            cells = {'set': inst.tops, 'fset': inst.tops, 'del': inst.tops, 'body': [c for c in inside if c.same], 'delbody': [c for c in inside if c.same],
                     'untied': [c for c in inside if not c.same], 'append': [c for c in inst.order if c.same and c.ft == 'MFNode']}[op]
            cells = [c for c in cells if op[:3] != 'del' or c.default is not NONE]
            if not cells:
                continue
            c = cells[j % len(cells)]
            what = 'after %s of %s.%s' % (op, type(c.obj).__name__, c.name)
            if op in ('set', 'body', 'untied', 'fset'):
                v, want = some_value(c.ft, ints, pool)
                if op == 'fset':
                    pf.getField(c.obj, c.name).fset(c.obj, v)
                else:
                    setattr(c.obj, c.name, v)
            elif op == 'append':
                pf.getField(c.obj, c.name).fget(c.obj).append(pool[ints[0] % len(pool)])
                want = c.value + [('ref', id(pool[ints[0] % len(pool)]))]
            else:
                c.read()
                delattr(c.obj, c.name)
                want = c.read() if c.ft in ('SFNode', 'MFNode') else vals.norm(c.ft, c.default)
                if c.ft in ('SFNode', 'MFNode') and not c.default:
                    check(not want, '%s: a deleted node field holds something', what)
            for o in c.reach():
                o.value = want
            rec.label(op)
            rec.label('nested', len(c.reach()) > 2)
            rec.nt(len(instances) > 1 and bool(c.same))
        for inst in instances:
            inst.verify(what)
    after = [protos.Snap().body(pf.getSceneGraph(c)) for c, d, e in classes]
    d = protos.diff(after, templates)
    check(d is None, 'the declarations changed: %s', d)


# ---------------------------------------------------------------- names of component events

TIED = [('SFVec3f', 'Transform', 'translation', ['%d 0 1', '1 %d 2']), ('SFFloat', 'Material', 'shininess', ['.%d']), ('SFTime', 'TimeSensor', 'cycleInterval', ['%d', '%d.5']),
        ('SFString', 'Fog', 'fogType', ['"a%d"']), ('MFVec3f', 'Coordinate', 'point', ['[ %d 1 2 ]', '[ 0 0 %d, 1 2 3 ]', '[ ]']), ('SFBool', 'TimeSensor', 'loop', ['TRUE', 'FALSE'])]
SPELL = ['%s', 'set_%s', '%s_changed']


_REAL, _PARSER = {}, []


def parse(text):
    if not _PARSER:
        from vrml.vrml97.parser import buildParser
        _PARSER.append(buildParser())
    return scenes.parse_with(_PARSER[0], '#VRML V2.0 utf8\n' + text)


def spelled(value, rec):
    """IS by the names of the component events, on either side, through prototypes of prototypes"""
    from vrml import protofunctions as pf
    from vrml.vrml97 import basenodes
    kind, levels, ops = value
    ft, t, f, texts = TIED[kind]

    def literal(i):
        w = texts[i % len(texts)]
        return w % (1 + i // len(texts) % 9) if '%' in w else w

    def real(i):
        # what the library holds for the literal (which C02 settles)
        w = literal(i)
        if (kind, w) not in _REAL:
            n = parse('%s { %s %s }' % (t, f, w)).children[0]
            _REAL[kind, w] = vals.plain(ft, pf.getField(n, f).fget(n))
        return copy.deepcopy(_REAL[kind, w])
    text, inner, innerfield, names = '', t, f, []
    for i, (a, b, d) in enumerate(levels):
        names.append('f%d' % i)
        text += 'PROTO P%d [ exposedField %s %s %s ] { Group { } %s { %s IS %s } }\n' % (
            i, ft, names[i], literal(d), inner, SPELL[b] % innerfield, SPELL[a] % names[i])
        inner, innerfield = 'P%d' % i, names[i]
    top = names[-1]
    text += '%s { } %s { %s %s }\n' % (inner, inner, top, literal(ops[0][2]))
    scene = parse(text)
    rec.nt(any(a or b for a, b, d in levels))
    rec.label('levels %d' % len(levels))

    def chain(n):
        out = [(n, top)]
        for name in names[-2::-1] + [f]:
            n = pf.getSceneGraph(n).children[1]
            out.append((n, name))
        return out
    default = levels[-1][2]
    insts = [chain(n) for n in scene.children]
    want = [default, ops[0][2]]
    for what, k, v in ops:
        if what == 3 and len(insts) < 5:
            if v % 2:
                insts.append(chain(scene.getProto(inner)(**{SPELL[v // 2 % 3] % top: real(v)})))
                want.append(v)
            else:
                insts.append(chain(scene.getProto(inner)()))
                want.append(default)
        elif what != 3:
            i = k % len(insts)
            # the instance, or a node at some depth
            n, name = insts[i][0 if what == 0 else k // 5 % len(insts[i])]
            if what == 2:
                pf.getField(n, SPELL[v % 3] % name).fset(n, real(v))
            else:
                setattr(n, name, real(v))
            want[i] = v
        for i, c in enumerate(insts):
            for n, name in c:
                got = vals.plain(ft, pf.getField(n, name).fget(n))
                check(vals.same(got, real(want[i])), 'instance %d: %s.%s is %s, expected %s\n%s', i, pf.protoName(n), name, got, literal(want[i]), text)


SPELLED = st.tuples(st.integers(0, len(TIED) - 1), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 40)), min_size=1, max_size=3),
                    st.lists(st.tuples(st.integers(0, 3), st.integers(0, 40), st.integers(0, 40)), min_size=1, max_size=5))
CASES = [Case('history', generators(), run, 2400), Case('spelled', SPELLED, spelled, 800)]
