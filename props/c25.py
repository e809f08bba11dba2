"""C25 prototype names resolve by scope"""
from hypothesis import strategies as st
from harness import scenes, protos, printer
from harness.core import Case, check

RULE = ('sequences of 1 to 4 scenes of nested declarations (PROTO up to 3 deep, EXTERNPROTO; at the start of, within and at the end of a scope and within the braces of nodes) with few names, among them those of '
        'built-in and base types, declared again, and instances at the top, in fields, in interface defaults and in values of instances, in random order and spelling; parsed with a new parser, one parser, one processor and '
        'a mapping of base prototypes of the caller. Each declaration carries its own number in a field or URL: each node, at parsing, in the template and in the bodies of instances, must be of the declaration in force '
        'by a reference model; undeclared names raise NameError and leave later scenes alone; getProto and the mapping agree at the end of every scene, and again after all scenes. A second case calls addProto, getProto '
        'and copy on chains of scenes. Non-trivial: a name with two meanings.')
ASSUMPTIONS = ['a prototype is not in force in its own interface and body', 'names are not keywords']

POOL = ['A', 'B', 'Box', 'Group', 'sceneGraph', 'caf\u00e9', 'Sphere', 'USEd', 'Custom']
BUILTIN = ['Box', 'Group', 'Sphere']


class Build:
    """Draws a scene; refers to the environments as the text will"""
    def __init__(self, draw, base):
        self.draw, self.k, self.base, self.left = draw, 0, base, 14
        self.undeclared = False

    def n(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, xs):
        return xs[self.n(0, len(xs) - 1)]

    def instance(self, scopes):
        """A node of any name in force (rarely: of none in force), maybe with a node in its field"""
        seen = [n for n in POOL if self.find(scopes, n)]
        if self.n(0, 60) == 60:
            name = self.pick(POOL + ['Undeclared'])
        else:
            name = self.pick(seen)
        self.left -= 1
        what = self.find(scopes, name)
        value = None
        if what and what[0] == 'PROTO' and what[2] and self.left > 0 and self.n(0, 1):
            value = self.instance(scopes)
        given = self.n(0, 2) == 0 and what and what[0] != 'builtin'
        return ('use', name, value, 1000 + self.n(0, 5) if given else None)

    def find(self, scopes, name):
        for s in reversed(scopes):
            if name in s:
                return s[name]
        return ('builtin', name) if name in self.base else None

    def declaration(self, scopes, depth):
        self.k += 1
        k = self.k
        self.left -= 1
        name = self.pick(POOL)
        if self.n(0, 4) == 0:
            scopes[-1][name] = ('EXTERNPROTO', k, False)
            return ('ext', name, k)
        default = None
        if self.n(0, 2) == 0:
            default = self.instance(scopes)
        body = self.scope(scopes + [{}], depth - 1) if depth > 0 else []
        scopes[-1][name] = ('PROTO', k, default is not None)
        return ('decl', name, k, default, body)

    def scope(self, scopes, depth, least=0):
        out = []
        for i in range(self.n(least, 5)):
            if self.left <= 0:
                break
            what = self.n(0, 6)
            if what <= 2:
                out.append(self.declaration(scopes, depth))
            elif what == 3:
                # declarations within the braces of a node
                inner = [self.declaration(scopes, depth) for j in range(self.n(0, 2))]
                out.append(('in', inner, [self.instance(scopes) for j in range(self.n(0, 2))]))
            else:
                out.append(self.instance(scopes))
        return out


@st.composite
def sequences(draw):
    out = []
    for i in range(draw(st.integers(1, 4))):
        way = draw(st.integers(0, 5))
        base = BUILTIN + (['Custom'] if way in (3, 4, 5) else ['sceneGraph'][:0])
        out.append((way, Build(draw, base).scope([{}], draw(st.integers(0, 3)), 1)))
    return out


# ---------------------------------------------------------------- text

def number(p, k):
    p.word(printer.number_i(k, p.lay))


def node_text(p, u):
    _, name, value, given = u
    p.word(name)
    p.punct('{')
    if given is not None:
        p.word('m')
        number(p, given)
    if value is not None:
        p.word('n')
        node_text(p, value)
    p.punct('}')


def scope_text(p, body):
    for s in body:
        if s[0] == 'use':
            node_text(p, s)
        elif s[0] == 'in':
            p.word('Transform')
            p.punct('{')
            scope_text(p, s[1])
            p.word('children')
            p.punct('[')
            for u in s[2]:
                node_text(p, u)
            p.punct(']')
            p.punct('}')
        elif s[0] == 'ext':
            for w in ('EXTERNPROTO', s[1]):
                p.word(w)
            p.punct('[')
            for w in ('field', 'SFInt32', 'm'):
                p.word(w)
            p.punct(']')
            p.token('"%d"' % s[2], 'string')
        else:
            for w in ('PROTO', s[1]):
                p.word(w)
            p.punct('[')
            for w in ('field', 'SFInt32', 'm'):
                p.word(w)
            number(p, s[2])
            if s[3] is not None:
                for w in ('exposedField', 'SFNode', 'n'):
                    p.word(w)
                node_text(p, s[3])
            p.punct(']')
            p.punct('{')
            scope_text(p, s[4])
            p.punct('}')


# ---------------------------------------------------------------- reference model

class Unknown(Exception):
    pass


class Model:
    def __init__(self, base):
        self.base = base
        self.bodies, self.defaults, self.envs, self.parents = {}, {}, {}, {}
        self.shadowed = False

    def find(self, scopes, name):
        for s in reversed(scopes):
            if name in s:
                return s[name]
        return ('builtin', name) if name in self.base else None

    def use(self, scopes, u):
        what = self.find(scopes, u[1])
        if what is None:
            raise Unknown(u[1])
        if len([1 for s in scopes if u[1] in s]) + (u[1] in self.base) > 1:
            self.shadowed = True
        return (what, u[3], self.use(scopes, u[2]) if u[2] is not None else None)

    def scope(self, key, scopes, body):
        self.envs[key] = scopes[-1]
        out = []
        for s in body:
            out += self.statement(key, scopes, s)
        self.bodies[key] = out

    def statement(self, key, scopes, s):
        if s[0] == 'use':
            return [self.use(scopes, s)]
        if s[0] == 'in':
            for d in s[1]:
                self.statement(key, scopes, d)
            return [('Transform', [self.use(scopes, u) for u in s[2]])]
        if s[0] == 'decl':
            self.defaults[s[2]] = self.use(scopes, s[3]) if s[3] is not None else None
            self.parents[s[2]] = key
            self.scope(s[2], scopes + [{}], s[4])
            scopes[-1][s[1]] = ('PROTO', s[2])
        else:
            scopes[-1][s[1]] = ('EXTERNPROTO', s[2])
        return []

    def at_end(self, key, name):
        """What the name means at the end of a scope"""
        while key is not None:
            if name in self.envs[key]:
                return self.envs[key][name]
            key = self.parents.get(key)
        return ('builtin', name) if name in self.base else None


def which(cls):
    """What a class stands for"""
    from vrml import node, protofunctions as pf
    from vrml.vrml97 import basenodes
    if cls is None:
        return None
    if isinstance(cls, type) and issubclass(cls, node.PrototypedNode):
        url = cls.externalURL
        url = url.getDefault() if hasattr(url, 'getDefault') else url
        if url:
            return ('EXTERNPROTO', int(url[0]))
        return ('PROTO', int(pf.getField(cls, 'm').getDefault()))
    if cls is custom():
        return ('builtin', 'Custom')
    if getattr(basenodes, getattr(cls, '__name__', ''), None) is cls:
        return ('builtin', cls.__name__)
    return ('something else', repr(cls))


_CUSTOM = []


def custom():
    if not _CUSTOM:
        from vrml import node, field
        from vrml.vrml97 import nodetypes

        class Custom(nodetypes.Children, node.Node):
            PROTO = 'Custom'
            m = field.newField('m', 'SFInt32', 0, 7)
        _CUSTOM.append(Custom)
    return _CUSTOM[0]


def verify_node(n, want, model, depth=0):
    from vrml import protofunctions as pf
    from vrml.vrml97 import basenodes
    if want[0] == 'Transform':
        check(type(n) is basenodes.Transform, '%r is no Transform', n)
        verify_nodes(n.children, want[1], model, depth)
        return
    what, given, value = want
    got = which(type(n))
    check(got == what, 'the node is of %r, not %r (%s)', got, what, pf.protoName(n))
    if what[0] == 'PROTO':
        check(n.m == (what[1] if given is None else given), 'field m of the instance of %r is %r, %r was given', what, n.m, given)
        if value is not None:
            verify_node(n.n, value, model, depth)
        elif model.defaults[what[1]] is not None:
            verify_node(n.n, model.defaults[what[1]], model, depth)
        if depth < 5:
            verify_nodes(children_of(pf.getSceneGraph(n)), model.bodies[what[1]], model, depth + 1)
            verify_nodes(children_of(pf.getSceneGraph(type(n))), model.bodies[what[1]], model, depth + 1)


def children_of(scene):
    return scene.children if scene else []


def verify_nodes(ns, want, model, depth=0):
    check(len(ns) == len(want), '%d nodes, not %d', len(ns), len(want))
    for n, w in zip(ns, want):
        verify_node(n, w, model, depth)


def verify(scene, model, namespaces=True, names=POOL + ['Undeclared', 'Transform', 'm']):
    from vrml import protofunctions as pf
    from vrml.protonamespace import ProtoNamespace
    verify_nodes(scene.children, model.bodies[0], model)
    todo, done = [(scene, 0)], set()
    while todo:
        s, key = todo.pop()
        done.add(key)
        for name in names:
            if name == 'sceneGraph' and model.at_end(key, name) is None:
                continue  # (an entry of the base mapping that is not a node type of the language)
            want = model.at_end(key, name)
            if name == 'Transform':
                want = ('builtin', name)
            got = which(s.getProto(name))
            check(got == want, 'getProto(%r) in the %s gives %r, not %r', name, 'scene' if key == 0 else 'body of %d' % key, got, want)
            if name in model.envs[key]:
                check(s.protoTypes[name] is s.getProto(name), 'the mapping has another %r', name)
                check(isinstance(s.protoTypes, ProtoNamespace) or not namespaces, 'the mapping is no namespace but a %s', type(s.protoTypes))
                if isinstance(s.protoTypes, ProtoNamespace):
                    check(getattr(s.protoTypes, name) is s.getProto(name), 'the attribute of the namespace is another %r', name)
            elif key:
                check(name not in s.protoTypes, 'the body of %d has its own %r', key, name)
        for name, what in model.envs[key].items():
            if what[0] == 'PROTO':
                sub = pf.getSceneGraph(s.protoTypes[name])
                if sub and what[1] not in done:
                    todo.append((sub, what[1]))


def scoping(value, rec):
    seq, layout = value
    from vrml.protonamespace import ProtoNamespace
    from vrml import protofunctions as pf
    from vrml.vrml97 import basenamespaces, parser, parseprocessor, basenodes
    standard = dict(basenamespaces.basePrototypes)
    interfaces = {n: sorted(f.name for f in pf.getFields(getattr(basenodes, n))) for n in BUILTIN + ['Transform']}
    mine = basenamespaces.basePrototypes.copy()
    mine['Custom'] = custom()
    kept = dict(mine)
    plain = dict(mine)
    one = parser.buildParser()
    processors = {2: parseprocessor.ParseProcessor(), 4: parseprocessor.ParseProcessor(mine)}
    results = []
    rec.label('%d scenes' % len(seq))
    for i, (way, body) in enumerate(seq):
        p = protos.Printer(layout[i:] + layout[:i])
        scope_text(p, body)
        text = printer.frame(p, p.out)
        model = Model(BUILTIN + (['Custom'] if way >= 3 else []))
        try:
            model.scope(0, [{}], body)
            unknown = None
        except Unknown as e:
            unknown = e.args[0]
        if way == 0:
            args = (parser.buildParser(),)
        elif way == 1:
            args = (one,)
        elif way in processors:
            args = (one, processors[way])
        else:
            args = (one, parseprocessor.ParseProcessor(mine if way == 3 else plain))
        rec.label('way %d' % way)
        rec.label('undeclared', unknown is not None)
        if unknown == 'sceneGraph':
            continue
        try:
            if len(args) == 1:
                scene = scenes.parse_with(args[0], text)
            else:
                success, result, upto = args[0].parse(text, processor=args[1])
                check(success and upto == len(text), 'not parsed completely:\n%s', text)
                scene = result[1]
        except NameError as e:
            check(unknown is not None, '%s, but all names are declared:\n%s', e, text)
            check(unknown in str(e), 'the undeclared name is %r, the message %s', unknown, e)
            continue
        check(unknown is None, '%r is not declared, but the text was read:\n%s', unknown, text)
        rec.nt(model.shadowed)
        rec.label('shadowed', model.shadowed)
        results.append((scene, model, text))
        verify(scene, model, way != 5)
    for scene, model, text in results:
        verify(scene, model, False)
    check(dict(basenamespaces.basePrototypes) == standard, 'the base prototypes were changed')
    check(plain == kept and dict(mine) == kept, 'the base prototypes of the caller were changed')
    for n, fields in interfaces.items():
        check(sorted(f.name for f in pf.getFields(getattr(basenodes, n))) == fields, 'the fields of %s were changed', n)


# ---------------------------------------------------------------- API

def chains(value, rec):
    """addProto and getProto on scenes that have other scenes as root"""
    from vrml import node
    from vrml.protonamespace import ProtoNamespace
    from vrml.vrml97 import scenegraph
    real, model = [], []   # model: (own names, parent index)
    for op in value:
        kind, a, b, c = op
        name = POOL[b % 4]
        if kind == 'new' or not real:
            parent = a % (len(real) + 1) - 1
            given = ProtoNamespace() if c % 2 else None
            s = scenegraph.SceneGraph(root=real[parent] if parent >= 0 else None, protoTypes=given)
            real.append(s)
            model.append(({}, parent if parent >= 0 else None))
        elif kind == 'add':
            i = a % len(real)
            cls = node.prototype(name)
            real[i].addProto(cls)
            model[i][0][name] = cls
        elif kind == 'copy':
            i = a % len(real)
            real.append(real[i].copy())
            model.append((dict(model[i][0]), model[i][1]))
        for i, s in enumerate(real):
            for n in POOL[:4]:
                k, want = i, None
                meanings = 0
                while k is not None:
                    if n in model[k][0]:
                        want = want or model[k][0][n]
                        meanings += 1
                    k = model[k][1]
                rec.nt(meanings > 1)
                got = s.getProto(n)
                check(got is want, 'after %r: getProto(%r) of scene %d gives %r, not %r', op, n, i, got, want)


OPS = st.lists(st.tuples(st.sampled_from(['new', 'add', 'add', 'copy']), st.integers(0, 20), st.integers(0, 3), st.integers(0, 3)), min_size=2, max_size=14)

CASES = [
    Case('scoping', st.tuples(sequences(), printer.LAYOUT), scoping, 1500),
    Case('chains', OPS, chains, 500),
]
