"""Models of scenes with prototype, external prototype and Script declarations

body: dict(decls=[declaration], children=[node], routes=[(def, field, def, field)])
declaration: ('PROTO', name, iface, body) | ('EXTERNPROTO', name, iface, urls)
iface: [(kind, type, name, default)], kind in field / exposedField / eventIn / eventOut
node: None | ('USE', def) | ('N', type, def or None, [(field, value or ('IS', name))])
      | ('S', 'Script', def or None, [(attribute, value or IS)], [(kind, type, name, default or IS or None)])
"""
from hypothesis import strategies as st
from harness import vals, spec97, printer, scenes

ALLTYPES = sorted(vals.TYPES) + ['SFNode', 'MFNode']
FIELDNAMES = ['x', 'children', 'size', 'set_a', 'b_changed', 'color', 'is', 'caf\u00e9', 'f-1', 'USEd', 'TRUEy', 'z', 'q$', 'radius', 'IS2', 'fieldx', '_go', '__x', 'url2', 'enabled', 'N', 'nodes', 'my field'.replace(' ', '_')]
PROTONAMES = ['P', 'Foo', 'my-proto', 'Q$', 'caf\u00e9', 'USEful', 'Boxy', 'SFFloat', 'Scripted', 'p2', 'PROTOtype', '\u4e2d', 'NULLs', 'X_', 'E5', 'fieldset', 'a|b', 'GroupX', 'TRUEish', '_P', 'R']
DEFNAMES = ['A', 'b', 'n-1', 'USEx', 'IS0', 'k$', 'DEFy', '\u00e9', 'top', 'Node_0', 'fieldZ', '_d', 'm']
SCRIPT_ATTRS = {'url': 'MFString', 'directOutput': 'SFBool', 'mustEvaluate': 'SFBool'}
PLAIN = ['Box', 'Group', 'Transform', 'Sphere', 'Material', 'Viewpoint', 'TimeSensor', 'Text', 'Coordinate', 'PixelTexture', 'Shape', 'WorldInfo', 'Extrusion']
# slots that hold any child node / one node
VALUES = dict(printer.SHORT)

BY_TYPE = {}
for _t in sorted(spec97.NODES):
    for _f, (_k, _ft, _d) in sorted(spec97.NODES[_t].items()):
        BY_TYPE.setdefault(_ft, {}).setdefault(_k, []).append((_t, _f))
EVENTS_BY_TYPE = {}
for _t in sorted(spec97.EVENTS):
    for _e, (_dir, _ft) in sorted(spec97.EVENTS[_t].items()):
        EVENTS_BY_TYPE.setdefault((_dir, _ft), []).append((_t, _e))


def is_is(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 'IS'


class Gen:
    def __init__(self, draw, left, types=None, routes=True, extern=True, scripts=True, node_defaults=True, events=True, more_ties=0):
        self.draw, self.left, self.more_ties = draw, left, more_ties
        self.kinds = ('field', 'exposedField', 'eventIn', 'eventOut', 'field', 'exposedField') if events else ('field', 'exposedField')
        self.events = events
        self.names = 0
        self.types = types or ALLTYPES
        self.routes, self.extern, self.scripts, self.node_defaults = routes, extern, scripts, node_defaults

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def n(self, a, b):
        return self.draw(st.integers(a, b))

    def protoname(self):
        i = self.names
        self.names += 1
        return PROTONAMES[i % len(PROTONAMES)] + ('' if i < len(PROTONAMES) else str(i))

    def small_node(self, depth=1):
        t = self.pick(PLAIN)
        spec = spec97.NODES[t]
        fields = []
        for f in self.draw(st.lists(st.sampled_from(sorted(spec)), max_size=2, unique=True)):
            ft = spec[f][1]
            if ft == 'MFNode':
                v = [self.small_node(0) for i in range(self.n(0, 2))] if depth else []
            elif ft == 'SFNode':
                v = None
            else:
                v = self.draw(VALUES[ft])
            fields.append((f, v))
        return ('N', t, None, fields)

    def default(self, ft):
        if ft == 'SFNode':
            return self.small_node() if self.node_defaults and self.n(0, 1) else None
        if ft == 'MFNode':
            return [self.small_node() for i in range(self.n(0, 2))] if self.node_defaults else []
        return self.draw(VALUES[ft])

    def iface(self, most=4, extern=False, kinds=None):
        out = []
        kinds = kinds or self.kinds
        for name in self.draw(st.lists(st.sampled_from(FIELDNAMES), max_size=most, unique=True)):
            kind = self.pick(kinds)
            ft = self.pick(self.types)
            out.append((kind, ft, name, None if extern or kind.startswith('event') else self.default(ft)))
        return out

    def instance(self, decl, defname, depth=1):
        fields = []
        for kind, ft, name, default in decl[2]:
            if kind in ('field', 'exposedField') and self.n(0, 1):
                fields.append((name, self.default(ft)))
        return ('N', decl[1], defname, fields)

    def script(self, defname, iface=None):
        attrs = []
        if self.n(0, 1):
            attrs.append(('url', self.draw(VALUES['MFString'])))
        for a in ('directOutput', 'mustEvaluate'):
            if self.n(0, 2) == 0:
                attrs.append((a, self.draw(st.booleans())))
        own = self.iface(3, kinds=('field', 'eventIn', 'eventOut') if self.events else ('field',))
        if iface:
            free = [n for n in FIELDNAMES if n not in [o[2] for o in own]]
            for kind, ft, name, default in iface:
                if self.n(0, 2) == 0:
                    k = {'exposedField': self.pick(['field', 'eventIn', 'eventOut'] if self.events else ['field'])}.get(kind, kind)
                    own.append((k, ft, free.pop(), ('IS', name)))
        return ('S', 'Script', defname, attrs, own)

    def body(self, depth, env, iface=None):
        """A body; env: declarations in force; iface: of the enclosing prototype"""
        env = dict(env)
        body = dict(decls=[], children=[], routes=[])
        for i in range(self.n(0 if iface is not None else 1, 2 if depth else 1)):
            if self.left <= 0:
                break
            self.left -= 1
            if self.extern and self.n(0, 3) == 0:
                d = ('EXTERNPROTO', self.protoname(), self.iface(extern=True), self.draw(st.lists(vals.STR, min_size=1, max_size=3)))
            elif depth > 0:
                face = self.iface()
                d = ('PROTO', self.protoname(), face, self.body(depth - 1, env, face))
            else:
                continue
            body['decls'].append(d)
            env[d[1]] = d
        nodes = []
        if iface:
            nodes += self.tied(iface, env)
        for i in range(self.n(0, 3)):
            k = self.n(0, 3)
            if k == 0 and self.scripts:
                nodes.append(self.script(None, iface))
            elif k <= 2 and env:
                nodes.append(self.instance(env[self.pick(sorted(env))], None))
            else:
                nodes.append(self.small_node())
        # names, sharing and nesting
        names = list(DEFNAMES)
        named = []
        out = []
        for n in nodes:
            if self.n(0, 2) == 0:
                name = names.pop(self.n(0, len(names) - 1)) if len(names) > 1 else None
                n = n[:2] + (name,) + n[3:]
                if name:
                    named.append(n)
            k = self.n(0, 4)
            if k == 0:
                n = ('N', 'Group', None, [('children', [n])])
            elif k == 1 and named:
                out.append(n)
                n = ('N', 'Group', None, [('children', [('USE', self.pick(named)[2])])])
                # (a USE before the DEF would not be legal; named nodes are complete here)
            out.append(n)
        body['children'] = out
        if self.routes and named:
            src, dst = {}, {}
            for n in named:
                s, d = ends_of(n, env)
                for f, ft in s:
                    src.setdefault(ft, []).append((n[2], f))
                for f, ft in d:
                    dst.setdefault(ft, []).append((n[2], f))
            both = sorted(set(src) & set(dst))
            if both:
                for i in range(self.n(0, 2)):
                    ft = self.pick(both)
                    body['routes'].append(self.pick(src[ft]) + self.pick(dst[ft]))
        return body

    def tied(self, iface, env):
        """Nodes with fields and events tied to the interface"""
        nodes = []

        def tie(t, f, name):
            for i, n in enumerate(nodes):
                if n[1] == t and f not in [x for x, v in n[3]] and self.n(0, 1):
                    nodes[i] = n[:3] + (n[3] + [(f, ('IS', name))],)
                    return
            nodes.append(('N', t, None, [(f, ('IS', name))]))
        for kind, ft, name, default in iface:
            for i in range(self.n(min(1, self.more_ties), 2 + self.more_ties)):
                options = []
                kinds = BY_TYPE.get(ft, {})
                if kind == 'field':
                    options = kinds.get('f', []) + kinds.get('e', [])
                elif kind == 'exposedField':
                    options = kinds.get('e', [])
                elif kind == 'eventIn':
                    options = EVENTS_BY_TYPE.get(('in', ft), []) + kinds.get('e', []) + [(t, 'set_' + f) for t, f in kinds.get('e', [])]
                else:
                    options = EVENTS_BY_TYPE.get(('out', ft), []) + kinds.get('e', []) + [(t, f + '_changed') for t, f in kinds.get('e', [])]
                mine = [(d[1], n2) for d in env.values() for k2, t2, n2, v2 in d[2] if t2 == ft and (k2 == kind or k2 == 'exposedField' or (kind, k2) == ('exposedField', 'field'))]
                if mine and self.n(0, 1):
                    options = sorted(mine)
                options = [(t, f) for t, f in options if (t, f) not in UNKNOWN_EVENTS]
                if options:
                    t, f = self.pick(options)
                    tie(t, f, name)
        return nodes


UNKNOWN_EVENTS = set()


def ends_of(n, env):
    """Route ends of a named node (source list, destination list of (name, type))"""
    if n[0] == 'S':
        iface = n[4]
    elif n[1] in env:
        iface = env[n[1]][2]
    else:
        return scenes.route_ends(n[1])
    src, dst = [], []
    for kind, ft, name, default in iface:
        if kind == 'eventIn':
            dst.append((name, ft))
        elif kind == 'eventOut':
            src.append((name, ft))
        elif kind == 'exposedField':
            src += [(name, ft), (name + '_changed', ft)]
            dst += [(name, ft), ('set_' + name, ft)]
    return src, dst


@st.composite
def bodies(draw, left=4, depth=2, **named):
    return Gen(draw, left, **named).body(depth, {})


# ---------------------------------------------------------------- text

class Printer(printer.Printer):
    KEYWORDS = {}

    def __init__(self, layout):
        super().__init__(layout)
        self.env = []

    def kw(self, word):
        return self.KEYWORDS.get(word, word)

    def field_type(self, t, f):
        for level in reversed(self.env):
            if t in level:
                return level[t].get(f)
        return spec97.NODES[t][f][1] if f in spec97.NODES[t] else None

    def scene_body(self, body):
        self.env.append({})
        pending = list(body['decls'])
        for d in pending:
            self.decl(d)
        for c in body['children']:
            self.node(c)
        for s, sf, d, df in body['routes']:
            self.word('ROUTE')
            self.word('%s.%s' % (s, sf))
            self.word('TO')
            self.word('%s.%s' % (d, df))
        self.env.pop()

    def iface(self, iface, extern=False):
        for kind, ft, name, default in iface:
            self.word(self.kw(kind))
            self.word(ft)
            self.word(name)
            if is_is(default):
                self.word('IS')
                self.word(default[1])
            elif not extern and not kind.startswith('event'):
                self.value(ft, default)

    def decl(self, d):
        self.word(d[0])
        self.word(d[1])
        self.punct('[')
        self.iface(d[2], d[0] == 'EXTERNPROTO')
        self.punct(']')
        if d[0] == 'PROTO':
            self.punct('{')
            self.scene_body(d[3])
            self.punct('}')
        else:
            self.value('MFString', d[3])
        self.env[-1][d[1]] = {name: ft for kind, ft, name, default in d[2]}

    def node(self, n):
        if n is None or n[0] == 'USE':
            return super().node(n)
        if n[2]:
            self.word('DEF')
            self.word(n[2])
        self.word(n[1], 'type')
        self.punct('{')
        if n[0] == 'S':
            # attributes before or after the declarations
            first = self.lay.pick(2)
            if not first:
                self.iface(n[4])
            for a, v in n[3]:
                self.attr(a, SCRIPT_ATTRS[a], v)
            if first:
                self.iface(n[4])
        else:
            for f, v in n[3]:
                self.attr(f, self.field_type(n[1], f), v)
        self.punct('}')

    def attr(self, f, ft, v):
        self.word(f)
        if is_is(v):
            self.word('IS')
            self.word(v[1])
        else:
            self.value(ft, v)


def text_of(body, layout, cls=Printer):
    p = cls(layout)
    p.scene_body(body)
    return printer.frame(p, p.out)


# ---------------------------------------------------------------- the same from the API

def build(body, parent=None, env=None, bare=False):
    """A real scene from the model, made with the library's Python functions; env: name -> (class, declaration)"""
    from vrml import node, field, protofunctions
    from vrml.vrml97 import basenodes, scenegraph, script
    env = dict(env or {})
    scene = scenegraph.SceneGraph(root=parent)
    defs, ties = {}, []

    def fields_of(iface, extern=False):
        out = []
        for kind, ft, name, default in iface:
            if kind.startswith('event'):
                out.append(field.newEvent(name, ft, kind == 'eventOut'))
            elif extern or is_is(default):
                out.append(field.newField(name, ft, kind == 'exposedField'))
            else:
                out.append(field.newField(name, ft, kind == 'exposedField', value(ft, default)))
        return out

    def value(ft, v):
        if ft == 'SFNode':
            return node.NULL if v is None else make(v)
        if ft == 'MFNode':
            return [make(c) for c in v]
        return scenes.give(ft, v)

    def make(n):
        if n is None:
            return node.NULL
        if n[0] == 'USE':
            return defs[n[1]]
        values, tied = {}, []
        if n[0] == 'S':
            types = dict(SCRIPT_ATTRS)
        elif n[1] in env:
            types = {name: ft for kind, ft, name, d in env[n[1]][1][2]}
        else:
            types = {f: x[1] for f, x in spec97.NODES[n[1]].items()}
        for f, v in n[3]:
            if is_is(v):
                tied.append((v[1], f))
            else:
                values[f] = value(types[f], v)
        if n[0] == 'S':
            real = script.Script(fields_of(n[4]), **values)
            tied += [(d[1], name) for kind, ft, name, d in n[4] if is_is(d)]
        else:
            cls = env[n[1]][0] if n[1] in env else getattr(basenodes, n[1])
            real = cls(**values)
        if n[2]:
            defs[n[2]] = real
        ties.extend((name, real, f) for name, f in tied)
        return real

    for d in body['decls']:
        if d[0] == 'EXTERNPROTO':
            cls = node.prototype(d[1], fields_of(d[2], True), externalURL=list(d[3]))
        else:
            sub, subties = build(d[3], scene, env, bare)
            if bare and not (d[3]['decls'] or d[3]['children']):
                sub = None  # (need not be given)
            cls = node.prototype(d[1], fields_of(d[2]), sceneGraph=sub)
            for name, real, f in subties:
                node.ismaps(cls).setdefault(name, []).append((real, f))
        scene.addProto(cls)
        env[d[1]] = (cls, d)
    scene.children = [make(c) for c in body['children']]
    for name, real in defs.items():
        scene.regDefName(name, real)
    for s, sf, d, df in body['routes']:
        scene.addRoute(s, sf, d, df)
    return scene, ties


# ---------------------------------------------------------------- snapshots

class Snap:
    """Plain data about real declarations and nodes

    A node seen before is ('USE', name) if it has a name; nodes without are shown again.
    """
    def __init__(self):
        self.seen, self.keep = {}, []

    def node(self, n, path):
        from vrml import protofunctions as pf, node as nodemodule
        if n is None or n is nodemodule.NULL:
            return None
        name = pf.defName(n) or None
        if id(n) in self.seen and name:
            return ('USE', name)
        self.seen.setdefault(id(n), name or path)
        self.keep.append(n)
        t = pf.protoName(n)
        fields = {}
        for f in scenes.visible_fields(n):
            fields[f.name] = (f.typeName(), self.value(f.typeName(), f.fget(n), path + '.' + f.name))
        if t == 'PointSet':
            fields = {f: v for f, v in fields.items() if f in spec97.NODES[t]}
        return ('N', t, name, fields, self.face(n) if t == 'Script' else None)

    def face(self, n):
        from vrml import protofunctions as pf
        return (sorted((f.name, bool(f.exposure)) for f in scenes.visible_fields(n) if f.name not in SCRIPT_ATTRS),
                sorted((e.name, e.typeName(), bool(e.direction)) for e in pf.getFields(n, 1)))

    def value(self, ft, v, path):
        if ft == 'SFNode':
            return self.node(v, path)
        if ft == 'MFNode':
            return [self.node(c, '%s[%d]' % (path, i)) for i, c in enumerate(v)]
        return vals.plain(ft, v) if ft in vals.TYPES else v

    def body(self, scene):
        children = [self.node(c, '[%d]' % i) for i, c in enumerate(scene.children)]
        routes = [(self.ref(r.source), r.sourceField, self.ref(r.destination), r.destinationField) for r in scene.routes]
        return dict(children=children, routes=routes)

    def ref(self, n):
        from vrml import protofunctions as pf
        return self.seen.get(id(n), 'not in the body')


def declaration(cls):
    """What a real prototype declares"""
    from vrml import node, protofunctions as pf
    out = dict(fields={}, events={})
    urls = list(pf.getExternalURL(cls)) if 'externalURL' in cls.__dict__ else []
    out['urls'] = urls
    probe = None if urls else cls()
    for f in pf.getFields(cls):
        if f.name and f.name[0] != ' ' and f.name != 'externalURL':
            out['fields'][f.name] = (bool(f.exposure), f.typeName(), None if urls else Snap().value(f.typeName(), f.fget(probe), ''))
    for e in pf.getFields(cls, 1):
        out['events'][e.name] = (bool(e.direction), e.typeName())
    if not urls:
        sg = pf.getSceneGraph(cls)
        snap = Snap()
        out['body'] = snap.body(sg)
        ties = {}
        for name, targets in node.ismaps(cls).items():
            if targets:
                ties[name] = sorted((snap.ref(n), f) for n, f in targets)
        out['ties'] = ties
    return out


def declarations(scene, out=None):
    """All prototypes declared in a real scene and in the bodies of its prototypes, by name"""
    from vrml import node, protofunctions as pf
    out = {} if out is None else out
    for name, cls in sorted(scene.protoTypes.items()):
        if isinstance(cls, type) and issubclass(cls, node.PrototypedNode):
            assert pf.protoName(cls) == name
            out[name] = declaration(cls)
            sg = pf.getSceneGraph(cls)
            if sg:
                declarations(sg, out)
    return out


class Expect:
    """The same data from a model"""
    def __init__(self, env):
        self.env = env       # name -> declaration
        self.seen = {}       # id of model node -> name or path
        self.defs = {}
        self.ties = {}

    def node(self, n, path):
        if n is None:
            return None
        if n[0] == 'USE':
            return n
        fields = {}
        t, name = n[1], n[2]
        if name:
            self.defs[name] = n
        for f, v in n[3]:
            if is_is(v):
                self.ties.setdefault(v[1], []).append((name or path, f))
        given = {f: v for f, v in n[3] if not is_is(v)}
        face = None
        if n[0] == 'S':
            spec = {'url': ('MFString', []), 'directOutput': ('SFBool', 0), 'mustEvaluate': ('SFBool', 0)}
            for kind, ft, fname, default in n[4]:
                if is_is(default):
                    self.ties.setdefault(default[1], []).append((name or path, fname))
                if not kind.startswith('event'):
                    spec[fname] = (ft, ANY if is_is(default) else default)
            face = (sorted((fname, kind == 'exposedField') for kind, ft, fname, d in n[4] if not kind.startswith('event')),
                    sorted((fname, ft, kind == 'eventOut') for kind, ft, fname, d in n[4] if kind.startswith('event')))
        elif t in self.env:
            d = self.env[t]
            spec = {fname: (ft, ANY if d[0] == 'EXTERNPROTO' else default) for kind, ft, fname, default in d[2] if not kind.startswith('event')}
        else:
            spec = {f: (x[1], x[2]) for f, x in spec97.NODES[t].items()}
        for f, (ft, default) in spec.items():
            v = given.get(f, default)
            fields[f] = (ft, self.value(ft, v, path + '.' + f))
        return ('N', t, name, fields, face)

    def value(self, ft, v, path):
        if v is ANY:
            return v
        if ft == 'SFNode':
            return self.node(v, path)
        if ft == 'MFNode':
            return [self.node(c, '%s[%d]' % (path, i)) for i, c in enumerate(v)]
        return vals.norm(ft, v)

    def body(self, body):
        children = [self.node(c, '[%d]' % i) for i, c in enumerate(body['children'])]
        return dict(children=children, routes=list(body['routes']))


class Any:
    """Stands for the value of a field whose declaration gives none"""
    def __repr__(self):
        return 'ANY'


ANY = Any()


def expected_declarations(body, env=None, out=None):
    """(declarations by name, environment of the body)"""
    env = dict(env or {})
    out = {} if out is None else out
    for d in body['decls']:
        e = dict(fields={}, events={}, urls=list(d[3]) if d[0] == 'EXTERNPROTO' else [])
        x = Expect(env)
        for kind, ft, name, default in d[2]:
            if kind.startswith('event'):
                e['events'][name] = (kind == 'eventOut', ft)
            else:
                e['fields'][name] = (kind == 'exposedField', ft, None if d[0] == 'EXTERNPROTO' else Expect(env).value(ft, default, ''))
        if d[0] == 'PROTO':
            out2, inner = expected_declarations(d[3], env, out)
            x = Expect(inner)
            e['body'] = x.body(d[3])
            e['ties'] = {k: sorted(v) for k, v in x.ties.items()}
        out[d[1]] = e
        env[d[1]] = d
    return out, env


def expected(body):
    decls, env = expected_declarations(body)
    return dict(decls=decls, body=Expect(env).body(body))


def snapshot(scene):
    return dict(decls=declarations(scene), body=Snap().body(scene))


def diff(a, b, path='scene'):
    """None if equal, else where not"""
    if a is ANY or b is ANY:
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return '%s: %s != %s' % (path, scenes.brief(sorted(a)), scenes.brief(sorted(b) if isinstance(b, dict) else b))
        for k in sorted(a):
            d = diff(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return '%s: %s != %s' % (path, scenes.brief(a), scenes.brief(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if vals.same(a, b) else '%s: %s != %s' % (path, scenes.brief(a), scenes.brief(b))
