"""Scene models (plain data), real scenes built from them, and snapshots of real scenes

node model:  None (NULL) | ('USE', name) | ('N', type, defname or None, [(field, value), ...])
scene model: dict(children=[node model], routes=[(src, field, dst, field)])
"""
import zlib

from hypothesis import strategies as st
from harness import vals, spec97

PLAIN_NAMES = ['A', 'b1', 'Node_2', 'x-y', 'top', 'left+1', '_u', 'Q$', 'caf\u00e9', '\u4e2d', 'a|b', '<k>', 'E5', 'TO', 'children', 'z:9']
KEYWORDISH = ['USEd', 'DEFs', 'PROTOx', 'ISn', 'NULLs', 'TRUEy', 'ROUTEr', 'Scripts', 'fieldx', 'FALSEy', 'EXTERNPROTOe']
_first = st.sampled_from(list('abcXYZ_$%&*/:;<=>?@^`|~!()\u00e9\u4e2d\U0001f600'))
_rest = st.text(st.sampled_from(list('abcXYZ019_-+$%&*/:;<=>?@^`|~!()\u00e9\u4e2d')), max_size=5)
# legal identifiers of VRML97 that are not keywords
KEYWORDS = {'DEF', 'EXTERNPROTO', 'FALSE', 'IS', 'NULL', 'PROTO', 'ROUTE', 'TO', 'TRUE', 'USE', 'eventIn', 'eventOut',
            'exposedField', 'field', 'Script'}
NAMES = st.one_of(st.sampled_from([n for n in PLAIN_NAMES if n != 'TO']), st.sampled_from(KEYWORDISH),
                  st.tuples(_first, _rest).map(''.join).filter(lambda n: n not in KEYWORDS))

# nodes weighted towards those with interesting fields
TOP = ['Transform', 'Group', 'Shape', 'Switch', 'LOD', 'Viewpoint', 'TimeSensor', 'PositionInterpolator', 'OrientationInterpolator',
       'ColorInterpolator', 'CoordinateInterpolator', 'ScalarInterpolator'] + spec97.CHILD


class Gen:
    """State of one scene's generation"""
    def __init__(self, draw, max_nodes, values, node_types=None, reuse=True, redef=False):
        self.draw, self.left, self.values = draw, max_nodes, values
        self.defs = {}        # name -> node type (complete nodes only)
        self.taken = set()
        self.reuse, self.redef = reuse, redef

    def name(self, p=3):
        if self.draw(st.integers(0, p)) != 0:
            return None
        n = self.draw(NAMES)
        if n in self.taken and not self.redef:
            n = None
        if n:
            self.taken.add(n)
        return n

    def node(self, allowed, depth):
        draw = self.draw
        if self.reuse:
            fit = [n for n, t in self.defs.items() if t in allowed]
            if fit and draw(st.integers(0, 2)) == 0:
                return ('USE', draw(st.sampled_from(fit)))
        t = draw(st.sampled_from(allowed))
        self.left -= 1
        name = self.name()
        self.defs.pop(name, None)  # not to be used before it is complete
        fields = []
        spec = spec97.NODES[t]
        if spec:
            chosen = draw(st.lists(st.sampled_from(sorted(spec)), max_size=5, unique=True))
            # node-valued fields are the point of grouping nodes
            for f in ('children', 'geometry', 'coord', 'choice', 'level', 'appearance'):
                if f in spec and f not in chosen and depth > 0 and draw(st.booleans()):
                    chosen.insert(draw(st.integers(0, len(chosen))), f)
            for f in chosen:
                kind, ft, default = spec[f]
                if ft == 'SFNode':
                    if depth <= 0 or self.left <= 0 or draw(st.integers(0, 4)) == 0:
                        v = None
                    else:
                        v = self.node(spec97.SLOTS[f], depth - 1)
                elif ft == 'MFNode':
                    v = self.nodes(spec97.SLOTS[f], depth - 1)
                else:
                    v = draw(self.values[ft])
                fields.append((f, v))
        if name:
            # (a node inside may have taken over the name)
            self.defs.setdefault(name, t)
        return ('N', t, name, fields)

    def nodes(self, allowed, depth, most=4):
        out = []
        n = self.draw(st.integers(0, most))
        for i in range(n):
            if depth < 0 or self.left <= 0:
                break
            out.append(self.node(allowed, depth))
        return out


def all_nodes(model):
    """All node tuples of the model in document order"""
    out = []

    def walk(n):
        if n is None or n[0] == 'USE':
            return
        out.append(n)
        for f, v in n[3]:
            ft = spec97.NODES[n[1]][f][1] if n[1] in spec97.NODES and f in spec97.NODES[n[1]] else None
            if ft == 'SFNode':
                walk(v)
            elif ft == 'MFNode':
                for c in v:
                    walk(c)
    for c in model['children']:
        walk(c)
    return out


def route_ends(t):
    """(field names that may be a source, a destination) of a built-in type: list of (text, type)"""
    src, dst = [], []
    for f, (kind, ft, d) in spec97.NODES[t].items():
        if kind == 'e':
            src += [(f, ft), (f + '_changed', ft)]
            dst += [(f, ft), ('set_' + f, ft)]
    for e, (direction, ft) in spec97.EVENTS[t].items():
        (src if direction == 'out' else dst).append((e, ft))
    return src, dst


@st.composite
def scenes(draw, max_nodes=12, depth=3, values=None, routes=True, reuse=True, redef=False):
    g = Gen(draw, max_nodes, values or vals.VALUES, reuse=reuse, redef=redef)
    children = []
    for i in range(draw(st.integers(1, 4))):
        if g.left <= 0:
            break
        children.append(g.node(TOP, depth))
    model = dict(children=children, routes=[])
    if routes:
        by_type = {}
        for name, t in g.defs.items():
            s, d = route_ends(t)
            for f, ft in s:
                by_type.setdefault(ft, ([], []))[0].append((name, f))
            for f, ft in d:
                by_type.setdefault(ft, ([], []))[1].append((name, f))
        ok = [v for k, v in sorted(by_type.items()) if v[0] and v[1]]
        if ok:
            for i in range(draw(st.integers(0, 4))):
                s, d = draw(st.sampled_from(ok))
                model['routes'].append(draw(st.sampled_from(s)) + draw(st.sampled_from(d)))
    return model


# ---------------------------------------------------------------- real scenes

def give(ft, v):
    """The abstract value in a form the library accepts"""
    if ft in vals.TYPES and vals.TYPES[ft][0] == 'veclist':
        return [list(r) for r in v]
    return v


def build(model, style=0, classes={}):
    """A real SceneGraph from the model; style varies how it is put together

    classes are node types other than the built-in ones
    """
    from vrml.vrml97 import basenodes, scenegraph
    from vrml import protofunctions
    defs = {}

    def make(n):
        if n is None:
            from vrml import node
            return node.NULL if style & 1 else None
        if n[0] == 'USE':
            return defs[n[1]]
        cls = classes.get(n[1]) or getattr(basenodes, n[1])
        values = {}
        for f, v in n[3]:
            ft = spec97.NODES[n[1]][f][1]
            if ft == 'SFNode':
                values[f] = make(v)
            elif ft == 'MFNode':
                values[f] = [make(c) for c in v]
            else:
                values[f] = give(ft, v)
        if style & 2:
            node = cls(**values)
            if n[2]:
                node.DEF = n[2]
        elif style & 4:
            node = cls()
            if n[2]:
                protofunctions.defName(node, n[2])
            for f, v in values.items():
                setattr(node, f, v)
        else:
            if n[2]:
                values['DEF'] = n[2]
            node = cls(**values)
        if n[2]:
            defs[n[2]] = node
        return node
    scene = scenegraph.SceneGraph(children=[make(c) for c in model['children']])
    for name, node in defs.items():
        scene.regDefName(name, node)
    for s, sf, d, df in model['routes']:
        if style & 1:
            scene.addRoute((defs[s], sf, defs[d], df))
        else:
            scene.addRoute(s, sf, d, df)
    return scene, defs


# ---------------------------------------------------------------- snapshots

def visible_fields(node):
    from vrml import protofunctions
    return sorted((f for f in protofunctions.getFields(node) if f.name and f.name[0] != ' ' and f.name != 'externalURL'),
                  key=lambda f: f.name)


class Snap:
    """Snapshot of real nodes as nested plain data; shared nodes show as ('SEEN', n)"""
    def __init__(self, seen=None):
        self.seen = {}
        self.keep = []
        self.numbers = {}

    def node(self, n):
        from vrml import protofunctions, node as nodemodule
        if n is None or n is nodemodule.NULL:
            return None
        if id(n) in self.seen:
            return ('SEEN', self.seen[id(n)])
        self.seen[id(n)] = len(self.seen)
        self.keep.append(n)
        fields = []
        for f in visible_fields(n):
            fields.append((f.name, f.typeName(), self.value(f.typeName(), f.fget(n))))
        return ('N', protofunctions.protoName(n), protofunctions.defName(n) or None, fields)

    def value(self, ft, v):
        if ft == 'SFNode':
            return self.node(v)
        if ft == 'MFNode':
            return [self.node(c) for c in v]
        if ft in vals.TYPES:
            return vals.plain(ft, v)
        import numpy as np
        return v.tolist() if isinstance(v, np.ndarray) else v

    def scene(self, scene):
        return dict(children=[self.node(c) for c in scene.children],
                    routes=[(self.ref(r.source), r.sourceField, self.ref(r.destination), r.destinationField) for r in scene.routes])

    def ref(self, n):
        return self.seen.get(id(n), 'not in the scene')


def snapshot(scene):
    return Snap().scene(scene)


class M:
    """A node of the model with its USEs resolved (document order)"""
    def __init__(self, type, name):
        self.type, self.name, self.fields = type, name, {}


def resolve(model, order=None):
    """(children as M objects, the last M of each DEF name); order collects the named Ms as they are DEFined"""
    defs = {}
    order = [] if order is None else order

    def node(n):
        if n is None:
            return None
        if n[0] == 'USE':
            return defs[n[1]]
        m = M(n[1], n[2])
        if n[2]:
            # from its DEF on, the name is this node's
            defs[n[2]] = m
            order.append(m)
        for f, v in n[3]:
            ft = spec97.NODES[n[1]][f][1]
            if ft == 'SFNode':
                v = node(v)
            elif ft == 'MFNode':
                v = [node(c) for c in v]
            m.fields[f] = v
        return m
    return [node(c) for c in model['children']], defs


def expected(model, routes=None):
    """The snapshot that the model describes (spec defaults filled in)

    routes, if given, are (n, field, m, field) between the n-th and m-th DEF of the text.
    """
    order = []
    top, defs = resolve(model, order)
    numbers = {}

    def node(m):
        if m is None:
            return None
        if id(m) in numbers:
            return ('SEEN', numbers[id(m)])
        numbers[id(m)] = len(numbers)
        fields = []
        for f in sorted(spec97.NODES[m.type]):
            kind, ft, default = spec97.NODES[m.type][f]
            v = m.fields.get(f, default)
            if ft == 'SFNode':
                v = node(v)
            elif ft == 'MFNode':
                v = [node(c) for c in v]
            elif f in m.fields:
                v = vals.norm(ft, v)
            fields.append((f, ft, v))
        return ('N', m.type, m.name, fields)
    children = [node(m) for m in top]
    if routes is not None:
        ends = [(order[s], sf, order[d], df) for s, sf, d, df in routes]
    else:
        ends = [(defs[s], sf, defs[d], df) for s, sf, d, df in model['routes']]
    return dict(children=children, routes=[(numbers[id(s)], sf, numbers[id(d)], df) for s, sf, d, df in ends])


def diff(a, b, path='scene'):
    """None if the snapshots agree, else where they do not

    Fields of one side that the other does not have count as a difference unless
    they are library extensions (missing in the model, see only=).
    """
    if isinstance(a, dict):
        return diff(a['children'], b['children'], path + '.children') or (
            None if a['routes'] == b['routes'] else '%s.routes: %r != %r' % (path, a['routes'], b['routes']))
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return '%s: %r != %r' % (path, brief(a), brief(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, tuple) and a and a[0] == 'N':
        if not (isinstance(b, tuple) and b and b[0] == 'N'):
            return '%s: %r != %r' % (path, brief(a), brief(b))
        if a[1:3] != b[1:3]:
            return '%s: %r != %r' % (path, a[1:3], b[1:3])
        fa = {f: (t, v) for f, t, v in a[3]}
        fb = {f: (t, v) for f, t, v in b[3]}
        if a[1] == 'PointSet':  # has extension fields
            common = set(fa) & set(fb)
            fa = {f: v for f, v in fa.items() if f in common}
            fb = {f: v for f, v in fb.items() if f in common}
        if set(fa) != set(fb):
            return '%s %s: fields %s' % (path, a[1], sorted(set(fa) ^ set(fb)))
        for f in sorted(fa):
            if fa[f][0] != fb[f][0]:
                return '%s.%s: type %s != %s' % (path, f, fa[f][0], fb[f][0])
            if fa[f][0] in ('SFNode', 'MFNode'):
                d = diff(fa[f][1], fb[f][1], '%s.%s' % (path, f))
                if d:
                    return d
            elif not vals.same(fa[f][1], fb[f][1]):
                return '%s.%s (%s): %s != %s' % (path, f, fa[f][0], brief(fa[f][1]), brief(fb[f][1]))
        return None
    return None if a == b else '%s: %r != %r' % (path, brief(a), brief(b))


def brief(v):
    r = repr(v)
    return r if len(r) < 600 else r[:600] + '...'


def bytes_too(text):
    """Whether this text is (also) to be given as UTF-8 bytes: one in four"""
    return zlib.crc32(text.encode('utf-8', 'surrogatepass')) % 4 == 0


def parse(text, x3d=False):
    """Parse the text; returns the scene, or raises Violation if not parsed completely"""
    if x3d:
        from vrml.vrml200x.parser import buildParser
    else:
        from vrml.vrml97.parser import buildParser
    return parse_with(buildParser(), text)


def parse_with(parser, text):
    from harness.core import Violation
    success, result, parsed = parser.parse(text)
    if not success or parsed != len(text):
        raise Violation('not parsed completely: success=%r, %d of %d characters; stopped before %r' % (
            success, parsed, len(text), text[parsed:parsed + 60]))
    return result[1]
