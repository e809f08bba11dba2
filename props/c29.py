"""C29 node types that a program adds are read and written as the built-in ones are"""
import contextlib, io
from hypothesis import strategies as st
from harness import nodes, scenes, spec97, vals, printer
from harness.core import Case, check, Violation

RULE = ('1 to 4 random node types (Python classes, derived ones, node.prototype; up to 6 fields of all 41 field types, with random defaults) and the NURBS and shader extension nodes are '
        'given to ParseProcessor(basePrototypes=...); random scenes of them among built-in nodes are printed independently and parsed, and built, written and parsed, and compared with the model; '
        'a parser that does not know the types refuses the text, also after one that does. Non-trivial: an added type has two field values or a node inside.')
ASSUMPTIONS = ['arrays have no dimension of size 0 but the first', 'DEF and field names are legal identifiers']

vals.extend()
VALUES = dict(printer.SHORT, **{t: vals.SHORT[t] for t in vals.EXTENDED})
VALUES.update(MFFloat32=vals.value('MFFloat32'), MFUInt32=vals.value('MFUInt32'), MFVec2f=vals.VALUES['MFVec2f'], MFVec3f=vals.VALUES['MFVec3f'])
FTYPES = sorted(set(VALUES)) + ['SFNode', 'MFNode', 'MFNode', 'MFFloat32', 'MFUInt32']
FIELDS = ['x', 'children', 'size', 'set_a', 'b_changed', 'color', 'is', 'caf\u00e9', 'USEd', 'TRUEy', 'z9', 'q_', 'radius', 'IS2', 'url2', 'enabled', 'N', '\u4e2d']
NAMES = ['Foo', 'Boxy', 'USEful', 'Scripted', 'NULLs', 'caf\u00e9', 'PROTOtype', 'my-type', 'Q$', 'TRUEish', 'SFFloat', '\u4e2d', 'N2', 'DEFiner', 'fieldset', 'Group2', 'x']
# the extension nodes: the NURBS proposal's, as far as the library has them, and the shader ones
_NURBS = '''
Contour2D: e MFNode children []
Polyline2D: e MFVec2f point []
NurbsCurve2D: e MFFloat32 knot []; e SFInt32 order 3; e MFVec2f controlPoint []; e MFFloat32 weight []; e SFInt32 tessellation 0
NurbsCurve: e MFFloat32 knot []; e SFInt32 order 3; e MFVec3f controlPoint []; e MFColor color []; e MFFloat32 weight []; e SFInt32 tessellation 0
NurbsSurface: e SFInt32 uDimension 0; e SFInt32 vDimension 0; e MFFloat32 uKnot []; e MFFloat32 vKnot []; e SFInt32 uOrder 3; e SFInt32 vOrder 3; e MFVec3f controlPoint []; e MFColor color []; e MFFloat32 weight []; e SFInt32 uTessellation 0; e SFInt32 vTessellation 0; e SFNode texCoord NULL; f SFBool solid TRUE; f SFBool ccw TRUE
TrimmedSurface: e MFNode trimmingContour []; e SFNode surface NULL
NurbsGroup: e MFNode children []; e SFFloat tessellationScale 1; f SFVec3f bboxSize -1 -1 -1; f SFVec3f bboxCenter 0 0 0

ShaderGeometry: e MFInt32 indices []; e MFNode attributes []; e MFNode slices []; e MFNode uniforms []; e SFNode appearance NULL
ShaderSlice: e SFUInt32 offset -1; e SFUInt32 count -1; e MFNode uniforms []
ShaderAttribute: e SFString name ""; e SFUInt32 offset 0; e SFUInt32 stride 0; e SFUInt32 size 3; e SFString dataType "FLOAT"; e SFNode buffer NULL; e SFBool isCoord FALSE; e SFString bufferKey ""
ShaderBuffer: e SFString type "ARRAY"; e SFString usage "DYNAMIC_DRAW"; e SFArray32 buffer []
ShaderIndexBuffer: e SFString type "ELEMENT"; e SFString usage "DYNAMIC_DRAW"; e MFUInt32 buffer []
FloatUniform: e SFString name ""; e SFArray32 value []
IntUniform: e SFString name ""; e MFInt32 value []
TextureUniform: e SFString name ""; e SFNode value NULL
TextureBufferUniform: e SFString name ""; e SFNode value NULL; e SFString format "RGBA32F"
GLSLShader: e MFString url []; e MFString source []; e MFNode imports []; e SFString type "VERTEX"
GLSLImport: e MFString url []; e MFString source []
GLSLObject: e SFString role "VISIBLE"; e MFNode uniforms []; e MFNode shaders []; e MFNode textures []
Shader: e SFNode material NULL; e MFNode objects []; e SFNode implementation NULL
'''
NURBS = {}
for _line in _NURBS.split('\n'):
    if not _line:
        continue
    _n, _rest = _line.split(':', 1)
    NURBS[_n] = {}
    for _item in _rest.split(';'):
        _k, _t, _f, _d = _item.split(None, 3)
        NURBS[_n][_f] = (_k, _t, spec97._default(_t, _d))
BUILTIN = ['Group', 'Transform', 'Shape', 'Coordinate', 'Material', 'Switch', 'Text', 'TimeSensor']
ORIGINAL = dict(spec97.NODES)


@st.composite
def cases(draw):
    types = []    # (name, style, {field: (kind, type, default)})
    for name in draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)):
        spec = {}
        style = draw(st.integers(0, 4))
        for f in draw(st.lists(st.sampled_from(FIELDS), max_size=6, unique=True)):
            ft = draw(st.sampled_from(FTYPES))
            default = None if ft == 'SFNode' else [] if ft == 'MFNode' else vals.norm(ft, draw(VALUES[ft]))
            spec[f] = (draw(st.sampled_from('ef')), ft, default)
        if style == 4 and types:
            # derived from the one before; fields of the same name are replaced
            spec = dict(types[-1][2], **spec)
        types.append((name, style, spec))
    table = dict(NURBS, **{n: s for n, _, s in types})
    left = [12]
    defs, taken = {}, set()

    def node(depth):
        if defs and draw(st.integers(0, 4)) == 0:
            return ('USE', draw(st.sampled_from(sorted(defs))))
        own = [n for n, _, _ in types]
        t = draw(st.sampled_from((own * 4 + sorted(NURBS) + BUILTIN) if depth != 2 else own * 3 + sorted(NURBS)))
        left[0] -= 1
        name = None
        if draw(st.integers(0, 2)) == 0:
            name = draw(scenes.NAMES)
            name = None if name in taken else name
            taken.add(name)
        spec = table[t] if t in table else ORIGINAL[t]
        fields = []
        for f in draw(st.lists(st.sampled_from(sorted(spec)), max_size=5, unique=True)) if spec else []:
            ft = spec[f][1]
            if ft == 'SFNode':
                v = node(depth - 1) if depth > 0 and left[0] > 0 and draw(st.integers(0, 3)) else None
            elif ft == 'MFNode':
                v = [node(depth - 1) for i in range(draw(st.integers(0, 3))) if depth > 0 and left[0] > 0]
            else:
                v = draw(VALUES[ft])
            fields.append((f, v))
        if name:
            defs[name] = t
        return ('N', t, name, fields)
    children = [node(2) for i in range(draw(st.integers(1, 3)))]
    routes = []
    ends = [(n, f, t) for n, ty in sorted(defs.items()) if ty in dict((x[0], 1) for x in types) for f, (k, t, d) in sorted(table[ty].items()) if k == 'e']
    for i in range(draw(st.integers(0, 2)) if ends else 0):
        a = draw(st.sampled_from(ends))
        b = draw(st.sampled_from([e for e in ends if e[2] == a[2]]))
        routes.append((a[0], a[1], b[0], b[1]))
    return types, dict(children=children, routes=routes)


def classes(types):
    from vrml import node
    from vrml.vrml97 import nurbs, shaders, nodetypes
    made = {}
    last = None
    for name, style, spec in types:
        own = {}
        for f, (kind, ft, default) in spec.items():
            if ft == 'SFNode':
                own[f] = nodes.field(f, ft, node.NULL if style % 2 else None, kind == 'e')
            elif ft == 'MFNode' or default == []:
                own[f] = nodes.field(f, ft, list, kind == 'e')
            else:
                own[f] = nodes.field(f, ft, scenes.give(ft, default), kind == 'e')
        if style == 0 or style == 4 and last is None:
            cls = type('Python' + str(len(made)), (node.Node,), dict(own, PROTO=name))
        elif style == 1:
            cls = node.prototype(name, list(own.values()))
        elif style == 2:
            cls = type('Python' + str(len(made)), (nodetypes.Children, node.Node), dict(own, PROTO=name))
        elif style == 3:
            # fields added later
            from vrml import protofunctions
            cls = type('Python' + str(len(made)), (node.Node,), dict(PROTO=name))
            for f in own.values():
                protofunctions.addField(cls, f)
        else:
            cls = type('Python' + str(len(made)), (last,), dict(own, PROTO=name))
        made[name] = last = cls
    for n in NURBS:
        made[n] = getattr(nurbs, n, None) or getattr(shaders, n)
    return made


_parser = []


class Parsing:
    def __init__(self, made):
        from vrml.vrml97 import basenamespaces
        from vrml.vrml97.parser import buildParser
        self.base = basenamespaces.basePrototypes.copy()
        self.base.update(made)
        if not _parser:
            _parser.append(buildParser())
        self.parser = _parser[0]

    def __call__(self, text, known=True):
        from vrml.vrml97.parseprocessor import ParseProcessor
        ok, result, n = self.parser.parse(text, processor=ParseProcessor(basePrototypes=self.base))
        check(ok and n == len(text), 'parsed %s characters of %s:\n%s', n, len(text), text)
        return result[1]


def added(value, rec):
    (types, model), layout, style, compact = value
    mine = dict(NURBS, **{n: s for n, _, s in types})
    spec97.NODES.update(mine)
    spec97.EVENTS.update({n: {} for n in mine})
    try:
        run(types, model, layout, style, compact, mine, rec)
    finally:
        spec97.NODES.clear()
        spec97.NODES.update(ORIGINAL)
        for n in mine:
            spec97.EVENTS.pop(n, None)


def run(types, model, layout, style, compact, mine, rec):
    from vrml.vrml97 import linearise
    used = [n for n in scenes.all_nodes(model) if n[1] in mine]
    for n in used:
        rec.label('extension' if n[1] in NURBS else 'added')
    rec.label('derived', any(s == 4 for _, s, _ in types))
    rec.nt(any(len(n[3]) >= 2 or any(isinstance(v, list) and v and isinstance(v[0], tuple) and v[0][0] == 'N' for f, v in n[3]) for n in used))
    made = classes(types)
    parse = Parsing(made)
    p = printer.Printer(layout)
    text = printer.frame(p, p.body(dict(model, routes=[])))
    want = scenes.expected(dict(model, routes=[]))
    if model['routes']:
        text += '\n' + '\n'.join('ROUTE %s.%s TO %s.%s' % r for r in model['routes']) + '\n'
        want = scenes.expected(model)
    scene = parse(text)
    d = scenes.diff(scenes.snapshot(scene), want)
    check(d is None, 'parsed scene differs: %s\n%s', d, text)
    # the nodes are of the classes that were given
    for n in scene.children:
        t = type(n).PROTO
        if t in made:
            check(type(n) is made[t], 'a node of class %s, expected %s', type(n), made[t])
    built, defs = scenes.build(model, style, made)
    d = scenes.diff(scenes.snapshot(built), want)
    check(d is None, 'the built scene is not the described one: %s', d)
    for s in (built, scene):
        out = linearise.linearise(s, linearise.minimal1) if compact else linearise.linearise(s)
        d = scenes.diff(scenes.snapshot(parse(out)), want)
        check(d is None, 're-read scene differs: %s\n%s', d, out)
    if used:
        # they are this parser's own
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                parse.parser.parse(text)
        except Violation:
            raise
        except Exception:
            pass
        else:
            raise Violation('a parser that was not given the types accepted\n%s' % text)


CASES = [
    Case('added', st.tuples(cases(), printer.LAYOUT, st.integers(0, 7), st.booleans()), added, 2500),
]
