"""C02 parsing builds exactly the scene the text describes"""
from hypothesis import strategies as st
from harness import scenes, vals, spec97, printer
from harness.core import Case, check

RULE = ('scene models (up to 12 nodes of the built-in types, all field types, DEF/USE, re-used DEF names, routes) are printed by an independent printer with '
        'generated layout: separators incl. commas, CR/LF/CRLF and comments or none where none is needed, optional brackets, attribute order, number and '
        'string spellings, ROUTEs at any legal place, header and file end variants; texts of nested prototypes that use the same DEF names in every scope; one text in four is given as UTF-8 bytes; the parsed scene is compared with the model, unset fields with the '
        'standard\'s defaults. Non-trivial: at least two nodes or one given field.')
ASSUMPTIONS = ['hexadecimal spellings only of integers', 'a backslash in a string that escapes nothing stands for itself']


def compare(model, layout, rec, parser=None):
    text, routes = printer.print_scene(model, layout)
    want = scenes.expected(model, routes)
    # (one in four texts as UTF-8 bytes)
    given = text
    if scenes.bytes_too(text):
        given = text.encode('utf-8')
        rec.label('bytes')
    scene = scenes.parse(given) if parser is None else scenes.parse_with(parser, given)
    d = scenes.diff(scenes.snapshot(scene), want)
    check(d is None, 'parsed scene differs: %s\n%s', d, text)
    return scene, text


def scene(value, rec):
    model, layout = value
    nodes = scenes.all_nodes(model)
    rec.nt(len(nodes) >= 2 or any(n[3] for n in nodes))
    rec.label('layout', len(layout) > 1)
    rec.label('USE', "'USE'" in repr(model))
    rec.label('routes', bool(model['routes']))
    names = [n[2] for n in nodes if n[2]]
    rec.label('name re-used', len(set(names)) < len(names))
    s, text = compare(model, layout, rec)
    top, defs = scenes.resolve(model)
    for name, m in defs.items():
        n = s.getDEF(name)
        check(n is not None and type(n).__name__ == m.type, 'DEF %r is %r, expected a %s\n%s', name, n, m.type, text)


def field(value, rec):
    """One field of one node in every layout"""
    t, f, v, layouts = value
    model = dict(children=[('N', t, None, [(f, v)])], routes=[])
    rec.nt(spec97.NODES[t][f][2] != v)
    rec.label(spec97.NODES[t][f][1])
    for layout in layouts:
        compare(model, layout, rec)


def reuse(value, rec):
    """Several texts with one parser, and the same text with two parsers"""
    from vrml.vrml97.parser import buildParser
    parser = buildParser()
    rec.nt(len(value) > 1)
    kept = []
    for model, layout in value:
        s, text = compare(model, layout, rec, parser)
        kept.append((s, scenes.snapshot(s)))
    for s, snap in kept:
        d = scenes.diff(scenes.snapshot(s), snap)
        check(d is None, 'a later parse changed the scene: %s', d)


def defaults(value, rec):
    """Every node type with nothing given has the standard's defaults"""
    t, layout = value
    rec.nt()
    compare(dict(children=[('N', t, None, [])], routes=[]), layout, rec)


# ---------------------------------------------------------------- names of scopes

DNAMES = ['A', 'B', 'Group']


class Scopes:
    """Draws a text of nested prototypes that all use the same few DEF names"""
    def __init__(self, draw):
        self.draw, self.k, self.protos = draw, 0, 0
        self.left = draw(st.integers(3, 16))

    def n(self, a, b):
        return self.draw(st.integers(a, b))

    def body(self, defs, protos, depth, least=0):
        out = []
        for i in range(self.n(least, 5)):
            if self.left <= 0 and len(out) >= least:
                break
            out.append(self.statement(defs, protos, depth))
        return out

    def statement(self, defs, protos, depth):
        self.left -= 1
        what = self.n(0, 10)
        if what >= 8 and depth > 0:
            self.protos += 1
            name = 'P%d' % self.protos
            # the names of the text around are not those of the prototype, nor the reverse
            body = self.body([], list(protos), depth - 1, 1)
            protos.append(name)
            return ('proto', name, body)
        if what == 7 and protos:
            return ('inst', protos[self.n(0, len(protos) - 1)], self.name(defs))
        if what >= 5 and defs:
            return ('use', defs[self.n(0, len(defs) - 1)])
        if what == 4 and len(defs) > 1:
            return ('route', defs[self.n(0, len(defs) - 1)], defs[self.n(0, len(defs) - 1)])
        self.k += 1
        k, inner = self.k, []
        name = self.name(())
        script = self.n(0, 5) == 0
        if name in defs:
            defs.remove(name)
        for i in range(self.n(0, 2)):
            if self.left > 0:
                inner.append(self.statement(defs, protos, depth))
        if name is not None and name not in defs:
            defs.append(name)
        return ('script' if script else 'node', k, name, inner)

    def name(self, defs):
        name = [None, None] + DNAMES
        name = name[self.n(0, len(name) - 1)]
        if name is not None and defs != () and name not in defs:
            defs.append(name)
        return name if name is not None else None


@st.composite
def nested(draw):
    return Scopes(draw).body([], [], 3, 1)


class Item:
    def __init__(self, what, name):
        self.what, self.name, self.children = what, name, []


def read_scope(body, protos):
    """(top items, routes, names of the scope) of a body, by the rules of the language"""
    defs, routes = {}, []

    def one(s, out):
        if s[0] in ('node', 'script'):
            item = Item(s[1], s[2])
            item.script = s[0] == 'script'
            if s[2]:
                defs[s[2]] = item
            for c in s[3]:
                one(c, item.children)
            out.append(item)
        elif s[0] == 'use':
            out.append(defs[s[1]])
        elif s[0] == 'inst':
            item = Item(s[1], s[2])
            if s[2]:
                defs[s[2]] = item
            out.append(item)
        elif s[0] == 'route':
            routes.append((defs[s[1]], defs[s[2]]))
        else:
            protos[s[1]] = read_scope(s[2], protos)
    top = []
    for s in body:
        one(s, top)
    return top, routes, defs


def print_body(p, body):
    def routes_and_protos(s):
        if s[0] == 'route':
            p.word('ROUTE')
            p.word(s[1] + '.visible')
            p.word('TO')
            p.word(s[2] + '.visible')
        else:
            for w in ('PROTO', s[1]):
                p.word(w)
            p.punct('[')
            for w in ('exposedField', 'SFBool', 'visible', 'TRUE'):
                p.word(w)
            p.punct(']')
            p.punct('{')
            print_body(p, s[2])
            p.punct('}')

    def node(s):
        if s[0] == 'use':
            p.word('USE')
            p.word(s[1])
            return
        if s[2]:
            p.word('DEF')
            p.word(s[2])
        if s[0] == 'inst':
            p.word(s[1])
            p.punct('{')
        else:
            p.word('Script' if s[0] == 'script' else 'T')
            p.punct('{')
            for w in ('field', 'SFInt32') if s[0] == 'script' else ():
                p.word(w)
            p.word('id')
            p.word(printer.number_i(s[1], p.lay))
            for w in ('eventIn', 'SFBool', 'visible') if s[0] == 'script' else ():
                p.word(w)
            for i, c in enumerate(s[3]):
                if c[0] in ('route', 'proto'):
                    routes_and_protos(c)
                else:
                    for w in ('field', 'SFNode') if s[0] == 'script' else ():
                        p.word(w)
                    p.word('c%d' % i)
                    node(c)
        p.punct('}')
    for s in body:
        if s[0] in ('route', 'proto'):
            routes_and_protos(s)
        else:
            node(s)


def scopes(value, rec):
    """DEF names belong to the scene or prototype body they are written in"""
    from vrml import protofunctions as pf
    body, layout = value
    p = printer.Printer(layout)
    for w in 'PROTO T'.split():
        p.word(w)
    p.punct('[')
    for w in 'field SFInt32 id 0 exposedField SFBool visible TRUE field SFNode c0 NULL field SFNode c1 NULL'.split():
        p.word(w)
    p.punct(']')
    p.punct('{')
    p.punct('}')
    print_body(p, body)
    text = printer.frame(p, p.out)
    protos = {}
    scene = scenes.parse(text.encode('utf-8') if scenes.bytes_too(text) else text)
    top, routes, defs = read_scope(body, protos)
    rec.label('prototype', bool(protos))
    names = [sorted(protos[n][2]) for n in protos] + [sorted(defs)]
    rec.nt(len([n for ns in names for n in ns]) > len({n for ns in names for n in ns}))

    def verify(s, want, where):
        top, routes, defs = want
        items, real = {}, {}

        def same(n, item):
            check(n is not None and n is not False, '%s: no node for %r\n%s', where, item.what, text)
            if id(item) in items:
                check(items[id(item)] is n, '%s: USE %s gives another node\n%s', where, item.name, text)
                return
            check(id(n) not in real, '%s: one node for %r and %r\n%s', where, item.what, real.get(id(n)), text)
            items[id(item)] = n
            real[id(n)] = item.what
            check((n.DEF or None) == item.name, '%s: %r has the name %r\n%s', where, item.what, n.DEF, text)
            if isinstance(item.what, int):
                check(pf.protoName(n) == ('Script' if item.script else 'T') and n.id == item.what, '%s: node %r is where %r should be\n%s', where, n.id, item.what, text)
                children = [c for c in (getattr(n, 'c0', None), getattr(n, 'c1', None)) if c]
                check(len(children) == len(item.children), '%s: node %d has %d nodes\n%s', where, n.id, len(children), text)
                for c, i in zip(children, item.children):
                    same(c, i)
            else:
                check(pf.protoName(n) == item.what, '%s: %r is a %r\n%s', where, n, item.what, text)
                check(n.visible is True or n.visible == 1, 'visible')
                verify(pf.getSceneGraph(n), protos[item.what], 'instance of ' + item.what)
        got = list(s.children) if s else []
        check(len(got) == len(top), '%s has %d nodes, not %d\n%s', where, len(got), len(top), text)
        for n, item in zip(got, top):
            same(n, item)
        got = [(id(r.source), r.sourceField, id(r.destination), r.destinationField) for r in (s.routes if s else [])]
        expected = [(id(items[id(a)]), 'visible', id(items[id(b)]), 'visible') for a, b in routes]
        check(got == expected, '%s: routes differ\n%s', where, text)
        for name in DNAMES:
            want = defs.get(name)
            found = s.getDEF(name) if s else None
            if want is None or id(want) in items:
                check(found is (None if want is None else items[id(want)]), '%s: DEF %s is %r\n%s', where, name, found, text)
    verify(scene, (top, routes, defs), 'scene')
    for name in protos:
        cls = scene.getProto(name)
        if cls is not None:
            verify(pf.getSceneGraph(cls), protos[name], 'prototype ' + name)
    return scene, verify, (top, routes, defs), len(protos)


from props.c01 import by_type
FIELD = st.sampled_from(sorted(by_type)).flatmap(
    lambda ft: st.tuples(st.sampled_from(by_type[ft]), printer.VALUES[ft], st.lists(printer.LAYOUT, min_size=1, max_size=3))).map(
        lambda x: (x[0][0], x[0][1], x[1], x[2]))


def deep_nesting():
    """True while a text of children nested 400 deep is not parsed"""
    import sys
    from vrml.vrml97.parser import buildParser
    sys.setrecursionlimit(1000)     # Python's default, which the worker raises
    text = '#VRML V2.0 utf8\n' + 'Group { children [ ' * 400 + '] } ' * 400
    try:
        success, result, n = buildParser().parse(text)
    except RecursionError:
        return True
    return not success or n != len(text)


PROBES = {'deep-nesting': deep_nesting}
SMALL = scenes.scenes(max_nodes=5, depth=2, values=printer.SHORT, redef=True)
CASES = [
    Case('scene', st.tuples(st.one_of(scenes.scenes(values=printer.SHORT), scenes.scenes(values=printer.SHORT, redef=True)), printer.LAYOUT), scene, 2400),
    Case('field', FIELD, field, 4000),
    Case('reuse', st.lists(st.tuples(SMALL, printer.LAYOUT), min_size=2, max_size=3), reuse, 300),
    Case('scopes', st.tuples(nested(), printer.LAYOUT), scopes, 1500),
    Case('defaults', st.tuples(st.sampled_from(sorted(spec97.NODES)), printer.LAYOUT), defaults, 1000),
]
