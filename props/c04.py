"""C04 declarations survive being written out"""
from hypothesis import strategies as st
from harness import scenes, vals, protos, printer
from harness.core import Case, check
from props import c02

RULE = ('random scenes with up to 4 PROTO / EXTERNPROTO declarations (nested up to two deep, up to 4 fields and events each over all 20 types with generated '
        'defaults), Scripts, IS of fields and events of built-in nodes, instances and Scripts, instances with given values, DEF/USE and routes inside and '
        'outside bodies; made by parsing an independently printed text or with the Python functions, written in both option sets, re-read, written and '
        're-read again. script values: values set on Scripts (and on copies of them) after their declaration. Non-trivial: an interface with at least one entry.')
ASSUMPTIONS = ['names of prototypes are unique in the scene, and not those of built-in types', 'EXTERNPROTOs have at least one URL',
               'node-valued defaults are nodes without DEF names']


def write(scene, style):
    from vrml.vrml97 import linearise
    return linearise.linearise(scene, linearise.minimal1) if style & 1 else linearise.linearise(scene) if style & 2 else scene.toString()


def roundtrip(value, rec):
    body, layout, style = value
    text = repr(body)
    rec.nt("'field'" in text or "'exposedField'" in text or "'eventIn'" in text or "'eventOut'" in text)
    for w in ('EXTERNPROTO', 'IS', 'Script', 'eventIn', 'USE'):
        rec.label(w, "'%s'" % w in text)
    rec.label('nested', any(d[0] == 'PROTO' and d[3]['decls'] for d in body['decls']))
    rec.label('routes', bool(body['routes']))
    want = protos.expected(body)
    if style & 4:
        scene, ties = protos.build(body)
        assert not ties
        source = 'built'
    else:
        source = protos.text_of(body, layout)
        scene = scenes.parse(source)
    d = protos.diff(protos.snapshot(scene), want)
    check(d is None, 'the scene is not the described one: %s\n%s', d, source)
    for i in range(2):
        text = write(scene, style)
        scene = scenes.parse(text)
        d = protos.diff(protos.snapshot(scene), want)
        check(d is None, 'after writing and reading %d times: %s\n%s\n----\n%s', i + 1, d, source, text)
    if style & 4 and style & 2:
        # written before anything looked at it
        text = write(protos.build(body, bare=True)[0], style)
        d = protos.diff(protos.snapshot(scenes.parse(text)), want)
        check(d is None, 'after writing a new scene and reading: %s\n%s', d, text)


def one_field(value, rec):
    """One declaration of every kind and type, default and instance value"""
    kind, ft, name, default, given, script, style = value
    rec.nt()
    rec.label('%s %s' % (kind, ft))
    event = kind.startswith('event')
    face = [(kind, ft, name, None if event else default)]
    if script:
        body = dict(decls=[], children=[('S', 'Script', None, [], face)], routes=[])
    else:
        body = dict(decls=[('PROTO', 'P', face, dict(decls=[], children=[], routes=[]))],
                    children=[('N', 'P', None, []), ('N', 'P', None, [] if event else [(name, given)])], routes=[])
    roundtrip((body, [0], style), rec)


def script_values(value, rec):
    """Values given to a Script's fields after its declaration, also to those of a copy"""
    fields, layout, style, how = value
    rec.nt()
    names = [protos.FIELDNAMES[i] for i in range(len(fields))]
    for ft, default, given, change in fields:
        rec.label(ft)

    def body(k):
        return dict(decls=[], children=[('S', 'Script', 'A', [], [('field', ft, name, f[k if f[3] else 1]) for name, f in zip(names, fields) for ft in f[:1]])], routes=[])

    def make(k):
        return protos.build(body(k))[0] if how & 1 else scenes.parse(protos.text_of(body(k), layout))
    want = protos.expected(body(2))
    scene, other = make(1), make(2)
    if how & 2:
        scene = scene.copy()
    for name, f in zip(names, fields):
        if f[3]:
            setattr(scene.children[0], name, getattr(other.children[0], name))
    if how & 4:
        scene = scene.copy()
    for i in range(2):
        text = write(scene, style)
        scene = scenes.parse(text)
        d = protos.diff(protos.snapshot(scene), want)
        check(d is None, 'after writing and reading %d times: %s\n%s', i + 1, d, text)


def once(body):
    """The same text, but no name is given to two nodes of one scope"""
    seen = set()

    def one(s):
        if s[0] == 'proto':
            return s[:2] + (once(s[2]),)
        if s[0] not in ('node', 'script', 'inst'):
            return s
        name = s[2]
        if name in seen:
            name = None
        seen.add(name)
        return s[:2] + (name,) + ((([one(c) for c in s[3]]),) if s[0] != 'inst' else ())
    return [one(s) for s in body]


def scoped(value, rec):
    """Nested scopes that use the same names, Scripts that refer to nodes of theirs"""
    body, layout, style, copied = value
    body = once(body)
    scene, verify, want, n = c02.scopes((body, layout), rec)
    for i in range(2):
        if copied & (i + 1):
            scene = scene.copy()
            verify(scene, want, 'copy')
        text = write(scene, style)
        again = scenes.parse(text)
        try:
            verify(again, want, 'written and read %d times' % (i + 1))
        except AssertionError:
            raise
        except Exception as e:
            check(False, '%s\nwritten as:\n%s', e, text)
        scene = again
    rec.label('prototypes', n > 0)
    rec.label('script', "'script'" in repr(body))
    rec.nt("'use'" in repr(body))


def _own(ft):
    node = st.sampled_from([None, ('N', 'Box', None, [('size', (1.0, 2.0, 3.0))]), ('N', 'Group', None, [])])
    v = node if ft == 'SFNode' else st.lists(node.filter(bool), max_size=2) if ft == 'MFNode' else printer.VALUES[ft]
    return st.tuples(st.just(ft), v, v, st.booleans())


def _one(ft):
    node = st.sampled_from([None, ('N', 'Box', None, [('size', (1.0, 2.0, 3.0))]), ('N', 'Group', None, [])])
    v = node if ft == 'SFNode' else st.lists(node.filter(bool), max_size=2) if ft == 'MFNode' else printer.VALUES[ft]
    return st.tuples(st.sampled_from(['field', 'exposedField', 'field', 'exposedField', 'eventIn', 'eventOut']), st.just(ft), st.sampled_from(protos.FIELDNAMES), v, v,
                     st.booleans(), st.integers(0, 7)).map(lambda a: a if a[0] != 'exposedField' or not a[5] else ('field',) + a[1:])


CASES = [
    Case('scene', st.tuples(protos.bodies(), printer.LAYOUT, st.integers(0, 7)), roundtrip, 1600),
    Case('field', st.sampled_from(protos.ALLTYPES).flatmap(_one), one_field, 1600),
    Case('script values', st.tuples(st.lists(st.sampled_from(protos.ALLTYPES).flatmap(_own), min_size=1, max_size=4), printer.LAYOUT, st.integers(0, 3), st.integers(0, 7)), script_values, 800),
    Case('scopes', st.tuples(c02.nested(), printer.LAYOUT, st.integers(0, 3), st.integers(0, 3)), scoped, 800),
]
