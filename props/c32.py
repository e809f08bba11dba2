"""C32 any part of a scene is written as a text that stands by itself"""
import re
from hypothesis import strategies as st
from harness import scenes, protos, printer
from harness.core import Case, check
from props import c17, c24

RULE = ('random scenes with up to 5 PROTO / EXTERNPROTO declarations (nested, tied, with node defaults), Scripts, sharing and routes, built or parsed; written: single nodes (of any depth), lists (plain, derived, of children, paths) and tuples of nodes in any order and '
        'with repetitions, prototypes, lists of prototypes and nodes, and the scene, with and without skipUnusedProtos, after other parts or not. The text declares exactly the prototypes that the part uses (a scene: all it has, '
        'unless skipUnusedProtos), each once, and reads back as these nodes and declarations. Non-trivial: a part that uses some, but not all, of the prototypes, or a list of two or more.')
ASSUMPTIONS = ['names of prototypes are unique in the scene, and not those of built-in types', 'EXTERNPROTOs have at least one URL',
               'nodes without a name are written again where they are used again']


def resolve(n, names):
    return names[n[1]] if n and n[0] == 'USE' else n


def named(nodes, out):
    for n in nodes:
        if n and n[0] != 'USE':
            if n[2]:
                out[n[2]] = n
            for f, v in n[3]:
                if not protos.is_is(v):
                    named([v] if isinstance(v, tuple) and v and v[0] in ('N', 'S') else [x for x in v if isinstance(x, tuple) and x and x[0] in ('N', 'S')] if isinstance(v, list) else [], out)
    return out


def kids(n):
    for f, v in n[3]:
        if protos.is_is(v):
            continue
        if isinstance(v, tuple) and v and v[0] in ('N', 'S', 'USE'):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, tuple) and x and x[0] in ('N', 'S', 'USE'):
                    yield x
    if n[0] == 'S':
        for kind, ft, name, v in n[4]:
            if ft in ('SFNode', 'MFNode') and not protos.is_is(v):
                for x in v if ft == 'MFNode' and v else [v]:
                    if x:
                        yield x


def used(part, names, env, out, skip):
    """Names of the prototypes that a model node or declaration uses (or, unless skip, has in its body)"""
    if part is None:
        return out
    if part[0] in ('PROTO', 'EXTERNPROTO'):
        if part[1] in out:
            return out
        out.add(part[1])
        for kind, ft, name, v in part[2]:
            if ft in ('SFNode', 'MFNode') and v and not protos.is_is(v):
                for x in v if ft == 'MFNode' else [v]:
                    used(x, {}, env, out, skip)
        if part[0] == 'PROTO':
            inner = dict(env)
            for d in part[3]['decls']:
                inner[d[1]] = (d, dict(inner))
            ns = named(part[3]['children'], {})
            if not skip:
                for d in part[3]['decls']:
                    used(d, {}, inner[d[1]][1], out, skip)
            for c in part[3]['children']:
                used(c, ns, inner, out, skip)
        return out
    n = resolve(part, names)
    if n[1] in env:
        used(env[n[1]][0], {}, env[n[1]][1], out, skip)
    for k in kids(n):
        used(k, names, env, out, skip)
    return out


def all_names(body, out):
    for d in body['decls']:
        out.append(d[1])
        if d[0] == 'PROTO':
            all_names(d[3], out)
    return out


DECLARED = re.compile(r'(?:^|(?<=[\s}\]]))(?:EXTERN)?PROTO\s+([^\s\[]+)\s*\[')


def declared_in(text):
    text = re.sub(r'"(?:[^"\\]|\\.)*"|\#[^\n\r]*', lambda m: '""' if m.group()[0] == '"' else '', text, flags=re.S)
    return DECLARED.findall(text)


def inside(model, real, names, out):
    """(model node, real node) of all depths, as far as the Groups go"""
    m = resolve(model, names)
    if m is None:
        return
    out.append((m, real))
    for f, v in m[3]:
        if m[1] == 'Group' and f == 'children':
            for a, b in zip(v, real.children):
                inside(a, b, names, out)


class Mine(list):
    pass


def run(value, rec):
    from vrml.vrml97 import linearise, basenodes, nodepath
    body, layout, how, writes = value
    if how & 1:
        scene = protos.build(body)[0]
    else:
        scene = scenes.parse(protos.text_of(body, layout))
    names, env, classes = named(body['children'], {}), {}, []
    for d in body['decls']:
        env[d[1]] = (d, dict(env))
        classes.append((d, scene.getProto(d[1])))
    parts = []
    for m, r in zip(body['children'], scene.children):
        inside(m, r, names, parts)
    everything = all_names(body, [])
    declarations = protos.declarations(scene) if how & 2 else None
    for form, picks, style in writes:
        skip = style & 1
        if form == 'scene':
            what, models, reals = scene, list(body['children']), list(scene.children)
        else:
            pool = {'node': parts, 'nodes': parts, 'proto': classes, 'protos': classes, 'mixed': parts + classes}[form]
            if not pool:
                continue
            chosen = [pool[i % len(pool)] for i in picks[:1 if form in ('node', 'proto') else None]]
            models, reals = [c[0] for c in chosen], [c[1] for c in chosen]
            what = reals[0] if form in ('node', 'proto') else tuple(reals) if style & 2 else reals
            if isinstance(what, list) and style >> 4:
                # the lists the library makes itself
                if form == 'nodes':
                    what = [basenodes.Group(children=what).children, nodepath.NodePath(what), Mine(what)][(style >> 4) - 1]
                else:
                    what = Mine(what)
                rec.label('written as %s' % type(what).__name__)
        if form == 'scene' and not skip:
            want = set(everything)
        else:
            want = set()
            for m in models:
                used(m, names, env, want, skip)
        if form in ('node', 'scene') and not skip and style & 2:
            text = what.toString()
        elif not skip and style & 4:
            text = linearise.linearise(what)
        else:
            text = linearise.Lineariser([linearise.defaults, linearise.minimal1][style >> 3 & 1]).linear(what, skipUnusedProtos=skip)
        rec.label(form)
        rec.label('%s, some prototypes' % form, want and want != set(everything))
        rec.nt(bool(want and want != set(everything)) or len(reals) > 1)
        got = declared_in(text)
        check(sorted(got) == sorted(want), '%s: the text declares %s, used are %s\n%s', form, got, sorted(want), text)
        again = scenes.parse(text)
        if declarations is None:
            declarations = protos.declarations(scene)
        d = protos.diff(protos.declarations(again), {k: v for k, v in declarations.items() if k in want})
        check(d is None, '%s: another declaration in the text: %s\n%s', form, d, text)
        nodes = [r for r in reals if not isinstance(r, type)]
        a, b = protos.Snap(), protos.Snap()
        x = [a.node(n, str(i)) for i, n in enumerate(again.children)]
        y = [b.node(n, str(i)) for i, n in enumerate(nodes)]
        d = protos.diff(x, y)
        check(d is None, '%s: other nodes in the text: %s\n%s', form, d, text)
        d = c17.difference([c24.expand(n) for n in again.children], [c24.expand(n) for n in nodes])
        check(d is None, '%s: other nodes in the text: %s\n%s', form, d, text)
        ra = [(a.ref(r.source), r.sourceField, a.ref(r.destination), r.destinationField) for r in again.routes]
        rb = [(b.ref(r.source), r.sourceField, b.ref(r.destination), r.destinationField) for r in scene.routes] if form == 'scene' else []
        check(ra == rb, '%s: other routes in the text: %s, not %s\n%s', form, ra, rb, text)


@st.composite
def bodies(draw):
    b = protos.Gen(draw, 5).body(2, {})
    return b


FORMS = ['node', 'node', 'nodes', 'nodes', 'proto', 'protos', 'mixed', 'mixed', 'scene', 'scene']
WRITE = st.tuples(st.sampled_from(FORMS), st.lists(st.integers(0, 12), min_size=1, max_size=4), st.integers(0, 63))
CASES = [Case('parts', st.tuples(bodies(), printer.LAYOUT, st.integers(0, 3), st.lists(WRITE, min_size=1, max_size=4)), run, 2000)]
