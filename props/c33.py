"""C33 a prototype keeps its own name, body and location"""
import contextlib, io
from hypothesis import strategies as st
from harness import scenes
from harness.core import Case, check

RULE = ('histories of up to 16 operations over up to 5 prototypes (made by node.prototype with and without body, location, fields and other base classes; Python classes derived from them or from '
        'the node classes): setting (by prototype or by node), deleting and reading names, bodies and locations with the protofunctions, editing bodies, editing what was read, making nodes, '
        'editing the bodies of nodes, writing. After each step every prototype is compared with the model, and every node\'s body with the one in force when it was made. Non-trivial: a node was made '
        'after its type\'s body was set, deleted or inherited.')
ASSUMPTIONS = ['the list of locations set on a prototype is the prototype\'s own: it is not edited through its nodes', 'a Python class without a name of its own has that of the nearest base that has one']

LEAVES = ['Box', 'Sphere', 'Cone', 'Cylinder', 'Group']


def kinds(children):
    return [type(c).__name__ for c in children]


def run(value, rec):
    from vrml import node, field, protofunctions as pf
    from vrml.vrml97 import basenodes, scenegraph, linearise
    specs, ops = value
    protos, model = [], []  # model: dict(name, body (list of leaf names) or None, url or None, base index or None, proto)

    def body(k):
        names = [LEAVES[(k // 5 ** i) % 5] for i in range(k % 4)]
        return scenegraph.SceneGraph(children=[getattr(basenodes, n)() for n in names]), names

    for i, (kind, base, k, withbody, withurl) in enumerate(specs):
        base = base % i if i and base else None
        bases = (protos[base],) if base is not None else (node.PrototypedNode, node.Node)
        m = dict(name=None, sg=None, body=None, url=None, base=base, proto=base is None or model[base]['proto'])
        if kind == 0:
            named = {}
            if withbody:
                m['sg'], m['body'] = body(k)
                named['sceneGraph'] = m['sg']
            if withurl:
                m['url'] = ['u%d' % k]
                named['externalURL'] = m['url'] if k % 2 else m['url'][0]
            if base is not None:
                named['baseClasses'] = bases
            m['name'] = 'P%d' % i
            p = node.prototype('P%d' % i, [field.newField('f%d' % i, 'SFInt32', 1, k)] if k % 3 else (), **named)
        elif kind == 1:
            p = type('D%d' % i, bases, {'f%d' % i: field.newField('f%d' % i, 'SFInt32', 1, k)} if k % 3 else {})
        else:
            p = type('N%d' % i, (node.Node,), {})
            m['base'], m['proto'] = None, False
        protos.append(p)
        model.append(m)

    def chain(i):
        while i is not None:
            yield i
            i = model[i]['base']

    def name(i):
        for j in chain(i):
            if model[j]['name'] is not None:
                return model[j]['name']
        return protos[i].__name__

    def inforce(i):
        for j in chain(i):
            if model[j]['sg'] is not None:
                return model[j]['body']
        return []

    made = []  # (node, type index, expected kinds)

    def compare(where):
        for i, (p, m) in enumerate(zip(protos, model)):
            check(pf.protoName(p) == name(i) and pf.name(p) == name(i), '%s: the name of %d is %r, should be %r', where, i, pf.protoName(p), name(i))
            sg = pf.getSceneGraph(p)
            check(sg is m['sg'] if m['sg'] is not None else not sg, '%s: the body of %d is %r, should be %r', where, i, sg, m['sg'])
            if m['sg'] is not None:
                check(kinds(sg.children) == m['body'], '%s: the body of %d has %r, should be %r', where, i, kinds(sg.children), m['body'])
            url = pf.getExternalURL(p)
            check(list(url) == (m['url'] or []), '%s: the location of %d is %r, should be %r', where, i, url, m['url'])
            check(pf.builtin(p) == (not m['proto']), '%s: builtin(%d) is %r', where, i, pf.builtin(p))
            check(pf.getPrototype(p) is p, '%s: getPrototype of a prototype', where)
        for n, (x, i, want) in enumerate(made):
            check(pf.getPrototype(x) is protos[i] and pf.builtin(x) == (not model[i]['proto']), '%s: the prototype of node %d', where, n)
            check(pf.protoName(x) == name(i), '%s: the prototype name of node %d is %r', where, n, pf.protoName(x))
            if model[i]['proto']:
                check(kinds(x.renderedChildren()) == want, '%s: the body of node %d has %r, should be %r', where, n, kinds(x.renderedChildren()), want)
                for t in (basenodes.Box, basenodes.Group):
                    check(kinds(x.renderedChildren(t)) == [k for k in want if k == t.__name__], '%s: renderedChildren(%s) of node %d', where, t.__name__, n)
        # no node is in two bodies
        seen = {}
        for x, i, want in made:
            if model[i]['proto']:
                for c in x.renderedChildren():
                    check(id(c) not in seen, '%s: two nodes share part of a body', where)
                    seen[id(c)] = c
        for m in model:
            if m['sg'] is not None:
                for c in m['sg'].children:
                    check(id(c) not in seen, '%s: a node\'s body has parts of the prototype\'s', where)

    compare('at the start')
    touched = False
    for step, (op, a, k) in enumerate(ops):
        i = a % len(protos)
        p, m = protos[i], model[i]
        where = 'step %d: %s %r on %d' % (step, op, k, i)
        mine = [x for x, j, w in made if j == i]
        if op == 'name':
            v = 'Z%d' % (k % 7)
            target = mine[k % len(mine)] if mine and k % 3 == 0 else p
            (pf.protoName if target is not p or k % 2 else pf.name)(target, v)
            m['name'] = v
        elif op == 'body':
            m['sg'], m['body'] = body(k)
            pf.setSceneGraph(p, m['sg'])
            touched = True
        elif op == 'nobody':
            pf.setSceneGraph(p, None)
            m['sg'] = m['body'] = None
            touched = True
        elif op in ('del body', 'del url'):
            f, what = (pf.delSceneGraph, 'sg') if op == 'del body' else (pf.delExternalURL, 'url')
            try:
                f(p)
                failed = False
            except AttributeError:
                failed = True
            # (setting a body to None leaves a NULL to be deleted)
            if m[what] is not None:
                check(not failed, '%s: could not be deleted', where)
            m[what] = None
            if what == 'sg':
                m['body'] = None
            touched = True
        elif op == 'edit body':
            if m['sg'] is not None:
                m['sg'].children.append(getattr(basenodes, LEAVES[k % 5])())
                m['body'] = m['body'] + [LEAVES[k % 5]]
        elif op == 'url':
            v = ['v%d' % k, 'w'][:(1 + k % 2) * (k % 5 > 0)]
            pf.setExternalURL(p, v[0] if len(v) == 1 and k % 4 else v)
            m['url'] = v
        elif op == 'read':
            for f in (pf.getExternalURL, pf.getSceneGraph, pf.protoName, pf.name, pf.builtin, pf.getFields):
                f(p)
            if m['url'] is None:
                # the default that was read is nobody's
                pf.getExternalURL(p).append('edited')
        elif op == 'make':
            x = p()
            made.append((x, i, list(inforce(i))))
            if m['proto']:
                rec.nt(touched or (m['sg'] is None and inforce(i)))
                rec.label('inherited body', m['sg'] is None and bool(inforce(i)))
            if all(model[j]['url'] is None for j in chain(i)):
                check(list(x.externalURL) == [], '%s: a new node has the locations %r', where, x.externalURL)
                x.externalURL.append('mine')
        elif op == 'edit node':
            if mine and m['proto']:
                n = [j for j, e in enumerate(made) if e[1] == i][k % len(mine)]
                x, _, want = made[n]
                x.renderedChildren().append(getattr(basenodes, LEAVES[k % 5])())
                made[n] = (x, i, want + [LEAVES[k % 5]])
        elif op == 'def':
            if mine:
                x = mine[k % len(mine)]
                (pf.name if k % 2 else pf.defName)(x, 'N%d' % k)
                check(pf.name(x) == pf.defName(x) == x.DEF == 'N%d' % k, '%s: the DEF name is %r', where, pf.name(x))
                s = scenegraph.SceneGraph()
                pf.root(x, s)
                check(pf.root(x) is s and s.getDEF('N%d' % k) is x, '%s: the root', where)
        elif op == 'write':
            if m['proto'] and m['url'] != [] and not (m['url'] is None and any(model[j]['url'] for j in chain(i))):
                text = linearise.linearise(p)
                with contextlib.redirect_stdout(io.StringIO()):
                    r = scenes.parse(text)
                q = r.getProto(name(i))
                check(q is not None, '%s: the text does not declare %s:\n%s', where, name(i), text)
                check(list(pf.getExternalURL(q)) == (m['url'] or []), '%s: the text has the location %r:\n%s', where, pf.getExternalURL(q), text)
                if m['url'] is None:
                    check(kinds(pf.getSceneGraph(q).children) == (m['body'] or []), '%s: the text has the body %r:\n%s', where, kinds(pf.getSceneGraph(q).children), text)
        rec.label(op)
        compare(where)


OPS = ['name', 'body', 'body', 'nobody', 'del body', 'del url', 'edit body', 'url', 'read', 'read', 'make', 'make', 'make', 'edit node', 'def', 'write']
SPEC = st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2]), st.integers(0, 9), st.integers(0, 99), st.booleans(), st.sampled_from([False, False, True]))
OP = st.tuples(st.sampled_from(OPS), st.integers(0, 9), st.integers(0, 99))
CASES = [Case('history', st.tuples(st.lists(SPEC, min_size=1, max_size=5), st.lists(OP, min_size=3, max_size=16)), run, 3000)]
