"""C07 refused values raise ValueError and change nothing"""
import numpy as np
from hypothesis import strategies as st
from harness import vals, nodes, spec97
from harness.core import Case, check
from props import c06

RULE = ('a field of one of 33 value types, SFNode or MFNode (of a small prototype or of a built-in node) is brought into a random state '
        '(unset, read, set, set twice, deleted) and is then given up to 4 values its type does not accept, by assignment, constructor or set; '
        'state, values of all fields and notifications are compared before and after. Non-trivial: every case with a field that was set. restricted: fields (of the library and defined with requiredTypes) that only '
        'take nodes of some types, given nodes of all types (non-trivial: some accepted, some refused).')
ASSUMPTIONS = ['SFBool and SFString accept nearly every object, so only what they refuse (multi-element arrays; undecodable bytes, '
               'sequences of non-strings) is tried on them', 'what arrays of numbers out of the element range become (numpy converts them) is not claimed, nor is SFInt32 limited to 32 bits',
               'names of declared fields with set_/_changed around them are known names']


class Thing(object):
    def __repr__(self):
        return '<Thing>'


def bad(t):
    """Names of bad values of the type (the objects are made by make_bad)"""
    if t == 'SFNode':
        return ['str', 'number', 'Thing', 'dict', 'two nodes', 'class', 'list of str', 'array', 'float', 'tuple of number']
    if t == 'MFNode':
        return ['str', 'number', 'Thing', 'dict', 'class', 'list of str', 'node and number', 'float', 'node and str', 'nested two', 'late number', 'late falsy', 'middle str', 'late class']
    kind, count, dt = c06.TYPES[t]
    if dt == 'bool':
        return ['array']
    if t == 'SFString':
        return ['bad bytes', 'mixed strings', 'numbers']
    if t == 'MFString':
        return ['None', 'number', 'bad bytes list', 'mixed nested', 'node']
    common = ['Thing', 'node', 'word', 'list of words', 'list with None', 'list with node', 'list with Thing', 'dict', 'array of str', 'class', 'late word', 'range', 'range list']
    if kind == 'scalar':
        return common + ['None', 'empty text', 'list', 'long array', 'complex'] + (['nan', 'float text'] if dt in 'iI' else [])
    if kind == 'list':
        return common + ['complex'] + (['nested', 'float text'] if dt in 'iI' else []) + ['set']
    out = common + ['short list', 'long list', 'short array', 'long array', 'short text', 'complex']
    if kind == 'vec':
        out += ['None', 'empty list', 'empty array']
    else:
        out += ['ragged', 'number']
        out.remove('list with None')  # numpy stores it as nan
    if dt == 'color':
        out += ['bad hex', 'name and numbers', 'bad name list']
    if dt == 'color' and kind == 'vec':
        out = [x for x in out if x not in ('name and numbers', 'bad name list')]
    return out


def make_bad(t, name, n):
    from vrml.vrml97 import basenodes
    kind, count, dt = c06.TYPES.get(t, ('node', 1, ''))
    node = basenodes.Group()
    one = [1.0] * count if kind != 'veclist' else [1.0] * (count * 2)
    if dt in ('i', 'I'):
        one = [1] * len(one)
    good = [str(x) for x in one]
    simple = {
        'str': 'abc', 'word': ['abc', 'x1', '1x', 'nano', '--1', '1 2 3 zz', '0x'][n % 7], 'number': 5, 'float': 2.5, 'Thing': Thing(), 'dict': {'a': 1}, 'class': basenodes.Group,
        'list of str': ['abc'], 'None': None, 'array': np.array([1.0, 2.0, 3.0, 4.0]), 'two nodes': [node, basenodes.Box()],
        'node': node, 'node and number': [node, 3], 'node and str': (node, 'x'), 'nested two': [[node, node]],
        'tuple of number': (4,), 'late number': [basenodes.Box() for i in range(n % 9)] + [n], 'late falsy': [basenodes.Box() for i in range(n % 9)] + [[0, '', 0.0, False, {}][n % 5]],
        'middle str': [basenodes.Box() for i in range(n % 7)] + ['x'] + [node] * (n % 3), 'late class': [node] * (n % 9) + [basenodes.Group], 'bad bytes': [b'\xff\xfe', b'abc\x80', b'\xc3'][n % 3], 'mixed strings': ['a', 1], 'numbers': (1, 2, 3),
        'bad bytes list': ['ok', b'\xff'], 'mixed nested': ['a', ['b', 3]], 'list of words': ['abc'] * max(1, len(one)),
        'list with None': one[1:] + [None], 'list with node': one[1:] + [node], 'list with Thing': [Thing()] + one[1:],
        'array of str': np.array(['abc'] * len(one)), 'late word': one[1:] + ['abc'],
        'empty text': ['', ' '][n % 2], 'list': [[1], [1, 2], []][n % 3], 'long array': np.ones(count + 1), 'complex': 1 + 2j,
        'nan': float('nan'), 'float text': ['1.5', '1e3', '1 2.0'][n % 3], 'nested': [[1, 2], [3]],
        'short list': one[1:] if len(one) > 1 else [], 'long list': one + [1.0] * (1 + n % (count - 1 or 1)),
        'short array': np.ones(len(one) - 1), 'short text': ' '.join(good[1:]) if kind == 'veclist' else ' '.join(good + good[:1 + n % 3]),
        'empty list': [], 'empty array': np.zeros((0,)), 'ragged': [[1.0] * count, [1.0] * (count - 1)],
        'bad hex': ['#gg0000', '#', '#12345z'][n % 3], 'name and numbers': ['red', 0.5, 0.5], 'bad name list': ['red', 'noncolour'],
        'set': {1, 2},
        'range': ([10 ** 400, -10 ** 330] if dt not in ('i', 'I') else [float('inf'), -float('inf')] if kind == 'scalar' else
                  [2 ** 40, 10 ** 30, -2 ** 35, float('inf'), str(2 ** 33)] + ([2 ** 31] if dt == 'i' else [-1, 2 ** 32]))[n % (2 if kind == 'scalar' or dt not in ('i', 'I') else 6)],
        'range list': one[1:] + [10 ** 400 if dt not in ('i', 'I') else [2 ** 40, float('inf'), -2 ** 33][n % 3]],
    }
    v = simple[name]
    if name == 'number' and kind == 'veclist':
        v = 5
    if name == 'complex' and kind == 'list':
        v = [1 + 2j]
    if name == 'complex' and kind in ('vec', 'veclist'):
        v = [1 + 2j] * len(one)
    return v


protos = {}


def make_class(t, sel):
    """(class, field name under test): a small prototype, or a built-in type"""
    from vrml.vrml97 import basenodes
    if sel:
        choices = BUILTIN.get(t)
        if choices:
            name, f = choices[sel % len(choices)]
            return getattr(basenodes, name), f
    if t not in protos:
        protos[t] = nodes.proto('P' + t, nodes.field('x', t), nodes.field('y', t), nodes.field('n', 'SFFloat', 3.0),
                                nodes.field('s', 'MFString', ['a']), nodes.field('c', 'MFNode'), nodes.field('q', 'SFNode'))
    return protos[t], 'x'


BUILTIN = {}
for _t in sorted(spec97.NODES):
    for _f, (_k, _ft, _d) in sorted(spec97.NODES[_t].items()):
        BUILTIN.setdefault(_ft, []).append((_t, _f))


def good(t, v):
    from vrml.vrml97 import basenodes
    if t == 'SFNode':
        return basenodes.Box() if v else None
    if t == 'MFNode':
        return [basenodes.Group() for i in range(v)]
    return v


def copy_of(v):
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, list):
        return [x if not hasattr(x, '__dict__') else id(x) for x in v]
    return v if isinstance(v, (int, float, str)) else id(v)


def state(node):
    from vrml import protofunctions
    out = {}
    for f in protofunctions.getFields(node):
        if not f.name.startswith(' root'):
            out[f.name] = (copy_of(f.fget(node)), id(f.fget(node))) if f.fhas(node) else None
    return out


def refuse(value, rec):
    t, sel, prior, attempts = value
    cls, name = make_class(t, sel)
    node = cls()
    from vrml import protofunctions
    f = protofunctions.getField(node, name)
    others = [g for g in sorted(protofunctions.getFields(node)) if g.name not in (name, ' root', ' scenegraph')]
    for what, arg in prior:
        if what == 'set':
            f.fset(node, good(t, arg))
            rec.nt()
        elif what == 'read':
            f.fget(node)
        elif what == 'del' and f.fhas(node):
            f.fdel(node)
        elif what == 'other':
            g = others[hash(str(arg)[:1]) % len(others)]
            g.fget(node)
    log = nodes.Log(node)
    before = state(node)
    has = f.fhas(node)
    for kindindex, n, how in attempts:
        kinds = bad(t)
        kindname = kinds[kindindex % len(kinds)]
        v = make_bad(t, kindname, n)
        rec.label(t)
        try:
            if how == 0:
                setattr(node, name, v)
            elif how == 1:
                cls(**{name: v})
            elif how == 2:
                f.fset(node, v)
            elif how == 3:
                f.fset(node, v, 0)
            else:
                f.coerce(v)
        except ValueError:
            pass
        except TypeError:
            if how != 4:
                raise
        else:
            check(False, '%s field %s accepted %s (%r), way %d', t, name, kindname, v, how)
        check(f.fhas(node) == has, '%s: fhas was %r and is %r after %s', t, has, f.fhas(node), kindname)
        after = state(node)
        check(after == before, '%s: state changed by refused %s: %s', t, kindname,
              sorted((k, before[k], after[k]) for k in before if before[k] != after[k]))
        events = log.take()
        check(not events, '%s: refused %s (way %d) sent %r', t, kindname, how, events)
    if t == 'MFNode':
        # the list is still the field's
        from vrml.vrml97 import basenodes
        g = basenodes.Group()
        node_list = f.fget(node)
        log.take()
        node_list.append(g)
        check(any(s == ('set', f) for s, *_ in log.take()), 'after the refused sets, changes of the list are not announced')
        check(list(f.fget(node))[-1] is g, 'the list is not the field\'s')


def unknown(value, rec):
    sel, names, extra = value
    from vrml.vrml97 import basenodes
    from vrml import protofunctions
    tname = sorted(spec97.NODES)[sel % len(spec97.NODES)]
    cls = getattr(basenodes, tname)
    known = {f.name for f in protofunctions.getFields(cls)} | set(spec97.EVENTS[tname]) | set(dir(cls))
    name = names
    base = name[4:] if name.startswith('set_') else name[:-8] if name.endswith('_changed') else name
    if name in known or base in known or ' ' + name in known:
        return
    rec.nt()
    kw = {name: 1}
    if extra and spec97.NODES[tname]:
        kw['DEF'] = 'x'
    try:
        cls(**kw)
    except AttributeError:
        pass
    else:
        check(False, '%s(%s=1) was accepted', tname, name)


_restricted = {}


def restricted_classes():
    """Fields that only take nodes of some types"""
    if not _restricted:
        from vrml import node, route
        from vrml.vrml97 import basenodes

        class ShapeField(node.SFNode):
            requiredTypes = (basenodes.Shape,)

        class GroupsField(node.SFNode):
            """Groups and what is derived from them"""
            requiredTypes = (basenodes.Group, basenodes.Transform)

        class ShapesField(node.MFNode):
            baseSFNode = ShapeField('aShape')

        class GroupsList(node.MFNode):
            baseSFNode = GroupsField('aGroup')
        _restricted['cls'] = node.prototype('Restricted', [ShapeField('x', 1), GroupsField('g', 1), ShapesField('xs', 1), GroupsList('gs', 1), route.SFRoute('r', 1), route.MFRoute('rs', 1),
                                                           nodes.field('n', 'SFFloat', 3.0)])
    return _restricted['cls']


TAKES = {'x': (0, 1), 'xs': (0, 1), 'g': (2, 3, 4), 'gs': (2, 3, 4), 'r': (5,), 'rs': (5,)}


def restricted(value, rec):
    from vrml import protofunctions, route
    from vrml.vrml97 import basenodes, scenegraph
    scene, ops = value
    cls = restricted_classes()

    class MyGroup(basenodes.Group):
        pass
    pool = [basenodes.Shape(), basenodes.Shape(), basenodes.Group(), MyGroup(), basenodes.Transform(), None, basenodes.Box(), basenodes.Appearance()]
    pool[5] = route.ROUTE(pool[4], 'translation', pool[4], 'scale')
    node = scenegraph.SceneGraph() if scene else cls()
    log = nodes.Log(node)
    model = {}
    refused = 0
    for how, fname, kind, items in ops:
        name = 'routes' if scene else fname
        takes = TAKES['rs' if scene else fname]
        many = name in ('xs', 'gs', 'rs', 'routes')
        f = protofunctions.getField(node, name)
        if kind % 2:
            # values that fit
            given = [pool[takes[i % len(takes)]] for i in items]
        else:
            given = [pool[i] for i in items]
        fits = all(any(x is pool[i] for i in takes) for x in given)
        if many:
            v = [given, tuple(given), given[0] if len(given) == 1 else given][kind % 3]
            expect = given
        elif not given:
            v, expect = None, None
        else:
            fits = fits and len(given) == 1
            v, expect = given if kind % 3 or len(given) > 1 else given[0], given[0]
        where = '%s = %s' % (name, [type(x).__name__ for x in given])
        before = state(node)
        log.take()
        try:
            if how == 0:
                setattr(node, name, v)
            elif how == 1:
                f.fset(node, v)
            elif how == 2:
                f.fset(node, v, 0)
            elif not scene:
                other = cls(**{name: v})
                check(fits, '%s: accepted by the constructor', where)
                got = getattr(other, name)
                check([id(x) for x in (got if many else [got])] == [id(x) for x in (expect if many else [expect])] or (expect is None and not got), '%s: the new node has %r', where, got)
                check(state(node) == before and not log.take(), '%s: another node changed', where)
                continue
            else:
                continue
        except ValueError:
            refused += 1
            check(not fits, '%s: refused', where)
            check(state(node) == before, '%s: the refused value changed the node', where)
            check(not log.take(), '%s: refused and told', where)
        else:
            check(fits, '%s: accepted', where)
            model[name] = expect
            got = getattr(node, name)
            check([id(x) for x in (got if many else [got])] == [id(x) for x in (expect if many else [expect])] or (expect is None and not got), '%s: the node has %r', where, got)
    rec.nt(refused and model)
    rec.label('scene routes' if scene else 'restricted')


def goodvalue(t):
    if t == 'SFNode':
        return st.integers(0, 1)
    if t == 'MFNode':
        return st.integers(0, 3)
    return c06.value(t) if t not in vals.SHORT else vals.SHORT[t]


def case_for(t):
    return st.tuples(st.just(t), st.integers(0, 40),
                     st.lists(st.tuples(st.sampled_from(['set', 'set', 'read', 'del', 'other']), goodvalue(t)), max_size=3),
                     st.lists(st.tuples(st.integers(0, 60), st.integers(0, 20), st.integers(0, 3)), min_size=1, max_size=4))


ALL = sorted(c06.TYPES) + ['SFNode', 'MFNode'] * 3
ident = st.one_of(st.sampled_from(['translatio', 'Children', 'childrens', 'x', 'xx', 'point_', 'siz', 'def', 'root2', 'set_', '_changed', 'radius2']),
                  st.text(st.sampled_from('abcdefXYZ_0123'), min_size=1, max_size=8).filter(lambda s: not s[0].isdigit()))
CASES = [
    Case('refuse', st.sampled_from(ALL).flatmap(case_for), refuse, 8000),
    Case('restricted', st.tuples(st.booleans(), st.lists(st.tuples(st.sampled_from([0, 0, 1, 2, 3]), st.sampled_from(['x', 'g', 'xs', 'gs', 'r', 'rs']), st.integers(0, 5),
                                                                   st.lists(st.integers(0, 7), max_size=4)), min_size=1, max_size=8)), restricted, 800),
    Case('unknown', st.tuples(st.integers(0, 200), ident, st.booleans()), unknown, 2400),
]
