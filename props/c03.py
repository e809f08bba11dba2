"""C03 invalid text is refused and never affects later parses"""
import contextlib, io
from hypothesis import strategies as st
from harness import scenes, vals, spec97, printer
from harness.core import Case, check, Violation

RULE = ('well-formed texts of the C02 printer, and prototype, external prototype and Script declarations, get one fault each: an undeclared type, name, '
        'field or field type, a value of another kind or count (listed per field type, tried on every field of every type), a bracket dropped, added or exchanged, a quote dropped, '
        'truncation at any token inside a statement, a token dropped that the statement needs; the same with an X3D header; histories of up to 5 good and bad texts go through '
        'one parser (of either format), every good one is compared with its model. Non-trivial: a fault was injected in a text of at least two nodes.')
ASSUMPTIONS = ['NULL for a list of nodes, brackets around a single-value field and routes between unknown fields of known nodes are tolerated by the library and not used as faults',
               'quotes are dropped only from texts without # inside strings or comments']


def refused(text, parser, what):
    given = text
    if scenes.bytes_too(text) and not isinstance(parser, X3DParser):
        given = text.encode('utf-8')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            success, result, n = parser.parse(given)
    except Violation:
        raise
    except Exception:
        return
    check(not success or n < len(given), 'accepted %s:\n%s', what, text)


_X3D = []


def refused_x3d(text, what):
    """The same body with an X3D header"""
    from vrml.vrml200x.parser import buildParser
    if not _X3D:
        _X3D.append(buildParser())
    ends = [k for k in (text.find('\n'), text.find('\r')) if k >= 0]
    body = text[min(ends):] if ends else ''
    refused('#X3D V3.0 utf8\nPROFILE Immersive\n' + body, _X3D[0], what + ' (X3D)')


NUM = [['1.2.3'], ['.'], ['1e'], ['1e+'], ['--1'], ['+-1'], ['"1"'], ['TRUE'], ['FALSE'], ['word'], ['Box', '{', '}'], ['NULL'], ['1x'], ['0x'], ['-'], ['1..2']]


def wrong_values(ft):
    """Token lists that are no value of the type"""
    nothing = [[]]
    if ft == 'SFBool':
        return nothing + [['1'], ['0'], ['"TRUE"'], ['true'], ['True'], ['NULL'], ['Box', '{', '}'], ['[', ']'], ['TRUE', 'FALSE'], ['1.0'], ['TRUEE'], ['F']]
    if ft == 'SFInt32':
        return nothing + NUM + [['1.5'], ['1e3'], ['1.'], ['.5'], ['1', '2'], ['[', ']'], ['0xG'], ['0x1.8'], ['"0x10"']]
    if ft in ('SFFloat', 'SFTime'):
        return nothing + NUM + [['1', '2'], ['[', ']'], ['1', '"a"'], ['1', 'TRUE']]
    if ft == 'SFString':
        return nothing + [['5'], ['TRUE'], ['NULL'], ['Box', '{', '}'], ['"a"', '"b"'], ['word'], ["'a'"], ['[', ']'], ['"a"', '5'], ['0x10'], ['"a"', 'TRUE']]
    if ft == 'SFImage':
        return nothing + [['1', '1', '1', 'TRUE'], ['"1 1 1 0"'], ['1', '1', '1.5'], ['word'], ['NULL'], ['1', '1', '1', '"a"'], ['1', '1', '1', '1e2'], ['TRUE']]
    kind = vals.TYPES[ft][0] if ft in vals.TYPES else 'node'
    count = vals.TYPES[ft][1] if ft in vals.TYPES else 0
    if kind == 'vec':
        n = ['1'] * count
        return nothing + [n[1:], n + ['1'], n + n, n[1:] + ['TRUE'], ['NULL'], ['"%s"' % ' '.join(n)], ['Box', '{', '}'], ['word'], ['"red"'], n[1:] + ['"1"'],
                          n[1:] + ['1.2.3'], n[1:] + ['.'], n[1:] + ['word'], ['[', ']'], n + ['"a"'], n[2:], n + ['NULL'], n[1:] + ['1e']]
    if ft in ('MFFloat', 'MFTime'):
        return nothing + [x for x in NUM if x not in (['NULL'],)] + [['[', '1', 'TRUE', ']'], ['[', '"1"', ']'], ['[', 'NULL', ']'], ['[', 'Box', '{', '}', ']'], ['[', '1', 'word', ']'],
                ['[', '1', '[', '2', ']', ']'], ['[', '1', '2'], ['1', ']'], ['[', '1', '1.2.3', ']'], ['NULL'], ['[', '1', '2', '"3"', ']'], ['[', '1', '2', '.', '3', ']']]
    if ft == 'MFInt32':
        return nothing + NUM + [['[', '1.5', ']'], ['[', '1', '1e3', ']'], ['[', 'TRUE', ']'], ['[', '1', '"2"', ']'], ['[', 'NULL', ']'], ['1.0'], ['[', '1', '2.', ']'],
                                ['[', '0', '1', '2', '-', '1', ']'], ['[', '1', 'Box', '{', '}', ']']]
    if ft == 'MFString':
        return nothing + [['5'], ['TRUE'], ['NULL'], ['Box', '{', '}'], ['[', '5', ']'], ['[', '"a"', '5', ']'], ['[', '"a"', 'TRUE', ']'], ['[', 'Box', '{', '}', ']'], ['[', '5', '"a"', ']'],
                          ['[', '"a"', 'Box', '{', '}', ']'], ['[', 'NULL', ']'], ['word'], ['[', 'word', ']'], ['[', '"a"'], ['"a"', ']'], ['[', '"a"', '"b"', '0x1', ']']]
    if kind == 'veclist':
        n = ['1'] * count
        return nothing + [['['] + n[1:] + [']'], ['['] + n + ['1', ']'], ['['] + n + n[1:] + [']'], ['['] + n[1:] + ['TRUE', ']'], ['[', '"%s"' % ' '.join(n), ']'], ['[', 'NULL', ']'],
                          ['"%s"' % ' '.join(n)], ['NULL'], ['Box', '{', '}'], ['[', 'Box', '{', '}', ']'], ['word'], n[1:], n + ['1'], ['['] + n, n + [']'], ['['] + n[1:] + ['1.2.3', ']'],
                          ['['] + n + n[1:] + ['word', ']'], ['['] + n + ['"a"', ']'], ['['] + n * 3 + ['1'] + [']']]
    if ft == 'SFNode':
        return nothing + [['5'], ['"a"'], ['TRUE'], ['Box', '{', '}', 'Box', '{', '}'], ['[', ']'], ['word'], ['USE'], ['Box'], ['1', '2', '3'], ['Box', '{', '}', '5'], ['NULL', 'NULL'],
                          ['DEF', 'n0'], ['DEF', 'Box', '{', '}'], ['NULL', 'Box', '{', '}']]
    assert ft == 'MFNode', ft
    return nothing + [['5'], ['"a"'], ['TRUE'], ['[', '5', ']'], ['[', 'Box', '{', '}', '5', ']'], ['[', '"a"', ']'], ['[', 'TRUE', ']'], ['[', '5', 'Box', '{', '}', ']'], ['word'], ['[', 'NULL', ']'],
                      ['[', 'Box', '{', '}'], ['[', 'USE', ']'], ['[', 'Box', ']'], ['1', '2'], ['[', '[', 'Box', '{', '}', ']', ']'], ['[', 'Box', '{', '}', '"a"', ']'], ['Box', '{', '}', ']'],
                      ['[', 'Box', '{', ']', '}']]


def toks(words):
    return [[w, 'punct' if w in '[]{}' else 'string' if w.startswith('"') else 'word', '', None] for w in words]


UNDECLARED = ['Undeclared', 'box', 'GROUP', 'transform', 'Boxx', 'Bo', 'Group2', 'NodeX', 'sceneGraph2', 'X3D']
ALLFIELDS = sorted({f for t in spec97.NODES for f in spec97.NODES[t]})
TYPES_ = sorted(spec97.NODES)


def unknown_field(t, k):
    """A field name that nodes of type t do not have"""
    known = set(spec97.NODES[t]) | set(spec97.EVENTS[t]) | {'DEF', 'root', 'externalURL', 'scenegraph'}
    names = [f for f in ALLFIELDS if f not in known] + ['nofield', 'Children', 'foo_changed', 'set_foo', 'x', 'children2', 'sIze']
    return names[k % len(names)]


def inject(p, tokens, kind, k):
    """A list of tokens with one fault, or None if there is no place for it; (tokens, what)"""
    tokens = [list(t) for t in tokens]
    at = lambda f: [i for i, t in enumerate(tokens) if f(t)]
    pick = lambda xs: xs[k % len(xs)]
    if kind == 'type':
        i = at(lambda t: t[2] == 'type')
        if not i:
            return None
        i = pick(i)
        tokens[i][0] = UNDECLARED[k // 7 % len(UNDECLARED)]
        return tokens, 'an undeclared node type'
    if kind == 'use':
        i = at(lambda t: t[2] == 'use')
        if not i:
            return None
        i = pick(i)
        tokens[i][0] = ['Undefined', tokens[i][0] + 'X', tokens[i][0].swapcase() + '_', 'Group'][k // 7 % 4]
        if tokens[i][0] in p.defs:
            return None
        return tokens, "USE of an un-DEF'd name"
    if kind == 'route':
        i = at(lambda t: t[2] == 'route end')
        if not i:
            return None
        i = pick(i)
        name, f = tokens[i][0].split('.')
        name = ['Undefined', name + 'X', 'Group'][k // 7 % 3]
        if name in p.defs:
            return None
        tokens[i][0] = name + '.' + f
        return tokens, "ROUTE of an un-DEF'd name"
    if kind == 'early use':
        # a use before the DEF
        if not p.defs:
            return None
        name = sorted(p.defs)[k % len(p.defs)]
        if k // 7 % 2:
            return toks(['USE', name]) + tokens, "USE before DEF"
        return toks(['ROUTE', '%s.children' % name, 'TO', '%s.children' % name]) + tokens, "ROUTE before DEF"
    if kind == 'field':
        i = at(lambda t: t[2] == 'field' and t[3] != 'PointSet')
        if not i:
            return None
        i = pick(i)
        tokens[i][0] = unknown_field(tokens[i][3], k // 7)
        return tokens, 'an unknown field'
    if kind == 'value':
        if not p.spans:
            return None
        ft, a, b = p.spans[k % len(p.spans)]
        w = wrong_values(ft)
        new = w[k // 7 % len(w)]
        return tokens[:a] + toks(new) + tokens[b:], 'a wrong value for %s: %s' % (ft, ' '.join(new))
    if kind == 'drop bracket':
        i = pick(at(lambda t: t[1] == 'punct'))
        return tokens[:i] + tokens[i + 1:], 'a missing bracket'
    if kind == 'extra bracket':
        i = k % (len(tokens) + 1)
        return tokens[:i] + toks(['[]{}'[k // 7 % 4]]) + tokens[i:], 'an extra bracket'
    if kind == 'exchanged bracket':
        i = pick(at(lambda t: t[1] == 'punct'))
        new = [x for x in '[]{}' if x != tokens[i][0]]
        tokens[i][0] = new[k // 7 % 3]
        return tokens, 'an exchanged bracket'
    if kind == 'truncated':
        ends = {0} | set(p.ends)
        i = [i for i in range(len(tokens)) if i not in ends]
        if not i:
            return None
        return tokens[:pick(i)], 'truncation'
    if kind == 'truncated string':
        i = at(lambda t: t[1] == 'string')
        if not i or any('#' in t[0] for t in tokens):
            return None
        i = pick(i)
        s = tokens[i][0][:-1]
        n = 1 + k // 7 % max(1, len(s) - 1)
        s = s[:n]
        while s.endswith('\\'):
            s = s[:-1]
        p.lay.ints = [0]
        return tokens[:i] + [[s, 'string', '', None]], 'a text that ends in a string'
    if kind == 'quote':
        i = at(lambda t: t[1] == 'string')
        if not i or any('#' in t[0] for t in tokens):
            return None
        i = pick(i)
        tokens[i][0] = tokens[i][0][:-1] if k // 7 % 2 else tokens[i][0][1:]
        p.lay.ints = [0]
        return tokens, 'a missing quote'
    if kind == 'needed token':
        # without its keyword, type name or field name a statement is incomplete
        i = at(lambda t: t[0] in ('DEF', 'USE', 'ROUTE', 'TO') and t[1] == 'word' or t[2] in ('type', 'field', 'route end', 'use'))
        i = [j for j in i if not (tokens[j][0] == 'DEF')] if k % 2 else i
        if not i:
            return None
        i = pick(i)
        if tokens[i][2] == 'field' and i + 1 < len(tokens) and tokens[i - 1][1] != 'punct':
            # (the values of two lists, put together, may be one value)
            return None
        if tokens[i][2] == 'type' and tokens[i - 1][2] == 'field':
            pass
        gone = tokens[i][0]
        del tokens[i]
        return tokens, 'a missing %r' % (gone,)
    if kind == 'trailing':
        w = [['USE'], ['DEF'], ['ROUTE'], ['PROTO'], ['EXTERNPROTO'], ['DEF', 'x'], ['Group'], ['ROUTE', 'x.y', 'TO'], ['PROTO', 'P'], ['DEF', 'x', 'USE'], ['Script']][k % 11]
        return tokens + toks(w), 'a text that ends with %s' % ' '.join(w)
    if kind == 'stray':
        i = k % (len(tokens) + 1)
        w = ['5', '"a"', 'TRUE', 'NULL', 'IS', 'TO', '.', '\\', "'"][k // 7 % 9]
        ends = {0, len(tokens)} | set(p.ends)
        if i not in ends and w not in ('.', '\\', "'"):
            return None
        return tokens[:i] + toks([w]) + tokens[i:], 'a stray %s' % w
    raise KeyError(kind)


KINDS = ['type', 'use', 'route', 'early use', 'field', 'value', 'value', 'value', 'value', 'value', 'drop bracket', 'extra bracket', 'exchanged bracket', 'truncated', 'truncated',
         'truncated string', 'quote', 'needed token', 'stray', 'trailing']

# declarations: well-formed ones as words; then faulty ones made from them
DECLS = [
    'PROTO P [ field SFFloat x 1 exposedField SFBool y TRUE eventIn SFTime t eventOut SFInt32 o ] { Group { } } P { x 2 y FALSE }',
    'PROTO P [ field MFNode c [ Group { } ] field SFNode n NULL field MFString s [ "a" "b" ] field SFVec3f v 1 2 3 ] { Group { children IS c } } P { c [ Box { } ] v 3 2 1 }',
    'PROTO P [ ] { PROTO Q [ field SFFloat r 1 ] { Sphere { radius IS r } } Q { r 5 } } P { }',
    'EXTERNPROTO E [ field SFFloat x eventIn SFTime t exposedField MFVec3f p eventOut SFBool b ] "http://x/y.wrl#E" E { x 5 p [ 1 2 3 ] }',
    'EXTERNPROTO E [ field SFColor c ] [ "a.wrl" "b.wrl" ] E { c 1 0 0 }',
    'DEF S Script { url "javascript: x" field SFFloat x 1 eventIn SFBool in eventOut SFTime out field MFInt32 i [ 1 2 ] mustEvaluate TRUE }',
    'Group { children [ DEF S2 Script { field SFNode n NULL field SFString s "a" } ] }',
    'PROTO P [ exposedField SFFloat x 1 ] { Script { field SFFloat y IS x eventIn SFFloat z IS x } Group { } } P { }',
]
DECL_TYPES = ['SFBool', 'SFInt32', 'SFFloat', 'SFTime', 'SFString', 'SFColor', 'SFVec2f', 'SFVec3f', 'SFRotation', 'MFInt32', 'MFFloat', 'MFString', 'MFColor', 'MFVec2f', 'MFVec3f',
              'MFRotation', 'SFNode', 'MFNode', 'SFImage', 'MFTime']


def bad_declaration(which, kind, k):
    """(words, what) of a faulty declaration"""
    words = DECLS[which % len(DECLS)].split(' ') if which % len(DECLS) != 5 else \
        'DEF S Script { url "js" field SFFloat x 1 eventIn SFBool in eventOut SFTime out field MFInt32 i [ 1 2 ] mustEvaluate TRUE }'.split(' ')
    idx = lambda f: [i for i, w in enumerate(words) if f(w)]
    if kind == 0:
        i = [j for j in idx(lambda w: w in '[]{}')]
        i = i[k % len(i)]
        return words[:i] + words[i + 1:], 'a declaration with a missing bracket'
    if kind == 1:
        i = idx(lambda w: w in '[]{}')
        i = i[k % len(i)]
        w = [x for x in '[]{}' if x != words[i]][k // 7 % 3]
        return words[:i] + [w] + words[i + 1:], 'a declaration with an exchanged bracket'
    if kind == 2:
        i = idx(lambda w: w[:2] in ('SF', 'MF'))
        if not i:
            return None
        i = i[k % len(i)]
        return words[:i] + [['SFFoo', 'MFBar', 'sffloat', 'Float', 'SFVec5f'][k // 7 % 5]] + words[i + 1:], 'an unknown field type'
    if kind == 3:
        i = idx(lambda w: w in ('field', 'exposedField', 'eventIn', 'eventOut'))
        if not i:
            return None
        i = i[k % len(i)]
        return words[:i] + [['fields', 'inputOnly2', 'event', 'Field'][k // 7 % 4]] + words[i + 1:], 'an unknown declaration keyword'
    if kind == 4:
        # truncated within the declaration
        n = 1 + k % (len(words) - 1)
        text = ' '.join(words[:n])
        if text.count('{') == text.count('}') and n > 4 and text.endswith('}') or 'EXTERN' in text and (text.endswith('"') and text.count('[') == text.count(']') or text.count(']') == 2):
            return None
        return words[:n], 'a truncated declaration'
    if kind == 5:
        t = DECL_TYPES[k % len(DECL_TYPES)]
        w = wrong_values(t)
        new = w[k // 7 % len(w)]
        # (what follows must not complete it)
        form = [['PROTO', 'P', '[', 'field', t, 'x'] + new + [']', '{', 'Group', '{', '}', '}'],
                ['Script', '{', 'field', t, 'x'] + new + ['}'],
                ['PROTO', 'P', '[', 'exposedField', t, 'x'] + new + ['field', 'SFBool', 'y', 'TRUE', ']', '{', '}', 'P', '{', '}']][which % 3]
        if which % 3 == 2 and new == []:
            return None
        return form, 'a wrong default for %s: %s' % (t, ' '.join(new))
    if kind == 6:
        t = DECL_TYPES[k % len(DECL_TYPES)]
        d = {'SFBool': 'TRUE', 'SFInt32': '1', 'SFFloat': '1', 'SFTime': '1', 'SFString': '"a"', 'SFColor': '1 0 0', 'SFVec2f': '1 2', 'SFVec3f': '1 2 3', 'SFRotation': '0 1 0 1',
             'SFNode': 'NULL', 'SFImage': '0 0 0'}.get(t, '[ ]').split(' ')
        w = wrong_values(t)
        new = w[k // 7 % len(w)]
        return ['PROTO', 'P', '[', 'field', t, 'x'] + d + [']', '{', 'Group', '{', '}', '}', 'P', '{', 'x'] + new + ['}'], 'a wrong value for declared %s: %s' % (t, ' '.join(new))
    if kind == 7:
        # an undeclared field of an instance
        return ['PROTO', 'P', '[', 'field', 'SFFloat', 'x', '1', ']', '{', 'Group', '{', '}', '}', 'P', '{', ['y', 'X', 'children', 'xx', 'radius'][k % 5], '5', '}'], 'an undeclared field'
    if kind == 8:
        # a prototype used before, outside or without its declaration
        return [['P', '{', '}', 'PROTO', 'P', '[', ']', '{', 'Group', '{', '}', '}'],
                ['PROTO', 'P', '[', ']', '{', 'PROTO', 'Q', '[', ']', '{', 'Group', '{', '}', '}', 'Q', '{', '}', '}', 'Q', '{', '}'],
                ['PROTO', 'P', '[', ']', '{', 'Undeclared', '{', '}', '}'],
                ['PROTO', 'P', '[', ']', '{', 'P2', '{', '}', '}'],
                ['PROTO', 'P', '[', ']', '{', 'DEF', 'in', 'Group', '{', '}', '}', 'USE', 'in'],
                ['DEF', 'out', 'Group', '{', '}', 'PROTO', 'P', '[', ']', '{', 'USE', 'out', '}'],
                ['PROTO', 'P', '[', ']', '{', 'DEF', 'in', 'Group', '{', '}', '}', 'ROUTE', 'in.children', 'TO', 'in.children'],
                ['EXTERNPROTO', 'E', '[', ']', '"a"', 'E', '{', 'x', '5', '}'],
                ['EXTERNPROTO', 'E', '[', 'field', 'SFFloat', 'x', '5', ']', '"a"'],
                ['EXTERNPROTO', 'E', '[', 'field', 'SFFloat', 'x', ']', '5']][k % 10], 'an undeclared name'
    return None


GOOD = st.tuples(st.just('good'), scenes.scenes(max_nodes=5, depth=2, values=printer.SHORT), printer.LAYOUT)
BAD = st.tuples(st.just('bad'), scenes.scenes(max_nodes=7, depth=2, values=printer.SHORT), printer.LAYOUT, st.sampled_from(KINDS), st.integers(0, 5000))
BAD_DECL = st.tuples(st.just('decl'), printer.LAYOUT, st.integers(0, 7), st.integers(0, 8), st.integers(0, 3000))
STALE = st.tuples(st.just('stale'), st.integers(0, 5))


def run_bad(item, parser, rec):
    """The text of a bad item after it was refused, or None"""
    if item[0] == 'bad':
        _, model, layout, kind, k = item
        p = printer.Printer(layout, model['routes'])
        r = inject(p, p.body(model), kind, k)
        if r is None:
            return None
        tokens, what = r
        rec.label(kind)
        text = printer.frame(p, tokens) if kind not in ('truncated string', 'quote') else '#VRML V2.0 utf8\n' + p.join(tokens)
        rec.nt(len(scenes.all_nodes(model)) >= 2)
    else:
        _, layout, which, kind, k = item
        r = bad_declaration(which, kind, k)
        if r is None:
            return None
        words, what = r
        rec.label('declaration %d' % kind)
        p = printer.Printer(layout)
        text = printer.frame(p, toks(words))
        rec.nt()
    refused(text, parser, what)
    refused_x3d(text, what)
    return text


def single(item, rec):
    from vrml.vrml97.parser import buildParser
    run_bad(item, buildParser(), rec)


ALL_FIELDS = {}
for _t in TYPES_:
    for _f, (_k, _ft, _d) in sorted(spec97.NODES[_t].items()):
        if _t != 'PointSet':
            ALL_FIELDS.setdefault(_ft, []).append((_t, _f))


def wrong_field(value, rec):
    """Every wrong value for a field of every type, alone in a node, or with others around"""
    from vrml.vrml97.parser import buildParser
    ft, which, where, around, layout = value
    t, f = ALL_FIELDS[ft][which % len(ALL_FIELDS[ft])]
    wrong = wrong_values(ft)
    new = wrong[where % len(wrong)]
    before, after = [], []
    others = [g for g in sorted(spec97.NODES[t]) if g != f and spec97.NODES[t][g][1] in ('SFFloat', 'SFBool', 'SFInt32', 'MFString', 'SFNode')]
    if around and others:
        g = others[around % len(others)]
        good = {'SFFloat': ['1'], 'SFBool': ['TRUE'], 'SFInt32': ['1'], 'MFString': ['[', '"a"', ']'], 'SFNode': ['NULL']}[spec97.NODES[t][g][1]]
        if around % 2:
            before = [g] + good
        elif new:
            after = [g] + good
    words = [t, '{'] + before + [f] + new + after + ['}']
    if around % 3 == 1:
        words = ['Group', '{', 'children', '['] + words + [']', '}']
    rec.nt()
    rec.label(ft)
    p = printer.Printer(layout)
    what = 'a wrong value for %s.%s (%s): %s' % (t, f, ft, ' '.join(new))
    text = printer.frame(p, toks(words))
    refused(text, buildParser(), what)
    refused_x3d(text, what)


STALES = ['USE {0}', 'Group {{ children USE {0} }}', 'ROUTE {0}.children TO {0}.children', '{1} {{ }}', 'Group {{ children [ {1} {{ }} ] }}', 'PROTO R [ ] {{ {1} {{ }} }}']

IS_OUTSIDE = ['Sphere {{ radius IS {0} }}', 'Script {{ field SFFloat z IS {0} }}', 'Group {{ children [ Script {{ eventIn SFBool b IS {0} }} ] }}', 'Group {{ children IS {0} }}']


class X3DParser:
    """The X3D parser, given the bodies of VRML97 texts"""
    def __init__(self):
        from vrml.vrml200x.parser import buildParser
        self.parser = buildParser()

    def parse(self, text):
        ends = [k for k in (text.find('\n'), text.find('\r')) if k >= 0]
        body = text[min(ends):] if ends else ''
        head = '#X3D V3.0 utf8\nPROFILE Immersive'
        success, result, n = self.parser.parse(head + body)
        return success, result, n - len(head + body) + len(text)


def history(value, rec):
    from vrml.vrml97.parser import buildParser
    x3d, value = value
    parser = X3DParser() if x3d else buildParser()
    rec.label('X3D history', x3d)
    bad = 0
    names, protos = {'S', 'S2'}, {'P', 'Q', 'E'}
    kept = []
    for item in value:
        if item[0] == 'good':
            text, routes = printer.print_scene(item[1], item[2])
            s = scenes.parse_with(parser, text)
            snap = scenes.snapshot(s)
            d = scenes.diff(snap, scenes.expected(item[1], routes))
            check(d is None, 'after %d refused texts: parsed scene differs: %s\n%s', bad, d, text)
            names |= {n[2] for n in scenes.all_nodes(item[1]) if n[2]}
            kept.append((s, snap))
            if bad:
                rec.nt()
        elif item[0] == 'stale':
            # names of earlier texts mean nothing in later ones
            for n in sorted(names)[:6]:
                refused('#VRML V2.0 utf8\n' + STALES[item[1] % 3].format(n), parser, 'a name of an earlier text')
            for n in sorted(protos):
                refused('#VRML V2.0 utf8\n' + STALES[3 + item[1] % 3].format(n, n), parser, 'a prototype of an earlier text')
            # and there is no prototype to connect to
            for n in ('x', 'y', 'r', 'c'):
                refused('#VRML V2.0 utf8\n' + IS_OUTSIDE[item[1] % len(IS_OUTSIDE)].format(n), parser, 'IS outside of a PROTO')
        else:
            if run_bad(item, parser, rec) is not None:
                bad += 1
                if item[0] == 'bad':
                    names |= {n[2] for n in scenes.all_nodes(item[1]) if n[2]}
    # the next text with a parser of its own is not affected either
    s = scenes.parse('#VRML V2.0 utf8\nDEF A Group { } DEF S Box { size 1 2 3 }')
    d = scenes.diff(scenes.snapshot(s), scenes.expected(dict(children=[('N', 'Group', 'A', []), ('N', 'Box', 'S', [('size', (1.0, 2.0, 3.0))])], routes=[])))
    check(d is None, 'a new parser is affected: %s', d)
    for s, snap in kept:
        d = scenes.diff(scenes.snapshot(s), snap)
        check(d is None, 'a later parse changed the scene: %s', d)


def wellformed(value, rec):
    """The declarations the faults are put into are themselves accepted"""
    layout, which = value
    p = printer.Printer(layout)
    rec.nt()
    scenes.parse(printer.frame(p, toks(DECLS[which].split(' ') if which != 5 else DECLS[which].replace('javascript: x', 'js').split(' '))))


CASES = [
    Case('fault', BAD, single, 4000),
    Case('declaration', BAD_DECL, single, 3000),
    Case('value', st.tuples(st.sampled_from(sorted(ALL_FIELDS)), st.integers(0, 60), st.integers(0, 400), st.integers(0, 7), printer.LAYOUT), wrong_field, 3000),
    Case('history', st.tuples(st.booleans(), st.lists(st.one_of(GOOD, GOOD, BAD, BAD_DECL, STALE), min_size=2, max_size=5)), history, 800),
    Case('wellformed', st.tuples(printer.LAYOUT, st.integers(0, len(DECLS) - 1)), wellformed, 200),
]
