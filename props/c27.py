"""C27 a refused text's error says what is wrong and on which line"""
import contextlib, io, re
from hypothesis import strategies as st
from harness import scenes, spec97, printer
from harness.core import Case, check, Violation
from props.c03 import toks, unknown_field, ALLFIELDS

RULE = ('texts of the C02 printer (any layout: CR, LF and CRLF line ends, comments, characters of any plane, strings over several lines), plain, in the body of a PROTO or as X3D-classic, get one '
        'undeclared node type, un-DEF\'d USE or ROUTE name, unknown field or value of the wrong kind; the error has to give the name and the line it is on. '
        'Non-trivial: the faulty line is not the first two.')
ASSUMPTIONS = ['lines are counted from 1 and end at CR, LF or CRLF', 'the line is that of the faulty word (of the first, if several are)',
               'faults of syntax are reported by simpleparse and not covered']

END = re.compile('\r\n|\r|\n')
KINDS = ['type', 'type', 'use', 'route', 'field', 'field', 'kind']
# a name that is not known, of characters of any kind
STRANGE = ['Undeclared', 'box', 'x', 'caf\u00e9', '\u4e2d\u6587', 'N\U0001f600', 'Group2', 'a+b', 'USEd', '_', 'Q%d%s', '<b>', '%s', 'z0', 'nofield', 'IS2', 'children9', 'DEFx', '$(1)', 'Shape_']


def fault(p, tokens, kind, k):
    """(tokens, first token of the statement, index of the faulty word, names the error has to give)"""
    tokens = [list(t) for t in tokens]
    at = lambda f: [i for i, t in enumerate(tokens) if f(t)]
    strange = STRANGE[k // 7 % len(STRANGE)]
    if kind == 'type':
        i = at(lambda t: t[2] == 'type')
        if not i:
            return None
        i = i[k % len(i)]
        tokens[i][0] = strange
        first = i - 2 if i >= 2 and tokens[i - 2][0] == 'DEF' and tokens[i - 2][1] == 'word' and tokens[i - 1][1] == 'word' and tokens[i - 2][2] == '' else i
        return tokens, first, i, [strange]
    if kind == 'use':
        i = at(lambda t: t[2] == 'use')
        if not i or strange in p.defs:
            return None
        i = i[k % len(i)]
        tokens[i][0] = strange
        return tokens, i - 1, i, [strange]
    if kind == 'route':
        i = at(lambda t: t[2] == 'route end')
        if not i or strange in p.defs:
            return None
        i = i[k % len(i)]
        tokens[i][0] = strange + tokens[i][0][tokens[i][0].index('.'):]
        first = i - 1 if tokens[i - 1][0] == 'ROUTE' else i - 3
        return tokens, first, i, [strange]
    if kind == 'field':
        i = at(lambda t: t[2] == 'field')
        if not i:
            return None
        i = i[k % len(i)]
        t = tokens[i][3]
        tokens[i][0] = strange if k % 3 else unknown_field(t, k // 7)
        if tokens[i][0] in ('name', 'x') and k % 3 == 0:
            tokens[i][0] = 'nofield'
        return tokens, i, i, [tokens[i][0], t]
    # a value of the wrong kind for a boolean, string or node field
    spans = [(ft, a, b) for ft, a, b in p.spans if ft in ('SFBool', 'SFString', 'MFString', 'SFNode', 'MFNode')]
    if not spans:
        return None
    ft, a, b = spans[k % len(spans)]
    wrong = [['5'], ['"a"'], ['TRUE'], ['5', '6'], ['[', '5', ']'], ['"a"', '"b"'], ['[', '0x1', ']']]
    ok = {'SFBool': ['TRUE'], 'SFString': ['"a"'], 'MFString': ['"a"'], 'SFNode': [], 'MFNode': []}[ft]
    w = [x for x in wrong if not (set(x) - {'[', ']'} <= set(ok) | ({'"b"'} if ft == 'MFString' else set()))]
    if ft == 'SFString':
        w = [x for x in w if x != ['"a"', '"b"']]
    w = w[k // 7 % len(w)]
    return tokens[:a] + toks(w) + tokens[b:], a - 1, a + (w[0] == '['), [ft]


def line(text, offset):
    return len(END.findall(text[:offset])) + 1


def located(value, rec):
    from vrml.vrml97.parser import buildParser
    from vrml.vrml200x import parser as x3d
    model, layout, kind, k, form = value
    p = printer.Printer(layout, model['routes'])
    r = fault(p, p.body(model), kind, k)
    if r is None:
        return
    tokens, first, i, names = r
    if form == 1:
        # in the body of a prototype (whose names are its own)
        head = toks(['PROTO', 'P', '[', 'field', 'SFString', 's', '"x\ny\r\nz"', ']', '{'])
        tokens = head + tokens + toks(['}'])
        first, i = first + len(head), i + len(head)
    text = printer.frame(p, tokens)
    a = b = len(p.head)
    if form == 2:
        if '.' in ''.join(n for n in names):
            return
        head = '#X3D V3.0 utf8\nPROFILE Immersive\n\n'
        text = head + text[len(p.head):]
        a = b = len(head)
    a += p.offset(first)
    b += p.offset(i)
    rec.label(kind)
    rec.label(['scene', 'prototype', 'X3D'][form])
    lo, hi = line(text, a), line(text, b)
    rec.nt(hi > 2)
    parser = x3d.buildParser() if form == 2 else buildParser()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            parser.parse(text.encode('utf-8') if scenes.bytes_too(text) else text)
    except Violation:
        raise
    except Exception as err:
        message = str(err)
    else:
        raise Violation('accepted:\n%s' % text)
    for n in names:
        check(n in message, 'the error does not name %r: %s\n%s', n, message, text)
        message = message.replace(n, ' ', 1)
    numbers = [int(x) for x in re.findall(r'line\D{0,3}(\d+)', message)]
    check(len(numbers) == 1 and numbers[0] == hi, 'the error is on line %d..%d: %s\n%s', lo, hi, message, text)


CASES = [
    Case('located', st.tuples(scenes.scenes(max_nodes=7, depth=2, values=printer.SHORT), printer.LAYOUT, st.sampled_from(KINDS), st.integers(0, 5000), st.sampled_from([0, 0, 0, 1, 2])),
         located, 4000),
]
