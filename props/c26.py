"""C26 the X3D-classic parser reads a body as the VRML97 parser does"""
from hypothesis import strategies as st
from harness import scenes, protos, printer, spec97, vals
from harness.core import Case, check, Violation

RULE = ('random scenes of built-in nodes (all field types) and scenes with PROTO, EXTERNPROTO, Scripts, IS and routes, printed with random spelling of numbers and strings, separators and comments; read by the VRML97 '
        'parser under a VRML97 header and by the X3D one under an X3D header (versions, comments, PROFILE, COMPONENT, META), the interface keywords there in either spelling, declaration by declaration. Both scenes must be '
        'the described one: values, names, sharing, routes, declarations, prototype bodies and IS; also by parsers used before. Third case: broken and rearranged token sequences, where both parsers must agree whenever '
        'both accept. Non-trivial: three or more nodes or an interface.')
ASSUMPTIONS = ['no nested brackets (VRML97 parser only, not standard)', 'names are not keywords of either format']

X3D_WORDS = {'field': 'initializeOnly', 'exposedField': 'inputOutput', 'eventIn': 'inputOnly', 'eventOut': 'outputOnly'}


class X3DPrinter(protos.Printer):
    """Interface keywords in one or the other spelling"""
    spelling = [1]

    def __init__(self, layout):
        super().__init__(layout)
        self.count = 0
        self.used = set()

    def kw(self, word):
        self.count += 1
        if self.spelling[self.count % len(self.spelling)]:
            self.used.add(X3D_WORDS[word])
            return X3D_WORDS[word]
        self.used.add(word)
        return word


def header(ints):
    i = iter(list(ints) + [0] * 20)
    nl = ['\n', '\n', '\r\n', '\r'][next(i) % 4]
    out = ['#X3D V3.0 utf8', '#X3D V3.3 utf8', '#X3D 3.0 utf8', '#X3D V3.0 utf8 made by "hand" {['][next(i) % 4] + nl
    gaps = ['', '', '', ' ', nl, '# PROFILE none' + nl, '\t' + nl + '  ']
    out += gaps[next(i) % len(gaps)]
    out += 'PROFILE' + [' ', '\t', '  '][next(i) % 3] + ['Immersive', 'Interchange', 'Core', 'Full', 'MPEG-4'][next(i) % 5]
    ends = [nl, nl, ' ' + nl, ' # a comment' + nl, nl + nl]
    out += ends[next(i) % len(ends)]
    for j in range(next(i) % 3):
        out += 'COMPONENT ' + ['NURBS', 'Geo', 'H-Anim'][next(i) % 3] + [':', ' : ', ': '][next(i) % 3] + str(1 + next(i) % 4) + ends[next(i) % len(ends)]
    for j in range(next(i) % 3):
        out += 'META ' + ['"title" "x"', '"a b" "COMPONENT {"', '"" "\\"quoted\\""'][next(i) % 3] + ends[next(i) % len(ends)]
    return out


_PARSERS = {}


def read(text, x3d, used_before):
    if scenes.bytes_too(text):
        text = text.encode('utf-8')
    if not used_before:
        return scenes.parse(text, x3d)
    if x3d not in _PARSERS:
        if x3d:
            from vrml.vrml200x.parser import buildParser
        else:
            from vrml.vrml97.parser import buildParser
        _PARSERS[x3d] = buildParser()
    return scenes.parse_with(_PARSERS[x3d], text)



def split(text):
    """(header line with its end, rest)"""
    i = min([k for k in (text.find('\n'), text.find('\r')) if k >= 0])
    n = 2 if text[i:i + 2] == '\r\n' else 1
    return text[:i + n], text[i + n:]


def equal(value, rec):
    body, layout, ints, spelling, again = value
    want = protos.expected(body)
    rec.nt(repr(body).count("('N'") >= 3 or 'ield' in repr(body) or 'event' in repr(body))
    X3DPrinter.spelling = [0]
    p = X3DPrinter(layout)
    p.scene_body(body)
    text = printer.frame(p, p.out)
    X3DPrinter.spelling = spelling
    q = X3DPrinter(layout)
    q.scene_body(body)
    for w in q.used:
        rec.label(w)
    xtext = header(ints) + split(printer.frame(q, q.out))[1]
    d = protos.diff(protos.snapshot(read(text, False, again & 1)), want)
    check(d is None, 'VRML97: not the described scene: %s\n%s', d, text)
    d = protos.diff(protos.snapshot(read(xtext, True, again & 2)), want)
    check(d is None, 'X3D: not the described scene: %s\n%s', d, xtext)
    # the same body, character by character
    same = header(ints) + split(text)[1]
    d = protos.diff(protos.snapshot(read(same, True, again & 2)), want)
    check(d is None, 'X3D parser, VRML97 body: not the described scene: %s\n%s', d, same)


def plain(value, rec):
    """Scenes of built-in nodes with DEFs used again in many places"""
    model, layout, ints, again = value
    text, routes = printer.print_scene(model, layout)
    want = scenes.expected(model, routes)
    rec.nt(len(scenes.all_nodes(model)) >= 3)
    a = scenes.snapshot(read(text, False, again & 1))
    xtext = header(ints) + split(text)[1]
    b = scenes.snapshot(read(xtext, True, again & 2))
    d = scenes.diff(a, want)
    check(d is None, 'VRML97: not the described scene: %s\n%s', d, text)
    d = scenes.diff(b, want)
    check(d is None, 'X3D: not the described scene: %s\n%s', d, xtext)


def attempt(text, x3d):
    try:
        return read(text, x3d, True)
    except (Exception, Violation):
        return None


def broken(value, rec):
    """Token sequences with pieces dropped, repeated, swapped and changed"""
    body, layout, ints, edits = value
    X3DPrinter.spelling = [0]
    p = X3DPrinter(layout)
    p.scene_body(body)
    tokens = [list(t) for t in p.out]
    if not tokens:
        return
    for kind, a, b in edits:
        i, j = a % len(tokens), b % len(tokens)
        if kind == 'drop' and len(tokens) > 1:
            del tokens[i]
        elif kind == 'repeat':
            tokens.insert(i, list(tokens[j]))
        elif kind == 'swap':
            tokens[i], tokens[j] = tokens[j], tokens[i]
        elif kind == 'over':
            tokens[i] = list(tokens[j])
    # (nested brackets are an extension of one of the parsers)
    depth = opened = 0
    kinds = []
    for t in tokens:
        if t[0] in ('[', '{'):
            if t[0] == '[' and kinds and kinds[-1] == '[':
                return
            kinds.append(t[0])
        elif t[0] in (']', '}'):
            if not kinds or kinds.pop() != {']': '[', '}': '{'}[t[0]]:
                break
    text = printer.frame(p, tokens)
    xtext = header(ints) + split(text)[1]
    a, b = attempt(text, False), attempt(xtext, True)
    rec.label('both accept', a is not None and b is not None)
    rec.label('both refuse', a is None and b is None)
    rec.nt(a is not None and b is not None)
    if a is not None and b is not None:
        try:
            want = protos.snapshot(a)
        except AttributeError:
            return  # (an EXTERNPROTO without URL)
        d = protos.diff(protos.snapshot(b), want)
        check(d is None, 'the parsers differ: %s\n%s\n----\n%s', d, text, xtext)


EDIT = st.tuples(st.sampled_from(['drop', 'repeat', 'swap', 'over']), st.integers(0, 300), st.integers(0, 300))
INTS = st.lists(st.integers(0, 11), max_size=20)

CASES = [
    Case('body', st.tuples(protos.bodies(), printer.LAYOUT, INTS, st.lists(st.integers(0, 1), min_size=1, max_size=5), st.integers(0, 3)), equal, 1200),
    Case('plain', st.tuples(scenes.scenes(values=printer.SHORT, redef=True), printer.LAYOUT, INTS, st.integers(0, 3)), plain, 1200),
    Case('broken', st.tuples(protos.bodies(), printer.LAYOUT, INTS, st.lists(EDIT, min_size=1, max_size=3)), broken, 1200),
]
