"""Prints scene models as VRML97 text in any layout the standard allows (independent of the library)

A layout is a list of small integers that every choice is taken from in turn, so that
it is plain data, and all zeros is the plain layout.
"""
import math
from hypothesis import strategies as st
from harness import vals, spec97

LAYOUT = st.one_of(st.just([0]), st.lists(st.integers(0, 255), min_size=1, max_size=40))
SEPS = [' ', '\n', '\t', ', ', ',', '  \n\t', '\r\n', '\r', ' # comment\n', '# to the end\r', '#\r\t', '#}{"][\n', ',,', ',\n#, DEF x Box {}\r#\n ', '#caf\u00e9 \u4e2d"\r\n', '\n\n', ' #\n', '# ROUTE a.b TO c.d # \n']


IMAGE = st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(0, 4), st.lists(vals.UINT32, min_size=1, max_size=3)).map(
    lambda a: [a[0], a[1], a[2]] + [(a[3][i % len(a[3])] + i) % 256 ** max(1, a[2]) for i in range(a[0] * a[1])])
# (an empty SFImage cannot be written)
VALUES, SHORT = dict(vals.VALUES, SFImage=IMAGE), dict(vals.SHORT, SFImage=IMAGE)


class Layout:
    def __init__(self, ints):
        self.ints, self.pos = ints or [0], 0

    def pick(self, n):
        k = self.ints[self.pos % len(self.ints)]
        # cycles of the list give different choices
        k = (k + (self.pos // len(self.ints)) * 7) if k else 0
        self.pos += 1
        return k % n


def number_f(x, lay):
    """A spelling of float x that reads back exactly"""
    if x != x or math.isinf(x):
        raise ValueError(x)
    s = repr(x)
    k = lay.pick(12)
    sign, mag = ('-', s[1:]) if s.startswith('-') else ('', s)
    if k == 1 and mag.endswith('.0'):
        mag = mag[:-2]
    elif k == 2 and mag.endswith('.0'):
        mag = mag[:-1]
    elif k == 3 and mag.startswith('0.'):
        mag = mag[1:]
    elif k == 4:
        sign = sign or '+'
    elif k == 5:
        mag = '%.16e' % abs(x)
    elif k == 6:
        mag = ('%.16E' % abs(x)).replace('E+0', 'E') if abs(x) >= 1 else ('%.16E' % abs(x))
    elif k == 7 and 'e' not in mag:
        mag = '00' + mag
    elif k == 8 and 'e' not in mag and '.' in mag:
        mag = mag + '000'
    elif k == 9 and x == int(x) and abs(x) < 1e15 and x:
        # 1200 -> 1.2e3, 12e2
        d = '%d' % abs(x)
        mag = d[0] + '.' + d[1:] + 'e%d' % (len(d) - 1)
    elif k == 10 and mag.endswith('.0'):
        mag = mag[:-2] + 'e0'
    elif k == 11 and 'e' in mag:
        mag = mag.replace('e', 'E')
    return sign + mag


def number_i(x, lay):
    sign = '-' if x < 0 else ''
    k = lay.pick(8)
    if k == 1:
        return sign + '0x%x' % abs(x)
    if k == 2:
        return sign + '0X%X' % abs(x)
    if k == 3:
        return (sign or '+') + '%d' % abs(x)
    if k == 4:
        return sign + '00%d' % abs(x)
    if k == 5:
        return sign + '0x%08X' % abs(x)
    return '%d' % x


def string(s, lay=None):
    if lay is not None and '\\' in s:
        # a backslash before anything else than a quote or a backslash stands for itself
        out = ''
        for i, c in enumerate(s):
            alone = c == '\\' and i + 1 < len(s) and s[i + 1] not in '"\\' and lay.pick(2) == 1
            out += '\\' + c if c in '"\\' and not alone else c
        return '"' + out + '"'
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


class Printer:
    def __init__(self, layout, routes=()):
        self.lay = Layout(layout)
        self.out = []
        self.defs = {}       # name -> (DEF ordinal, node type) known so far
        self.ordinal = 0
        self.pending = list(routes)
        self.routes = []
        self.depth = 0
        self.spans = []      # (type, first, last + 1) of the tokens of every value
        self.ends = []       # where top-level statements end

    # tokens: [text, kind, tag, data]
    def token(self, text, kind, tag='', data=None):
        self.out.append([text, kind, tag, data])

    def join(self, tokens):
        """The text of the tokens, with separators where needed and elsewhere"""
        out, last = [], None
        lay = self.lay
        self.places = []     # index into out of every token
        for text, kind, tag, data in tokens:
            if out:
                must = last in ('word', 'string') and kind == last
                # comments and separators go between any two tokens
                if lay.pick(3) != 2 or must:
                    out.append(SEPS[lay.pick(len(SEPS))])
                    if lay.pick(5) == 4:
                        out.append(SEPS[lay.pick(len(SEPS))])
            self.places.append(len(out))
            out.append(text)
            last = kind
        self.pieces = out
        return ''.join(out)

    def offset(self, i):
        """Where token i of the last text begins (within what join gave)"""
        return sum(map(len, self.pieces[:self.places[i]]))

    def word(self, text, tag='', data=None):
        self.token(text, 'word', tag, data)

    def punct(self, text):
        self.token(text, 'punct')

    # values
    def scalar(self, dt, v):
        if dt == 'bool':
            self.word('TRUE' if v else 'FALSE')
        elif dt in ('i', 'I'):
            self.word(number_i(v, self.lay))
        elif dt == 'str':
            self.token(string(v, self.lay), 'string')
        else:
            self.word(number_f(v, self.lay))

    def value(self, ft, v):
        if ft == 'SFNode':
            self.node(v)
            return
        if ft == 'MFNode':
            self.many([lambda c=c: self.node(c) for c in v])
            return
        kind, count, dt = vals.TYPES[ft]
        if kind == 'scalar':
            self.scalar(dt, v)
        elif kind == 'vec' or ft == 'SFImage':
            for x in v:
                self.scalar(dt, x)
        elif kind == 'list':
            self.many([lambda x=x: self.scalar(dt, x) for x in v])
        elif kind == 'array':
            def nested(x):
                if not isinstance(x, (list, tuple)):
                    return self.scalar(dt, x)
                self.punct('[')
                for y in x:
                    nested(y)
                self.punct(']')
            if len(v) == 1 and not isinstance(v[0], list) and self.lay.pick(3) == 1:
                self.scalar(dt, v[0])
            else:
                nested(v)
        else:
            def row(r):
                for x in r:
                    self.scalar(dt, x)
            self.many([lambda r=r: row(r) for r in v])

    def many(self, writers):
        bare = len(writers) == 1 and self.lay.pick(3) == 1
        if not bare:
            self.punct('[')
        for w in writers:
            w()
        if not bare:
            self.punct(']')

    # nodes
    def node(self, n):
        if n is None:
            self.word('NULL')
        elif n[0] == 'USE':
            self.word('USE')
            self.word(n[1], 'use')
        else:
            if n[2]:
                self.word('DEF')
                self.word(n[2])
                self.defs[n[2]] = (self.ordinal, n[1])
                self.ordinal += 1
            self.word(n[1], 'type')
            self.punct('{')
            self.depth += 1
            for f, v in n[3]:
                self.maybe_route()
                ft = spec97.NODES[n[1]][f][1]
                self.word(f, 'field', n[1])
                start = len(self.out)
                self.value(ft, v)
                self.spans.append((ft, start, len(self.out)))
            self.maybe_route()
            self.depth -= 1
            self.punct('}')

    def route_end(self, name, field):
        if self.lay.pick(5) != 1:
            return '%s.%s' % (name, field)
        space = ['', ' ', '\n', ' # to\n', ',\t']
        return name + space[self.lay.pick(5)] + '.' + space[self.lay.pick(5)] + field

    def maybe_route(self, at_end=False):
        """Routes may stand between top-level statements and in node bodies, after the DEFs they refer to"""
        for r in list(self.pending):
            s, sf, d, df = r
            if s in self.defs and d in self.defs and (at_end or self.lay.pick(4) == 1):
                from harness import scenes
                self.pending.remove(r)
                (so, stype), (do, dtype) = self.defs[s], self.defs[d]
                if sf not in [x for x, t in scenes.route_ends(stype)[0]] or df not in [x for x, t in scenes.route_ends(dtype)[1]]:
                    continue
                self.word('ROUTE')
                self.word(self.route_end(s, sf), 'route end')
                self.word('TO')
                self.word(self.route_end(d, df), 'route end')
                self.routes.append((so, sf, do, df))
                if not self.depth:
                    self.ends.append(len(self.out))

    def body(self, model):
        for c in model['children']:
            self.maybe_route()
            self.node(c)
            self.ends.append(len(self.out))
        self.maybe_route(True)
        return self.out


HEADERS = ['#VRML V2.0 utf8\n', '#VRML V2.0 utf8 made by hand\n', '#VRML V2.0 utf8\r\n', '#VRML V2.0 utf8\r', '#VRML V2.0 utf8\n\n# first, a comment\n',
           '#VRML V2.0 utf8 "{[#\n', '#VRML V2.0 utf8\n ,\t']
ENDS = ['', '\n', ' ', '\n\n# the end', '#', ',\r\n', '\r', '\t# x\n']


def frame(p, tokens):
    """The file of printer p with the tokens"""
    body = p.join(tokens)
    head = p.head = HEADERS[p.lay.pick(len(HEADERS))]
    return head + body + ENDS[p.lay.pick(len(ENDS))]


def print_scene(model, layout):
    """(text, routes as DEF ordinals in the order of the text)"""
    p = Printer(layout, model['routes'])
    return frame(p, p.body(model)), p.routes
