"""C20 colour names and hex colours give the colour they denote"""
import numpy as np
from hypothesis import strategies as st
from harness.vals import f32
from harness.core import Case, check

RULE = ('names: each CSS name the library had at the pinned commit, in random letter case, against an independent table of the CSS specification; hex: random #rrggbb in random letter case; '
        'stored by assignment, constructor, set and coerce in SFColor fields and, singly or in lists mixed with runs of three numbers, in MFColor fields, in histories of up to 6 stores '
        'with in-place edits between. refused: near-misses of names, # with other characters, incomplete runs. Non-trivial: a name in mixed case, a list of at least two kinds of item, or '
        'a refused text that differs from an accepted one in one place.')
ASSUMPTIONS = ['names give the byte values of the CSS table within 1/8 of a byte step (the table is kept to four digits)',
               '# with another number of hexadecimal digits than six, and lists of numbers as text, are not decided here']

# (CSS Color Module Level 3; written down independently of the library)
CSS = dict(x.split(':') for x in '''aliceblue:f0f8ff antiquewhite:faebd7 aqua:00ffff aquamarine:7fffd4 azure:f0ffff beige:f5f5dc bisque:ffe4c4 black:000000
blanchedalmond:ffebcd blue:0000ff blueviolet:8a2be2 brown:a52a2a burlywood:deb887 cadetblue:5f9ea0 chartreuse:7fff00 chocolate:d2691e coral:ff7f50
cornflowerblue:6495ed cornsilk:fff8dc crimson:dc143c cyan:00ffff darkblue:00008b darkcyan:008b8b darkgoldenrod:b8860b darkgray:a9a9a9 darkgreen:006400
darkgrey:a9a9a9 darkkhaki:bdb76b darkmagenta:8b008b darkolivegreen:556b2f darkorange:ff8c00 darkorchid:9932cc darkred:8b0000 darksalmon:e9967a
darkseagreen:8fbc8f darkslateblue:483d8b darkslategray:2f4f4f darkslategrey:2f4f4f darkturquoise:00ced1 darkviolet:9400d3 deeppink:ff1493
deepskyblue:00bfff dimgray:696969 dimgrey:696969 dodgerblue:1e90ff firebrick:b22222 floralwhite:fffaf0 forestgreen:228b22 fuchsia:ff00ff
gainsboro:dcdcdc ghostwhite:f8f8ff gold:ffd700 goldenrod:daa520 gray:808080 grey:808080 green:008000 greenyellow:adff2f honeydew:f0fff0
hotpink:ff69b4 indianred:cd5c5c indigo:4b0082 ivory:fffff0 khaki:f0e68c lavender:e6e6fa lavenderblush:fff0f5 lawngreen:7cfc00 lemonchiffon:fffacd
lightblue:add8e6 lightcoral:f08080 lightcyan:e0ffff lightgoldenrodyellow:fafad2 lightgray:d3d3d3 lightgreen:90ee90 lightgrey:d3d3d3 lightpink:ffb6c1
lightsalmon:ffa07a lightseagreen:20b2aa lightskyblue:87cefa lightslategray:778899 lightslategrey:778899 lightsteelblue:b0c4de lightyellow:ffffe0
lime:00ff00 limegreen:32cd32 linen:faf0e6 magenta:ff00ff maroon:800000 mediumaquamarine:66cdaa mediumblue:0000cd mediumorchid:ba55d3
mediumpurple:9370db mediumseagreen:3cb371 mediumslateblue:7b68ee mediumspringgreen:00fa9a mediumturquoise:48d1cc mediumvioletred:c71585
midnightblue:191970 mintcream:f5fffa mistyrose:ffe4e1 moccasin:ffe4b5 navajowhite:ffdead navy:000080 oldlace:fdf5e6 olive:808000 olivedrab:6b8e23
orange:ffa500 orangered:ff4500 orchid:da70d6 palegoldenrod:eee8aa palegreen:98fb98 paleturquoise:afeeee palevioletred:db7093 papayawhip:ffefd5
peachpuff:ffdab9 peru:cd853f pink:ffc0cb plum:dda0dd powderblue:b0e0e6 purple:800080 rebeccapurple:663399 red:ff0000 rosybrown:bc8f8f royalblue:4169e1
saddlebrown:8b4513 salmon:fa8072 sandybrown:f4a460 seagreen:2e8b57 seashell:fff5ee sienna:a0522d silver:c0c0c0 skyblue:87ceeb slateblue:6a5acd
slategray:708090 slategrey:708090 snow:fffafa springgreen:00ff7f steelblue:4682b4 tan:d2b48c teal:008080 thistle:d8bfd8 tomato:ff6347
turquoise:40e0d0 violet:ee82ee wheat:f5deb3 white:ffffff whitesmoke:f5f5f5 yellow:ffff00 yellowgreen:9acd32 transparent:- currentcolor:-'''.split())
CSS = {k: None if v == '-' else tuple(int(v[i:i + 2], 16) for i in (0, 2, 4)) for k, v in CSS.items()}
# the ones the library did not know at the pinned commit
ABSENT = {'darkgrey', 'darkslategrey', 'dimgrey', 'grey', 'lightgray', 'lightslategrey', 'slategrey', 'rebeccapurple', 'transparent', 'currentcolor'}
KNOWN = sorted(set(CSS) - ABSENT)


def cased(name, bits):
    return ''.join(c.upper() if (bits >> (i % 30)) & 1 else c for i, c in enumerate(name))


def near(got, want, slack):
    got = np.asarray(got, 'd')
    return got.shape == (3,) and all(abs(g - w) <= slack for g, w in zip(got, want)) and got.min() >= 0 and got.max() <= 1


def item(x):
    """(what is put in the list, the colour meant, how exactly)"""
    kind = x[0]
    if kind == 'name':
        return [cased(x[1], x[2])], [b / 255.0 for b in CSS[x[1]]], 0.5 / 255 / 4
    if kind == 'hex':
        return [cased('#%02x%02x%02x' % x[1], x[2])], [b / 255.0 for b in x[1]], 1e-7
    return [[float, np.float64, np.float32, lambda v: int(v) if v == int(v) else v][(x[2] + i) % 4](v) for i, v in enumerate(x[1])], [min(max(v, 0.0), 1.0) for v in x[1]], 1e-7


def stores(value, rec):
    from vrml.vrml97 import basenodes
    node, lnode = basenodes.Material(), basenodes.Color()
    for x, how, field in value:
        if x[0] != 'list':
            put, want, slack = item(x)
            spelled = put[0] if x[0] != 'nums' else put
            rec.nt(x[0] == 'hex' or (x[0] == 'name' and spelled not in (x[1], x[1].upper())))
            rec.label(x[0])
            field = ['diffuseColor', 'emissiveColor', 'specularColor'][field % 3]
            if how % 4 == 0:
                setattr(node, field, spelled)
                got = getattr(node, field)
            elif how % 4 == 1:
                node = basenodes.Material(**{field: spelled})
                got = getattr(node, field)
            elif how % 4 == 2:
                from vrml import protofunctions
                protofunctions.getField(node, field).fset(node, spelled)
                got = getattr(node, field)
            else:
                from vrml import protofunctions
                got = protofunctions.getField(node, field).coerce(spelled)
            check(near(got, want, slack), 'SFColor %r gives %r, not %r', spelled, got, want)
            if x[0] != 'nums':
                from vrml import csscolors
                again = '#%02x%02x%02x' % tuple(csscolors.toInt(c) for c in got)
                back = basenodes.Material(diffuseColor=again).diffuseColor
                meant = tuple(round(w * 255) for w in want)
                check(again == '#%02x%02x%02x' % meant and near(back, [b / 255.0 for b in meant], 1e-7), 'colour %r is %s as text, which gives %r', spelled, again, back)
            try:
                got[how % 3] = 0.25
            except TypeError:
                pass
            continue
        put, want = [], []
        for y in x[1]:
            p, w, slack = item(y)
            put += p
            want.append((w, slack))
        single = len(put) == 1 and how & 1
        rec.nt(len(set(y[0] for y in x[1])) > 1)
        rec.label('list of %s' % ','.join(sorted(set(y[0] for y in x[1]))))
        spelled = put[0] if single and isinstance(put[0], str) else tuple(put) if how & 2 else list(put)
        before = repr(spelled)
        if how % 3 == 0:
            lnode = basenodes.Color(color=spelled)
            got = lnode.color
        elif how % 3 == 1:
            lnode.color = spelled
            got = lnode.color
        else:
            from vrml import protofunctions
            got = protofunctions.getField(lnode, 'color').coerce(spelled)
        check(repr(spelled) == before, 'the list %s was changed', before)
        check(len(got) == len(want), 'MFColor %s gives %r', before, got)
        for g, (w, slack) in zip(got, want):
            check(near(g, w, slack), 'MFColor %s gives %r, not %r', before, got, w)
        if len(got):
            got[how % len(got)][how % 3] = 0.25


def allnames(value, rec):
    """Every name, the table itself (also names added since)"""
    from vrml import csscolors
    from vrml.vrml97 import basenodes
    rec.nt()
    for name in KNOWN:
        check(near(basenodes.Material(diffuseColor=cased(name, value)).diffuseColor, [b / 255.0 for b in CSS[name]], 0.5 / 255 / 4), '%s gives %r', name, basenodes.Material(diffuseColor=name).diffuseColor)


def roundtrip(value, rec):
    """any colour -> #rrggbb -> colour, at 8 bits"""
    from vrml import csscolors
    from vrml.vrml97 import basenodes
    rec.nt(any(c not in (0, 1) for c in value))
    colour = basenodes.Material(diffuseColor=list(value)).diffuseColor
    text = '#%02x%02x%02x' % tuple(csscolors.toInt(c) for c in colour)
    check(len(text) == 7, 'colour %r as text is %s', colour, text)
    back = basenodes.Material(diffuseColor=text).diffuseColor
    for a, b in zip(colour, back):
        check(abs(float(a) - float(b)) <= 0.5 / 255 + 1e-6, 'colour %r as text is %s, which gives %r', colour, text, back)
    check('#%02x%02x%02x' % tuple(csscolors.toInt(c) for c in back) == text, '%s comes back as %r', text, back)


def texts(value):
    kind, name, pos, ch, rgb, bits = value
    hexes = '#%02x%02x%02x' % rgb
    if kind == 'insert':
        return name[:pos % (len(name) + 1)] + ch + name[pos % (len(name) + 1):]
    if kind == 'drop':
        return name[:pos % len(name)] + name[pos % len(name) + 1:]
    if kind == 'change':
        return name[:pos % len(name)] + ch + name[pos % len(name) + 1:]
    if kind == 'swapname':
        return name + KNOWN[pos % len(KNOWN)]
    if kind == 'hexchange':
        i = 1 + pos % 6
        return hexes[:i] + ch + hexes[i + 1:]
    if kind == 'hexinsert':
        i = 1 + pos % 7
        return hexes[:i] + ch + hexes[i:]
    if kind == 'prefix':
        return '#' + ['0x', '0X', '-', '+', ' ', '\t', '#', '\n'][pos % 8] + hexes[1 + 2 * (pos & 1):]
    if kind == 'nohash':
        # (a text without # can only be a name)
        return hexes[1:]
    if kind == 'hash':
        return ['#', '', ' ', '#\n', '#' + name, name + '#', ' ' + name, name + '\n', hexes + '\n', hexes + ' ', ' ' + hexes, 'rgb(%d,%d,%d)' % rgb, '%d,%d' % rgb[:2]][pos % 13]
    return ch


HEXDIGITS = set('0123456789abcdefABCDEF')


def refused(value, rec):
    from vrml.vrml97 import basenodes
    text = cased(texts(value[:6]), value[5])
    low = ''.join(c.lower() if c.isascii() else c for c in text)
    if low in CSS or any(ord(c) in (0x212a, 0x130) for c in text):
        return
    if text[:1] == '#' and len(text) > 1 and set(text[1:]) <= HEXDIGITS:
        return
    rec.nt(value[0] != 'other')
    rec.label(value[0])
    node = basenodes.Material(diffuseColor='tan')
    before = node.diffuseColor.tolist()
    mix = value[6]
    numeric = True
    try:
        np.array(text.translate({44: ' ', 91: ' ', 93: ' '}).split(), 'd')
    except ValueError:
        numeric = False
    except OverflowError:
        pass
    for how in (0, 1, 2):
        try:
            if how == 0:
                node.diffuseColor = text
            elif how == 1:
                basenodes.Material(diffuseColor=text)
            else:
                if numeric:
                    continue
                x = [text, [text], ['red', text], [text, 1, 0, 0], [0, 0, 1, text, 'blue'], [0, 0.5, text], [1, text, 0]][mix]
                c = basenodes.Color(color=['tan'])
                try:
                    c.color = x
                finally:
                    check(len(c.color) == 1 and near(c.color[0], [0xd2 / 255., 0xb4 / 255., 0x8c / 255.], 1e-3), 'refused, but now %r', c.color)
        except ValueError:
            pass
        else:
            check(False, '%r was accepted as %s, giving %r', text if how < 2 else x, ['SFColor', 'SFColor', 'MFColor'][how], node.diffuseColor if how < 2 else c.color)
    check(node.diffuseColor.tolist() == before, 'refused, but now %r', node.diffuseColor)


def runs(value, rec):
    """Runs of other lengths than multiples of three between names"""
    from vrml.vrml97 import basenodes
    flat = []
    bad = False
    for n, name in value:
        flat += [0.5] * n
        if n % 3:
            bad = True
        if name:
            flat.append(name)
    if not bad or not any(isinstance(x, str) for x in flat):
        return
    rec.nt()
    try:
        c = basenodes.Color(color=flat)
    except ValueError:
        return
    # (a run broken by nothing is one run)
    groups, run = [], 0
    for x in flat + ['end']:
        if isinstance(x, str):
            groups.append(run)
            run = 0
        else:
            run += 1
    check(all(g % 3 == 0 for g in groups), '%r was accepted, giving %r', flat, c.color)


NAME = st.tuples(st.just('name'), st.sampled_from(KNOWN), st.one_of(st.just(0), st.just(2 ** 30 - 1), st.just(1), st.integers(0, 2 ** 30 - 1)))
BYTE = st.one_of(st.integers(0, 255), st.sampled_from([0, 255, 128, 127, 1, 254, 16, 15]))
RGB = st.tuples(BYTE, BYTE, BYTE)
HEX = st.tuples(st.just('hex'), RGB, st.one_of(st.just(0), st.integers(0, 2 ** 30 - 1)))
COMP = st.one_of(st.floats(0, 1).map(f32), st.sampled_from([0.0, 1.0, 0.5]), st.floats(-3, 3).map(f32))
NUMS = st.tuples(st.just('nums'), st.tuples(COMP, COMP, COMP), st.integers(0, 3))
LIST = st.tuples(st.just('list'), st.lists(st.one_of(NAME, HEX, NUMS), min_size=1, max_size=8).filter(lambda l: any(x[0] != 'nums' for x in l)))
CH = st.one_of(st.sampled_from(list('gGzxyhO_-+. ,#\t\n\0aAeE09') + ['\u0661', '\uff11', '\u00e9', '\u0131']), st.characters(exclude_categories=['Cs']))
KIND = ['insert', 'drop', 'change', 'swapname', 'hexchange', 'hexchange', 'hexinsert', 'prefix', 'nohash', 'hash', 'other']
CASES = [
    Case('names', st.integers(0, 2 ** 30 - 1), allnames, 24),
    Case('stores', st.lists(st.tuples(st.one_of(NAME, HEX, LIST, LIST, NUMS), st.integers(0, 11), st.integers(0, 2)), min_size=1, max_size=6), stores, 5000),
    Case('roundtrip', st.tuples(*[st.one_of(st.floats(0, 1), st.integers(0, 255).map(lambda x: x / 255.), st.integers(0, 254).map(lambda x: (x + 0.5) / 255.))] * 3), roundtrip, 3000),
    Case('refused', st.tuples(st.sampled_from(KIND), st.sampled_from(KNOWN), st.integers(0, 200), CH, RGB, st.one_of(st.just(0), st.integers(0, 2 ** 30 - 1)), st.integers(0, 6)).map(
        lambda x: x if x[0] != 'other' else x), refused, 6000),
    Case('runs', st.lists(st.tuples(st.integers(0, 7), st.sampled_from(['red', '#00ff00', '', 'tan'])), min_size=1, max_size=4), runs, 2000),
]
