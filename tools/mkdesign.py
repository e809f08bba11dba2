"""writes DESIGN.md from the properties, the rules the checks state, and what is written here by hand"""
import glob, importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (oracle, why generated search reaches what unit tests cannot)
D = {
'C01': ('Structural isomorphism (types, tree, names, identity of shared nodes, bit-exact values, routes in order) between the scene that was built and the one that is read back. The scene is built from a model, so the comparison is with the model too, not only with what the library says of itself.',
        'Values interact with layout: rows of 33 points or 100 numbers, exponents, escapes, generated DEF names. A test fixes one value; the search varies length, value and sharing together.'),
'C02': ('The abstract scene the text was printed from; harness/printer.py shares no code with the library; defaults of unset fields come from harness/spec97.py, an independent table of the VRML97 node reference.',
        'Layout choices multiply (separator x comment x line end x number spelling x optional bracket); each text picks all of them at once.'),
'C03': ('Whatever the fault, the outcome must not be a complete successful parse. Afterwards the same parser, given a good text, must yield that text\'s model.',
        'The faults are put at any token of any generated text, in any scope, and histories mix them; state left by a refused text only shows in the next parse.'),
'C04': ('A model of each declaration (name, kind, type, default, URLs, IS pairs, body) against what the second and third parse give.',
        'Declarations nest and refer to one another; the writer has separate code for bodies, Scripts and external prototypes.'),
'C05': ('A reference model: cells joined by IS form equivalence classes, bodies are private; after every step every cell of every instance is compared.',
        'Independence and propagation are about histories over several instances, including ones made later.'),
'C06': ('An independent canonicaliser (harness/vals.py) computes the value each spelling stands for, rounded to the element type; all spellings are then compared with it, in type, shape, layout and value.',
        'About 20 ways of spelling x 33 types x values; memory layout and byte order are easily missed.'),
'C07': ('ValueError, then equality of a snapshot (values, set/unset state, notifications) taken before.',
        'The failing path has to be clean from any earlier state and by all three ways to set.'),
'C08': ('A deep value model without any sharing: after each step every field of every node must be what the model says.',
        'Aliasing shows only when a value is edited after it went through a particular way (store, default, route, copy).'),
'C09': ('The notifications the model predicts, exactly (list edits: at least one, with the list); what an observer finds in the node when told.', 'Exactly-once over histories with defaults, failing sets, silent sets, replaced lists.'),
'C10': ('A plain Python list with the same history; announcements balanced as multisets against it.', 'Slices with steps, negative indices, equal but different items and failing operations, in sequence.'),
'C11': ('A dictionary with dependency sets; every entry is compared after every step.', 'Staleness is a matter of history; identity reuse is forced by dropping and creating objects of one size.'),
'C12': ('Double-precision matrices from the formulas of the specification, elementwise error bound of 3e-5 of the product of magnitudes.', 'Corner cases of axis length, angle and scale sign, in combination, in two builds.'),
'C13': ('The double-precision product of the local matrices from current field values.', 'Cache invalidation over shared prefixes, flags, routes, dropped paths.'),
'C14': ('Differential: the same program in two processes, one per build; traces must be equal (matrices: within single precision).', 'The compiled code mirrors Python code in two places; only paired runs show divergence.'),
'C15': ('Reachability in the model\'s route graph, values converted by the model, visits of one destination counted.', 'Graph shapes (cycles, diamonds, self loops) and order of changes are unbounded.'),
'C16': ('A dictionary of names and an ownership map.', 'Renaming, giving up and taking names in sequence; adoption by every way of attaching.'),
'C17': ('Isomorphism at the copy, then deep snapshots of the side that was not edited.', 'Sharing of one mutable piece shows only when that piece is edited in place afterwards.'),
'C18': ('The eight corners of the frustum, points within it, the formula of glOrtho, inverse product, all in double precision.', 'Asymmetric parameters; two implementations.'),
'C19': ('Naive evaluation of the definition, undecided only within rounding of the limit.', 'Number of planes and points, touching cases, malformed arrays (in a subprocess where they could crash).'),
'C20': ('An independent table of CSS colours, byte arithmetic.', 'All names in any case, in lists mixed with numbers.'),
'C21': ('Plain lists from which dead items are struck.', 'Death can happen between any two operations, also during iteration.'),
'C22': ('A tree of plain lists of identities.', 'Liveness of paths and order of invalidation.'),
'C23': ('A resolver over the model\'s declarations along the method resolution order.', 'Names with set_/_changed in any position, storage names, later additions and removals.'),
'C24': ('Text equality, deep snapshot equality, equality of meaning under any option (by reading back).', 'Options x scene shape; what writing leaves behind shows only in the next writing.'),
'C25': ('A scope-chain resolver; each declaration carries a number that tells it from all others of its name.', 'Shadowing in nested scopes, in interface defaults, in values, over several scenes and parsers.'),
'C26': ('Both parsers against the model and against one another.', 'Two grammars that are separate files; any production can drift.'),
'C27': ('The name and the line at which the fault was put.', 'Line counting against every layout.'),
'C28': ('A model of handlers, listeners and values; the call log is compared in order.', 'Signatures of handlers x places they are defined x listeners that come and go.'),
'C29': ('The model the text was printed from; round trip; refusal without the types.', 'Node types are generated, so no name in the code can be special.'),
'C30': ('An independent table of zero values and element types of 41 types; round trip with the library\'s writer and with the independent printer.', 'Every type in every role (field, event, default, copy, text).'),
'C31': ('gc.get_objects() after collection: instances of the library\'s types that were made in the case must be exactly those the case still holds or reaches; sizes of the global tables are as before.', 'A leak is a matter of which operations came before the drop.'),
'C32': ('The set of declarations the part uses, from the model; the text read back alone must give these nodes.', 'Part x use (direct, in bodies, in defaults) x options.'),
'C33': ('A model of the prototypes: own name, body, location and base of each; after each step all prototypes and nodes are compared with it.', 'Which default leaks to whom depends on the order of reading, setting, deriving and instantiating.'),
'C34': ('Everything that describes itself, in scenes after random reads, deletions, events, renames and cycles, and containers whose items died, is described twice; the texts are searched for what the model knows, in order; stored values and signals are compared before and after.', 'Which descriptions fail depends on the state; no test describes anything.'),
}

HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()


def main():
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from harness import core
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    bugs = {}
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
        m = json.load(open(d + '/meta.json'))
        bugs.setdefault(m['property'], []).append((os.path.basename(d), m))
    caught = {}
    p = os.path.join(HERE, 'tools', 'caught.json')
    if os.path.exists(p):
        caught = json.load(open(p))
    out = [HEAD.rstrip(), '', '## The properties one by one', '']
    for pr in props:
        i = pr['id']
        mod = importlib.import_module('props.' + i.lower())
        oracle, why = D[i]
        out.append('### %s — %s' % (i, pr['title']))
        out.append('')
        out.append('* **Generated:** %s' % mod.RULE)
        out.append('* **Oracle:** %s' % oracle)
        out.append('* **Bounds and assumptions:** %s.' % '; '.join(getattr(mod, 'ASSUMPTIONS', []) or ['none beyond the generator\'s']))
        n = ', '.join('%s %d' % (c.name, core.budget(i, c)) for c in mod.CASES[:6]) + (', ... (%d cases in all)' % len(mod.CASES) if len(mod.CASES) > 6 else '')
        out.append('* **Cost (quick):** generated cases by kind and over all shards and both builds: %s; thorough runs up to thirty times as many.' % n if THOROUGH else '')
        out.append('* **Beyond unit tests:** %s' % why)
        if i in bugs:
            out.append('* **Planted bugs:** %s' % '; '.join('`%s`' % b + (' (caught by %s)' % ', '.join(caught[b]) if caught.get(b) else '') for b, m in bugs[i]))
        out.append('')
    out.append(TAIL.rstrip())
    text = '\n'.join(x for x in out) + '\n'
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)


THOROUGH = True
if __name__ == '__main__':
    main()
