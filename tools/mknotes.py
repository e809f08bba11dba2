import json, os
N = {}
def n(i, tech, note): N[i] = [tech, note]
n('C01', 'property-based testing (Hypothesis): round-trip write -> parse of generated scene graphs', 'Exploration by generated scenes (up to 12 nodes, all built-in types and field types, sharing, routes) in both build configurations; nothing is proved beyond the cases run.')
n('C02', 'property-based testing (Hypothesis): abstract scenes printed by an independent printer with generated layout, compared with the model', 'Exploration by generated texts; defaults come from an independent table of the VRML97 specification.')
n('C03', 'property-based testing (Hypothesis): single-fault mutation of well-formed texts and histories of parses with one parser', 'Exploration by generated faults of listed kinds; after each the parser must still read a good text to the model scene.')
n('C04', 'property-based testing (Hypothesis): round-trip of generated PROTO/EXTERNPROTO/Script declarations', 'Exploration by generated declarations over the 20 VRML97 field types.')
n('C05', 'model-based testing (Hypothesis): histories of writes to prototype instances against a model of the IS connections', 'Exploration by generated declarations and histories, prototypes nested up to three deep.')
n('C06', 'property-based testing (Hypothesis): every accepted spelling of generated values against an independent canonicaliser', 'Exploration by generated values of 33 field types.')
n('C07', 'property-based testing (Hypothesis): generated refused values with state and notification snapshots', 'Exploration by generated values and prior states of 33 field types and the node types.')
n('C08', 'model-based testing (Hypothesis): histories of stores and in-place edits against a model without sharing', 'Exploration by generated histories of up to 14 operations over up to 4 nodes.')
n('C09', 'model-based testing (Hypothesis): histories with predicted notifications', 'Exploration by generated histories of up to 16 operations over up to 3 nodes.')
n('C10', 'model-based testing (Hypothesis): list histories against a plain list, multiset balance of announcements', 'Exploration by generated histories of up to 25 operations over up to 3 lists.')
n('C11', 'model-based testing (Hypothesis): cache histories against a dictionary with dependency sets', 'Exploration by generated histories; identity reuse is forced by destroying and recreating objects.')
n('C12', 'property-based testing (Hypothesis): numeric differential against double precision matrices from the specification', 'Exploration by generated parameters; agreement within a single-precision error bound.')
n('C13', 'model-based testing (Hypothesis): edit/query histories, matrices recomputed from the current field values', 'Exploration by generated histories of up to 18 operations over up to 5 transforms and 5 paths.')
n('C14', 'differential testing (Hypothesis): generated programs run under both builds in two processes', 'Exploration by generated programs of up to 30 operations.')
n('C15', 'model-based testing (Hypothesis): generated route graphs and changes against a reachability model', 'Exploration by generated route graphs of up to 10 routes over up to 5 nodes.')
n('C16', 'model-based testing (Hypothesis): registration and attachment histories against a dictionary and ownership model', 'Exploration by generated histories.')
n('C17', 'property-based testing (Hypothesis): isomorphism of copies and independence under generated edits', 'Exploration by generated scenes and edits on either side.')
n('C18', 'property-based testing (Hypothesis): frustum corners and glOrtho formula in double precision', 'Exploration by generated parameters; agreement within a single-precision error bound.')
n('C19', 'property-based testing (Hypothesis): differential against a direct evaluation of the definition', 'Exploration by generated planes and points; only the accelerated build has this function. Results within rounding of the limit are left undecided.')
n('C20', 'property-based testing (Hypothesis): generated names, hex texts and mixed lists against an independent CSS table', 'Exploration by generated spellings; every CSS name is covered in every run.')
n('C21', 'model-based testing (Hypothesis): container histories with deaths of items against a list of the live items', 'Exploration by generated histories.')
n('C22', 'model-based testing (Hypothesis): path histories against lists of identities', 'Exploration by generated histories.')
n('C23', 'model-based testing (Hypothesis): generated class hierarchies and name lookups against a model resolver', 'Exploration by generated hierarchies and histories.')
n('C24', 'property-based testing (Hypothesis): repeatability, snapshots and metamorphic comparison of formatting options', 'Exploration by generated scenes and options.')
n('C25', 'property-based testing (Hypothesis): generated nested declarations against a scope-chain resolver', 'Exploration by generated texts, parsed one after another by the same and by new parsers.')
n('C26', 'differential testing (Hypothesis): generated bodies through both parsers', 'Exploration by generated bodies.')
json.dump(N, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'notes.json'), 'w'), indent=1)
