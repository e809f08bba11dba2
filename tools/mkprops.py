"""Writes /verif/properties.jsonl (kept in git so that the list can be edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Writing a scene as VRML97 and reading it back gives the same scene",
 "For every scene graph of built-in VRML97 nodes with legal DEF names and finite numbers, the text the library writes for it is accepted by the library's own VRML97 parser and yields an equal scene: the same node types in the same tree, the same DEF names, the same value in every field (empty and long lists, any text), and the same routes in the same order. A DEF-named node that was used in several places is again one shared node. The same holds for writing a single node or a list of nodes.",
 ["inputs"], "all scenes of built-in nodes x all field values x sharing patterns x route sets",
 "Tests write two fixture files and compare nothing after re-reading; the guarantee quantifies over every field type, value and sharing pattern.",
 ["vrml/vrml97/linearise.py", "vrml/fieldtypes.py", "vrml/vrml97/parser.py", "vrml/vrml97/parseprocessor.py", "vrml/vrml97/basenodes.py"],
 [("Lineariser", "vrml/vrml97/linearise.py"), ("per-type text form of values", "vrml/fieldtypes.py vrmlstr methods"), ("grammar and post-processor", "vrml/vrml97/parser.py, parseprocessor.py")],
 ["Node.toString / linearise.linearise output", "parsed scene.children, scene.routes, scene.getDEF"])

prop("C02", "Parsing VRML97 text builds exactly the scene the text describes",
 "For every well-formed VRML97 text, however it is laid out (spaces, tabs, line breaks, commas, comments, optional brackets around single multi-value entries, attribute order, decimal/hex/exponent number spellings) and whether it is given as a str or as its UTF-8 bytes, parsing succeeds and the resulting scene holds exactly the described nodes, field values, DEF/USE sharing and routes. Fields the text leaves out have the default value the VRML97 specification gives for that node type.",
 ["inputs"], "all well-formed texts: all node trees x all layouts and spellings",
 "The test-suite parses two fixture files and only looks that they print; layout and spelling variation is unbounded.",
 ["vrml/vrml97/parser.py", "vrml/vrml97/parseprocessor.py", "vrml/vrml97/basenodes.py", "vrml/fieldtypes.py"],
 [("grammar", "vrml/vrml97/parser.py"), ("ParseProcessor", "vrml/vrml97/parseprocessor.py"), ("node definitions and defaults", "vrml/vrml97/basenodes.py")],
 ["buildParser().parse(text)"])

prop("C03", "Invalid text is refused and never affects later parses",
 "Text that uses an undeclared node type, an un-DEF'd name in USE or ROUTE, an unknown field of a node, a value of the wrong kind for its field, or broken syntax (unbalanced braces, brackets or strings, truncation inside a construct) is never reported as a complete, successful parse: parsing raises an exception or stops short of the end of the text. A refused text leaves nothing behind: the next well-formed text given to the same parser yields exactly the scene it would have yielded in a fresh process. Both hold for the VRML97 and the X3D-classic parser, and for a text given as a str or as its UTF-8 bytes.",
 ["inputs", "histories"], "all single-fault corruptions of well-formed texts, and all sequences of good and bad texts through one parser",
 "No test feeds bad input or reuses a parser after a failure.",
 ["vrml/vrml97/parser.py", "vrml/vrml200x/parser.py", "vrml/vrml97/parseprocessor.py", "vrml/vrml97/scenegraph.py"],
 [("error-on-fail grammar", "vrml/vrml97/parser.py"), ("declaration lookups raising NameError/AttributeError", "vrml/vrml97/parseprocessor.py")],
 ["exception or (success, result, consumed length) of parse"])

prop("C04", "PROTO, EXTERNPROTO and Script declarations survive being written out",
 "Writing a scene that declares prototypes, external prototypes or Scripts over the VRML97 field types (no two different prototypes of one name in different scopes) and parsing the result preserves every declaration: the name, each field and event with its kind (field/exposedField/eventIn/eventOut), type and default value, the external URL list, the body scene, and which declared field or event each body field is tied to with IS. Instances of the declared types, and Scripts, come back with equal field values. Writing the re-read scene yields the same declarations again.",
 ["inputs", "programs"], "all sets of declarations (field types, defaults, IS maps, nesting) and instances",
 "One fixture with a single PROTO is printed and never re-read.",
 ["vrml/vrml97/linearise.py", "vrml/vrml97/parseprocessor.py", "vrml/field.py", "vrml/node.py", "vrml/vrml97/script.py"],
 [("declaration writer", "vrml/vrml97/linearise.py"), ("declaration parser", "vrml/vrml97/parseprocessor.py"), ("IS map registry", "vrml/node.py")],
 ["scene.protoTypes, getFields/getSceneGraph of the prototypes", "linearise output"])

prop("C05", "PROTO instances honour their IS connections and are independent",
 "An instance of a prototype has its own private copy of the prototype's body; every body field tied with IS to a declared field starts with that field's value (the declared default, or the value given where the instance is written) and afterwards follows every change made to the instance's field, and a change made to the tied body field is seen on the instance. This holds through nested prototypes, and the rendered children of an instance are its body's nodes. Changing one instance never changes another instance of the same prototype, nor what later instances start with.",
 ["inputs", "histories"], "all prototypes with IS maps (fan-out, nested prototypes) x all histories of writes to several instances",
 "No test changes a PROTO instance after creation, or makes two of them.",
 ["vrml/node.py", "vrml/route.py", "vrml/vrml97/parseprocessor.py", "vrml/vrml97/scenegraph.py"],
 [("instantiation of the body and IS routes", "vrml/node.py"), ("IS forwarding", "vrml/route.py")],
 ["fields of the instance and of the nodes in its body scene"])

prop("C06", "A field stores one canonical value for every accepted spelling",
 "Whatever accepted form a value is given in (Python numbers, nested or flat sequences, ranges, arrays of any numeric type or layout, whitespace/comma separated text, colour names), the value read back from a field is in the field type's one canonical form (fixed Python type or array element type and shape) and equals the value described, rounded to that element type; colours are clamped to 0..1. All spellings of one value give equal stored values, and storing a value that was read back changes nothing.",
 ["inputs"], "all field types x all values x all accepted spellings",
 "One test covers one spelling of one type.",
 ["vrml/fieldtypes.py", "vrml/field.py", "vrml/csscolors.py"],
 [("coerce methods", "vrml/fieldtypes.py")], ["value read back from a node's field", "field.coerce"])

prop("C07", "A refused value raises ValueError and leaves the node untouched",
 "Setting a field to a value its type does not accept (wrong component count, non-numeric content, numbers out of range, wrong kind of object, a node where a non-node belongs or the reverse) raises ValueError, by attribute assignment, constructor argument or explicit set alike. The field keeps the value and the set/unset state it had, every other field is unchanged, and no observer is notified. Naming an unknown field in a constructor raises AttributeError.",
 ["inputs", "fault_sequences"], "all field types x all incompatible values x all prior states",
 "No test sets an invalid value.",
 ["vrml/field.py", "vrml/fieldtypes.py", "vrml/node.py", "accelerate/src/fieldaccel2.pyx"],
 [("coercion before storage", "vrml/field.py BaseField._set"), ("type checks", "vrml/fieldtypes.py, vrml/node.py")],
 ["exception type, field values, dispatcher signals"])

prop("C08", "Field values are never shared between nodes or with the caller's data",
 "After a list or array has been stored in a field, changing the caller's object afterwards does not change the field, and neither storing it nor anything done to the node changes the caller's object. Two nodes never share a mutable value: changing in place a value (default or assigned) read from one node never changes another node, the default that later nodes of that type start with, or the field's declared default.",
 ["inputs", "histories"], "all list- and array-valued field types x all accepted containers x all in-place edits and orders",
 "Aliasing only shows with a mutate-after-store history, which no test performs.",
 ["vrml/fieldtypes.py", "vrml/field.py", "vrml/arrays.py", "vrml/node.py"],
 [("copy on coerce", "vrml/fieldtypes.py"), ("fresh default per node", "vrml/field.py getDefault")],
 ["field values of several nodes after in-place edits"])

prop("C09", "Observers see every change of a watched field, exactly once",
 "An observer of a node's field receives exactly one notification, carrying the newly stored value, for every assignment to that field (also when the value is equal) and exactly one for every deletion; for a list of child nodes it receives one for every assignment and at least one, carrying the list, for every in-place edit that changes the membership (but for further copies of an item that an assigned slice held already), however the list came to be there (constructor, assignment, default). At the (last) notification of a change the node already holds its result; reading fields, silent sets, failed sets, and changes to other fields or other nodes produce no notification. Deleting a field that was set or read restores its default, and deleting one that was neither raises AttributeError.",
 ["histories"], "all histories of construct/read/assign/silent-set/delete/in-place-edit operations over several nodes and observers",
 "Tests look at events of bare lists only, never at field observers over histories.",
 ["vrml/field.py", "vrml/node.py", "vrml/olist.py", "accelerate/src/fieldaccel2.pyx"],
 [("dispatcher notifications", "vrml/field.py, fieldaccel2.pyx"), ("list change forwarding", "vrml/node.py")],
 ["receivers connected with field.watch / dispatcher.connect"])

prop("C10", "Observable lists behave as lists and announce every change in membership",
 "Under any sequence of list operations an observable list holds exactly what a plain Python list would hold and raises the same errors. For every operation the announced additions minus the announced removals equal the change in membership as multisets (except that a slice assignment need not announce further copies of an item the replaced slice held already); each announcement reaches both the list's (or its designated sender's) observers with the item, and the item's observers with the sender. At the last announcement of an operation the list holds its result, and an operation that fails announces nothing.",
 ["histories"], "all operation sequences over lists with duplicate items and shared senders",
 "Seven tests exercise one operation each on tiny lists.",
 ["vrml/olist.py"], [("event-sending list methods", "vrml/olist.py")], ["list contents, dispatcher events"])

prop("C11", "Cached data disappears when anything it depends on changes",
 "Data stored in the cache for a client and key is returned until one of its declared dependencies changes (a depended-on field is set, deleted or changed through a route; a depended-on object is destroyed; a depended-on signal is sent) and is never returned after that until stored anew. Changes to anything that was not declared leave it in place. Entries for different clients, keys and caches never affect one another, and when a client is destroyed its entries go with it, also if its identity is reused.",
 ["histories"], "all histories of store/depend/set/delete/route/destroy over several clients, keys, caches",
 "Cache invalidation is only reached indirectly by three node-path tests.",
 ["vrml/cache.py", "vrml/field.py"], [("CacheHolder dependencies", "vrml/cache.py")], ["Cache.getData, Cache.getHolder"])

prop("C12", "Transform matrices follow the VRML97 definition and invert exactly",
 "For all translation, center, rotation, scale and scaleOrientation values the forward matrix equals T*C*R*SR*S*-SR*-C of the VRML97 specification applied to row vectors (within single-precision tolerance), composed with a given parent matrix, and for non-zero scales the inverse matrix is its inverse. Rotation axes need not be normalised and whole-turn, zero and negative angles are handled. Omitted values act as their defaults, and the centre of rotation is reported as translation plus center in the parent's space.",
 ["inputs"], "all parameter tuples incl. mixed omitted ones and parent matrices",
 "Tests compare a few fixed tuples.",
 ["vrml/vrml97/transformmatrix.py", "vrml/vrml97/_transformmatrix.py", "vrml/vrml97/_transformmatrix_accel.py", "accelerate/src/tmatrixaccel.pyx", "vrml/vrml97/basenodes.py"],
 [("matrix composition", "vrml/vrml97/transformmatrix.py"), ("element matrices", "_transformmatrix.py, tmatrixaccel.pyx")],
 ["transformMatrix, itransformMatrix, transformMatrices, localMatrices, Transform.localMatrices"])

prop("C13", "A node path's matrix is always that of the current field values",
 "At any moment, for any path through a scene and any choice of translate/scale/rotate/inverse, the path's matrix equals the product of the current local matrices of the transforms on it (fields without a value have their type's default), with the parts that were switched off left out. Forward and inverse matrices of the same choice are inverse to each other. This holds after any history of announced field changes (assignment, deletion, changes arriving by route) and any order of earlier matrix queries on this or other paths.",
 ["histories"], "all scene paths x all histories of transform edits and matrix queries with all flags",
 "Tests change one field once and query once.",
 ["vrml/vrml97/nodepath.py", "vrml/vrml97/basenodes.py", "vrml/cache.py", "vrml/vrml97/transformmatrix.py"],
 [("matrix caching with field dependencies", "vrml/vrml97/nodepath.py, basenodes.py Transform.localMatrices")],
 ["NodePath.transformMatrix"])

prop("C14", "The accelerated and the pure-Python builds are indistinguishable",
 "Every program over fields, matrices and observers has the same observable outcome whether or not the compiled accelerators are installed: the same stored values, the same exceptions, the same notifications in the same order, and matrices equal within single precision.",
 ["programs", "configurations", "histories"], "all operation programs x {accelerated, pure} configurations",
 "Each test runs in both configurations but nothing compares the two beyond one matrix cross-check.",
 ["vrml/field.py", "accelerate/src/fieldaccel2.pyx", "vrml/vrml97/_transformmatrix.py", "vrml/vrml97/_transformmatrix_accel.py", "accelerate/src/tmatrixaccel.pyx"],
 [("two implementations behind one import", "vrml/field.py, vrml/vrml97/transformmatrix.py")],
 ["trace of one generated program run in both configurations"])

prop("C15", "Routes deliver every change along every path, once, and always stop",
 "Setting or deleting a field delivers the new value (the default, after a deletion), converted to the destination's type, to every field or event reachable over routes, through any chain, fan-out and cycle, including set_x / x_changed spellings of field names. Following any one route that leaves the changed field, no destination is visited twice, so propagation always ends; fields not reachable keep their values. Observers of a destination field see the routed value.",
 ["programs", "histories"], "all route graphs (chains, diamonds, cycles, self loops) x all sequences of field changes",
 "No test creates a route.",
 ["vrml/route.py", "vrml/event.py", "vrml/field.py", "vrml/vrml97/scenegraph.py"],
 [("forwarding with a visited record", "vrml/route.py, vrml/event.py")],
 ["field values and route notifications after a change"])

prop("C16", "The DEF registry and the owning scene of every node stay correct",
 "After any history of registering, re-registering and renaming objects with a scene, the scene finds each live name as the object last registered under it, the object carries its latest name, and a name an object has given up no longer finds it. A node that belongs to no scene adopts, together with its descendants, the scene of the node it is put under, by constructor, assignment or list assignment alike. A node that already belongs to a scene keeps it when it is put under a node of another scene.",
 ["histories"], "all histories of DEF registration and of attaching subtrees",
 "No test registers a DEF name or reads a node's scene.",
 ["vrml/vrml97/scenegraph.py", "vrml/node.py", "vrml/protofunctions.py"],
 [("regDefName", "vrml/vrml97/scenegraph.py"), ("root propagation", "vrml/node.py")],
 ["scene.getDEF, protofunctions.defName, protofunctions.root"])

prop("C17", "A copy equals its original and shares nothing mutable with it",
 "Copying a node or a scene gives an equal node or scene: the same types, field values, DEF names, tree shape and sharing, and routes that join the copied nodes. Editing the copy in any way (fields, in-place array or list edits, child lists, values driven through its routes) leaves the original as it was, and the reverse.",
 ["inputs", "histories"], "all node graphs with sharing and routes x all edits of either side",
 "No test copies anything.",
 ["vrml/node.py", "vrml/vrml97/scenegraph.py", "vrml/copier.py", "vrml/fieldtypes.py", "vrml/route.py"],
 [("Node.copy / copyValue", "vrml/node.py, vrml/fieldtypes.py"), ("Copier record", "vrml/copier.py")],
 ["structure and values of both graphs before and after edits"])

prop("C18", "Projection matrices map the view volume onto the clip cube",
 "For all valid field-of-view, aspect and near/far values the perspective matrix sends the points of the view volume (row vectors, after division by w) into the cube -1..1 with the eight corners of the frustum going to the eight corners of the cube, and the inverse form is its matrix inverse. The orthographic matrix is the one glOrtho defines for its six bounds.",
 ["inputs"], "all valid projection parameters",
 "One fixed example per function.",
 ["vrml/vrml97/_transformmatrix.py", "accelerate/src/tmatrixaccel.pyx"],
 [("perspectiveMatrix, orthoMatrix", "_transformmatrix.py, tmatrixaccel.pyx")], ["returned matrices"])

prop("C19", "Frustum culling never discards a volume that is partly visible",
 "Culling a set of points against a set of planes reports 'culled' exactly when some plane has every point farther than the given distance behind it, and the plane it returns is the first such plane; otherwise it reports that nothing was culled. Malformed plane or point arrays are refused.",
 ["inputs"], "all plane sets x point sets (3 or 4 columns) x distances",
 "No test calls it.",
 ["accelerate/src/frustcullaccel.pyx"], [("planeCull", "accelerate/src/frustcullaccel.pyx")], ["returned (culled, plane)"])

prop("C20", "Colour names and hex colours give the colour they denote",
 "Every CSS colour name the library knows, in any letter case, and every #rrggbb text gives the colour it denotes in a colour field, alone or, in a list of colours, mixed with runs of three numbers, with all components within 0..1. A text that is neither a known name nor # followed by hexadecimal digits (nor, for a list of colours, numbers) is refused with ValueError. A colour converted to #rrggbb and back is unchanged at 8 bits per component.",
 ["inputs"], "all names x letter cases x all 24-bit colours x mixed lists",
 "Two colours in an inline self-test that the suite does not run.",
 ["vrml/csscolors.py", "vrml/fieldtypes.py"], [("stringToColor", "vrml/csscolors.py"), ("colour coercion", "vrml/fieldtypes.py")],
 ["SFColor / MFColor field values"])

prop("C21", "Weak containers act as containers of exactly their live items",
 "Under any sequence of operations a weak list shows, in order, exactly those items put in it and not removed that are still alive, never keeps an item alive, and agrees with a plain list of those items on length, indexing, iteration, membership, counting, searching, sorting and comparison. A weak tuple agrees with the plain tuple on length, indexing, iteration, concatenation and comparison, and counts and searches by identity, while all items live; it reports itself invalid once one has died, and then raises ReferenceError rather than giving a wrong answer. A weak node path does as a weak list of its nodes, and a weak-keyed dictionary as a dictionary of its live keys.",
 ["histories"], "all operation and item-destruction sequences",
 "No test uses a weak container.",
 ["vrml/weaklist.py", "vrml/weaktuple.py", "vrml/nodepath.py", "vrml/weakkeydictfix.py"],
 [("weak references with removal callbacks", "vrml/weaklist.py, weaktuple.py")], ["container contents after destroying items"])

prop("C22", "Node paths form a sound path algebra",
 "Extending a path never alters the original and yields a path of the same kind holding the original's nodes followed by the added ones; two paths are equal exactly when they hold the same nodes in the same order, by identity; the common part of two paths is their longest shared prefix, as a path of its own. The children of a path are exactly the live paths made by extending it and its listed descendants are live paths below it, among them its children and theirs. Invalidating a path marks it and all live paths below it, at any depth, as broken, and no others.",
 ["inputs", "histories"], "all trees of paths, extensions and path destructions",
 "Two tests look at one or two extensions.",
 ["vrml/nodepath.py", "vrml/vrml97/nodepath.py"], [("NodePath", "vrml/nodepath.py, vrml/vrml97/nodepath.py")], ["path contents, iterchildren, iterdescendents, broken flags"])

prop("C23", "A prototype's fields and events are found under all their names",
 "Looking up a name on a node or prototype gives the field or event declared under it, most derived declaration first; set_x and x_changed give x where no event of that exact name exists; a field kept under another storage name is also found by that name, and a name that is no attribute of the prototype at all raises AttributeError. Listing the fields (or events) gives each visible declaration exactly once, and adding or removing a declaration is reflected at once for all instances and only for that prototype and those derived from it.",
 ["programs", "histories"], "all prototype hierarchies x add/remove histories x names",
 "No test calls the lookup functions directly.",
 ["vrml/protofunctions.py", "vrml/node.py"], [("getField / getFields", "vrml/protofunctions.py")], ["getField, getFields, addField, removeField"])

prop("C24", "Writing a scene is repeatable and changes nothing",
 "Writing the same scene twice gives the same text, and writing does not change the scene beyond giving DEF names to routed nodes that lack one: no field value or declaration changes and no notification is sent. The formatting options (indentation, separators, compact or default layout) change only the layout: whatever the options, the text describes the same scene.",
 ["inputs", "configurations"], "all scenes with declarations and routes x all formatting options",
 "Tests write each fixture once with the default options.",
 ["vrml/vrml97/linearise.py", "vrml/protofunctions.py"], [("Lineariser", "vrml/vrml97/linearise.py")], ["texts, scene snapshot and dispatcher signals before and after"])

prop("C25", "Prototype names resolve by scope",
 "A node type name in a text refers to the innermost declaration in force at that point: one declared in the same prototype body or scene first, then those of the enclosing bodies, then the built-in types. A declaration made inside a prototype body or in one scene is not visible outside it, and parsing any number of scenes never changes what a name means in a scene parsed later.",
 ["inputs", "histories"], "all nestings of declarations with shadowing names x sequences of scenes",
 "One fixture has one unshadowed PROTO.",
 ["vrml/vrml97/scenegraph.py", "vrml/vrml97/parseprocessor.py", "vrml/protonamespace.py", "vrml/vrml97/basenamespaces.py"],
 [("getProto chain", "vrml/vrml97/scenegraph.py"), ("scene stack", "vrml/vrml97/parseprocessor.py")], ["class of parsed nodes, NameError for undeclared names"])

prop("C26", "The X3D-classic parser reads a body as the VRML97 parser does",
 "A scene body in the syntax common to VRML97 and X3D classic encoding, under the header either format requires (for X3D with COMPONENT and META statements or without), gives equal scenes from the two parsers, from its str and its UTF-8 bytes alike. The X3D spellings initializeOnly, inputOutput, inputOnly and outputOnly declare the same fields and events as field, exposedField, eventIn and eventOut.",
 ["inputs", "configurations"], "all common bodies x headers x keyword spellings",
 "The X3D parser is not tested at all.",
 ["vrml/vrml200x/parser.py", "vrml/vrml97/parseprocessor.py"], [("X3D grammar", "vrml/vrml200x/parser.py")], ["scenes from both parsers"])

prop("C27", "The error for a refused text names the culprit and its line",
 "When a text is refused because of an undeclared node type, a USE or ROUTE of a name that no DEF gave, a field its node type does not have, or a value of the wrong kind for a boolean, string or node field, the exception's message contains that name (for a field also the node type, for a value the field type) and the number of the line it is on, counted from 1. This holds for every line-ending style (LF, CR, CRLF), for texts with comments, strings over several lines and characters of any plane, in scenes and in PROTO bodies, given as str or as UTF-8 bytes, and for both parsers.",
 ["inputs"], "all single faults of names in well-formed texts x all layouts",
 "No test looks at an error message; where the line comes out wrong depends on the layout around the fault.",
 ["vrml/vrml97/parseprocessor.py"], [("error messages", "ParseProcessor.Node, USE, ROUTE, Attr, checkKind"), ("line counting", "parseprocessor.lines")], ["the exception raised by parse()"])

prop("C28", "Events reach their handler first, keep their value, and are told once",
 "Giving a value to an event of a node (by assignment or through a route) calls the node's on_<event> method, if it has one, exactly once with that value (and the event, if the method asks for it) before any listener is told; the value is then what reading the event gives, and every listener of that event of that node, and no other, is told exactly once. A handler that raises stops this (also where a route brought the value, which goes no further then): the value stays what it was and nobody is told. Reading an event that has had no value raises AttributeError; a callable attached with SceneGraph.addRoute((node or DEF name, field or event, callable)) hears exactly the sets and deletions of it until it is released.",
 ["histories"], "all node types with events and handlers x all histories of values, listeners and routes",
 "No test gives an event a value or defines a handler.",
 ["vrml/field.py", "vrml/route.py", "vrml/vrml97/scenegraph.py"], [("Event.__set__, __get__", "vrml/field.py"), ("ROUTE._forward to events", "vrml/route.py"), ("addRoute with a callable", "vrml/vrml97/scenegraph.py")],
 ["on_<event> calls", "pydispatch notifications", "getattr(node, event)"])

prop("C29", "Node types that a program adds are read and written as built-in ones",
 "Node types defined in Python (Node subclasses with fields, types derived from those, node.prototype) or shipped as the NURBS and shader extensions, when given to ParseProcessor(basePrototypes=...), are parsed as the built-in types are: nodes of exactly those classes with the described values and the types' own defaults, DEF/USE and routes. What the library writes for scenes that contain them reads back as the same scene. A parse that was not given the types refuses the text, also after one that was.",
 ["inputs", "configurations"], "all sets of added node types x all scenes of them",
 "No test adds a node type to a parser, and the NURBS and shader modules are never imported by one.",
 ["vrml/vrml97/nurbs.py", "vrml/vrml97/shaders.py", "vrml/vrml97/parseprocessor.py", "vrml/node.py", "vrml/fieldtypes.py", "vrml/vrml97/linearise.py"],
 [("basePrototypes", "vrml/vrml97/parseprocessor.py"), ("NURBS and shader nodes", "vrml/vrml97/nurbs.py, shaders.py"), ("text forms of the extension field types", "vrml/fieldtypes.py, parseprocessor.py")], ["parse result", "linearise output"])

prop("C30", "Every field type works by its name, as field and event, in Python and in text",
 "For each of the 41 field types (the 20 of VRML97 and the unsigned, single-precision list, double-precision, four-component, matrix and array ones) newField and newEvent with the type's name give a field or event that reports that type name, and each new node's field declared without a default starts with its own zero value (identity for single matrices; empty for strings and lists; NULL for nodes). Every value of the type is stored with the type's element type and shape, copied with the node, and comes back equal when the prototype and node holding it, as default and as value, are written and read. Values in VRML97 text (for arrays, numbers in brackets nested by dimension) are read as the values they spell.",
 ["inputs"], "all field types x all values x all layouts",
 "No test touches the extension types; which values fail (long arrays, many digits, matrices) depends on the value.",
 ["vrml/fieldtypes.py", "vrml/field.py", "vrml/vrml97/parseprocessor.py", "vrml/vrml97/parser.py"],
 [("register, newField, newEvent", "vrml/field.py"), ("defaultDefault, coerce, vrmlstr, copyValue", "vrml/fieldtypes.py"), ("value readers", "vrml/vrml97/parseprocessor.py")],
 ["newField/newEvent results", "default and stored values", "linearise output and parse result"])

prop("C31", "What is dropped is freed, and is not heard of again",
 "Reading, writing, copying, editing, observing, routing, node paths, cached data and refused values or texts keep nothing alive: whatever no scene and no caller holds any more (nodes, lists, types of declared prototypes, routes, paths, cache holders) is gone once garbage collection has run, and the library's tables of observers, cached data and IS connections are as they were. A part kept from a scene that is gone belongs to no scene and is taken over, with its name, by the next one it is put into. Observers of what is gone hear nothing of nodes made later.",
 ["histories"], "all histories of use of any scenes, followed by dropping all or parts of them",
 "No test drops anything; what is left behind, or is mistaken for a later object at the same address, depends on the history.",
 ["vrml/node.py", "vrml/olist.py", "vrml/cache.py", "vrml/nodepath.py", "vrml/route.py", "vrml/field.py", "vrml/weakkeydictfix.py", "vrml/vrml97/linearise.py", "vrml/vrml97/nodepath.py", "vrml/vrml97/scenegraph.py"],
 [("IS maps", "vrml/node.py"), ("list senders", "vrml/olist.py"), ("cache holders", "vrml/cache.py"), ("matrix watches", "vrml/vrml97/nodepath.py"), ("root references", "vrml/node.py RootScenegraphNode")],
 ["objects of the library's types alive after collection", "table sizes", "notifications"])

prop("C32", "Any part of a scene is written as a text that stands by itself",
 "Writing a node of any depth, a list of nodes, prototypes, or a mixture of them gives a text that reads back as these nodes (values and, for named nodes, sharing) and declarations. The text declares every PROTO and EXTERNPROTO that the part uses, directly, in the bodies of other prototypes or in default values, exactly once and before its first use; a scene (or body) that is written also declares the unused ones it has, unless skipUnusedProtos is given.",
 ["inputs", "configurations"], "all parts of all scenes with declarations x skipUnusedProtos x forms of the call",
 "Tests write whole fixtures only.",
 ["vrml/vrml97/linearise.py", "vrml/node.py"], [("Lineariser.linear, _proto, _Node", "vrml/vrml97/linearise.py"), ("toString", "vrml/node.py")], ["linearise output", "parse result"])

prop("C33", "A prototype keeps its own name, body and location, whoever reads them",
 "The name, body scene and external location set on a prototype (by node.prototype or the protofunctions, given the prototype or, for names, one of its nodes) are what is read back until they are set again or deleted, which restores the default; setting or deleting on one prototype never changes another's own, and reading changes nothing. Nodes made after a change have private copies of the body in force (their type's own, or else that of the nearest base type that has one); nodes made before keep theirs. The writer declares each prototype with its name and its own body or location.",
 ["histories"], "all histories of setting, deleting, reading, instantiating and writing over any prototypes and derived classes",
 "Tests set each of these once, on one prototype without derived classes; what leaks through defaults and base classes depends on the order of reads and writes.",
 ["vrml/protofunctions.py", "vrml/node.py", "vrml/field.py", "accelerate/src/fieldaccel2.pyx", "vrml/vrml97/linearise.py"],
 [("setSceneGraph, setExternalURL, protoName, name", "vrml/protofunctions.py"), ("prototype, PrototypedNode.instantiate, renderedChildren", "vrml/node.py"), ("getDefault, fdel of types", "vrml/field.py, fieldaccel2.pyx")], ["values read from prototypes and nodes", "rendered children", "linearise output"])

prop("C34", "Describing things for people never fails and changes nothing",
 "str() and repr() of nodes, prototypes' nodes, NULL, scenes, lists of nodes, routes, declarations of fields and events, node paths and weak containers (whose items may have died) always give a text, whatever the state. It tells the truth: a node's type, its DEF name (str), all fields that it has values for, with the values, and for nodes without children no others (repr); a declaration's kind, field type and name; a route's nodes and field names in order; the live items of a path or weak list in order. Describing gives no field a value, takes none away, sends no signal and keeps no weakly held item alive.",
 ["inputs", "histories"], "all scenes, plain or with prototypes, in every state of set, unset and deleted values",
 "Tests describe nothing; which attribute is missing in which state is what makes descriptions fail when they are needed (in errors and logs).",
 ["vrml/node.py", "vrml/scenegraph.py", "vrml/route.py", "vrml/field.py", "vrml/event.py", "vrml/nodepath.py", "vrml/weaklist.py", "vrml/weaktuple.py"],
 [("Node.__str__, __repr__, NullNode.__str__", "vrml/node.py"), ("__str__, __repr__", "vrml/route.py, vrml/field.py, vrml/event.py, vrml/nodepath.py"), ("__repr__", "vrml/weaklist.py, vrml/weaktuple.py")], ["str and repr texts", "stored values", "signals"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
