"""The properties, how each is decided, and generation of properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "src/autosar/xml/writer.py"
R = "src/autosar/xml/reader.py"
E = "src/autosar/xml/element.py"
F = "src/autosar/xml/reference.py"
N = "src/autosar/xml/enumeration.py"
D = "src/autosar/xml/document.py"
B = "src/autosar/xml/base.py"
WS = "src/autosar/xml/workspace.py"
T = "src/autosar/xml/template.py"
MI = "src/autosar/model/implementation.py"
ME = "src/autosar/model/element.py"
G = "src/autosar/generator/type_generator.py"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append({"id": pid, "title": title, "statement": statement, "over": over, "text": text, "why": why,
                  "files": files, "mechanism": mechanism, "technique": technique, "note": note, "na": na})


prop("P01", "Written XML is one properly nested tree",
     "Whatever optional content a document, package or element has, the XML the writer produces for it is one "
     "properly nested tree: every start tag is closed exactly once by an end tag of the same name, innermost first. "
     "This holds on every path through the writer that does not end in an error.",
     ["inputs", "programs"], "every model object of every writable class, with every combination of present and absent "
     "attributes and every collection length",
     "The tests write a few dozen fully or minimally populated elements per class; a branch or early return that "
     "forgets an end tag shows only for the attribute combination that takes it.",
     [W], "each writer method opens and closes elements on a tag stack; the low-level methods turn the stack into text",
     technique="abstract interpretation of the writer (open-element typestate) plus symbolic string summaries of its primitives",
     note="Sound for the modelled Python subset: every path of every writer method is explored, loops to a fixpoint; "
          "methods with constructs outside the subset are listed as undecided in the evidence.")

prop("P02", "Text in the model cannot change the structure of the written XML",
     "Any text held by the model (names, descriptions, labels, references, formula and code text, UUIDs) appears in "
     "the written XML only as escaped character data or as an escaped attribute value, so that characters such as "
     "<, & and quotes never alter the structure of the document.",
     ["inputs"], "every string value of every attribute of every writable class",
     "The tests only use plain ASCII words; one unescaped sink suffices to corrupt a document whose name or "
     "description contains a special character.",
     [W], "text enters the output through the writer's low-level content and attribute methods",
     technique="interprocedural taint analysis from model text to output sinks",
     note="Every sink of output text is examined; text reaches it only through an escaping function or from a "
          "program constant, a number format or an enumeration table.")

prop("P03", "What is written is read back as an equal element",
     "Writing an element and reading the XML back yields an element of the same class in which every attribute has "
     "the value it had before: nothing is lost, moved to another attribute, or changed in kind. This holds for every "
     "combination of present, absent, empty, zero and false attribute values, and for collections of any length.",
     ["inputs", "programs"], "every writable class, every attribute, every combination of attribute values of the "
     "declared types",
     "The tests check one or two values per attribute, mostly one attribute at a time and never the zero/false/empty "
     "values or the combinations; with over 250 classes most combinations are never exercised.",
     [W, R, E, N, F], "each class has one writer and one reader method; the constructor stores what the reader passes",
     technique="abstract interpretation: composition of the reader's and the writer's symbolic summaries per class",
     note="For each attribute the value read, as a guarded term over the written object, must equal the written "
          "attribute on every path. Mixed-content text runs and the attributes listed as undecided in the evidence "
          "are outside.")

prop("P04", "Numbers, booleans and enumerations keep their value as text",
     "Each boolean and integer the model accepts is written in a text form that reads back as the same value and the "
     "same type, and every enumeration member has exactly one XML name, which reads back as that member.",
     ["inputs"], "all integers, booleans and enumeration members; all enumeration types used by the writer or reader",
     "Tests sample individual members and a handful of numbers; the two enumeration tables hold hundreds of entries "
     "maintained by hand, one of them positional.",
     [W, R, N, E], "text codecs of the writer and the reader, and two enumeration tables, one keyed by XML name and "
     "one indexed by member value",
     technique="table extraction and inverse checking; symbolic text-form summaries of encoder and decoder",
     note="Tables are compared exhaustively; codecs are compared as guarded terms. Rounding of floats is outside.")

prop("P05", "The reader drops no child element silently",
     "Every child element of a schema-valid document is read into the model, refused with an error, deliberately skipped "
     "by name, or reported as unprocessed the first time its kind occurs in the document, in every element the reader "
     "reads and whatever other children are present. Content that is read is not reported as unprocessed.",
     ["inputs"], "every element kind the reader handles, every unknown child element and every combination of children",
     "Tests feed only content the reader understands; silence on everything else is never observed.",
     [R], "each read method consults a map of child elements and finally reports those it did not access",
     technique="abstract interpretation of the reader (consumed-children typestate) with path conditions",
     note="All read methods are covered. Elements that hold one kind of child only and repeated occurrences of a child "
          "that the schema allows once are outside.")

prop("P06", "Elements are written in schema order under their schema names",
     "For every class and every combination of attributes, the child elements and XML attributes the writer emits use "
     "the names the AUTOSAR schema prescribes and appear in the sequence it prescribes.",
     ["inputs", "programs"], "every writable class, every pair of child elements that can occur together",
     "Tests compare text for selected combinations; the relative order of two optional children is only observed "
     "if some test has both.",
     [W], "the writer emits children in program order; the AUTOSAR schema fixes sequences of xs:sequence groups",
     technique="abstract interpretation of the writer; emitted child order compared with a frozen schema table",
     note="The XSD is not available offline: the table was recorded from the reviewed writer and states, per element, "
          "the permitted children, attributes and their order.")

prop("P07", "Every element kind is written under its own tag and read back as itself",
     "Each element kind that can be placed in a package, port, behavior or value has a writer that emits the kind's "
     "AUTOSAR tag, and the reader maps that tag back to the same kind in the same place; where an attribute "
     "accepts several kinds, each accepted kind is handled, and an unknown kind is refused rather than ignored.",
     ["programs", "inputs"], "all model classes and all places where several classes are permitted",
     "A test exists per handled kind; a kind accepted by the model but missing from a dispatch table is by "
     "construction untested.",
     [W, R, E], "dispatch tables keyed by class name in the writer and by tag in the reader",
     technique="dispatch-table extraction and exhaustiveness analysis over the class hierarchy",
     note="All dispatch sites and tables are enumerated; places are matched with the types the constructors accept.")

prop("P08", "References keep their target path and a permitted destination type",
     "A reference can only be created with a destination type permitted for its kind; its text is written and read "
     "back unchanged together with that type; and the reference an element gives to itself carries the element's own "
     "type as destination.",
     ["inputs", "programs"], "all reference classes, all destination types, all element classes with a reference",
     "Tests create references with one valid destination; wrong acceptance or a wrong default is not observed.",
     [F, E, W, R, N], "each reference class declares the destination types it accepts",
     technique="class-table extraction, abstract interpretation of reference constructors and of the element's ref methods",
     note="All reference classes are enumerated and compared with the tags their elements are written under.")

prop("P09", "Parent links and paths always agree with containment",
     "Whenever an identifiable element is put into a container, by constructor argument, append or creation method, its "
     "parent becomes that container. Its reference path is the container's path followed by its own name, whatever the "
     "nesting, and an element outside any document or workspace has none.",
     ["histories", "programs"], "all container classes, all ways of inserting an element",
     "Tests check the reference of a few elements after one insertion route; each class has several routes.",
     [E, B, WS, D], "containers hold lists of elements, elements hold a parent link, paths are computed through it",
     technique="effect analysis: every store of an identifiable element into a container is paired with a parent store; "
     "abstract interpretation of the path methods",
     note="All container attributes holding identifiable elements and all insertion paths are enumerated. Attributes "
          "assigned directly by the user, and lookup below package level, are outside.")

prop("P10", "Short names stay unique within their container",
     "Adding an element whose name is already used by another element of the same package or package collection is "
     "refused with an error and leaves the container unchanged, whichever way it is added.",
     ["histories", "inputs"], "all insertion routes into named containers and all prior contents",
     "Tests try one duplicate on one route at most.",
     [E, WS, D], "packages and package collections keep a list and a name index",
     technique="path-sensitive effect analysis: the list and the index are updated together, after the duplicate test",
     note="All methods of containers that keep a name index are analysed on every path, and all code outside them is "
          "searched for changes that bypass them. Renaming an element after insertion is outside.")

prop("P11", "A refused value leaves the object unchanged",
     "When an append, extend, creation, update or assignment operation refuses its argument with an error, the object it "
     "was called on is the same as before the call, and a refused element has not been given a new parent. Operations that "
     "work along several package paths, templates or a configuration file are sequences of such operations.",
     ["inputs", "histories"], "all mutating operations of model classes and all argument values",
     "Tests check that an error is raised, never the state afterwards.",
     [E, F], "append methods check the argument's type and raise",
     technique="path-sensitive effect analysis: no store to the receiver precedes an explicit error",
     note="All public append, extend, add, insert, set, update and create methods and property setters of model classes are "
          "covered, including the helpers they call; explicit raises and asserts are refusals.")

prop("P12", "Every argument reaches the attribute it names",
     "Every argument a constructor, creation or append method accepts ends up in the object, in the attribute of the "
     "same name, as given or converted to the declared type; none is ignored, swapped or overwritten.",
     ["inputs", "programs"], "all constructors and creation methods, all arguments, all combinations",
     "Tests pass a few arguments at a time, often through one level of inheritance; several hundred parameters are "
     "forwarded by hand through up to five levels of constructors.",
     [E, F, MI, ME], "constructors assign each argument to an attribute through checking helpers",
     technique="symbolic summaries of constructors and creation methods: parameter-to-attribute dataflow",
     note="All constructors are summarised; conversions recognised as the attribute's declared type are accepted.")

prop("P13", "Reading never fails on absent optional or unknown content",
     "For every element kind, reading an element from which any of its children are absent, whose containers are "
     "empty, or which has children the library does not know, yields an object in which the attributes of absent "
     "children are unset, or refuses the element with an error raised for that purpose. It never ends in an internal "
     "error: use of a child that is not there, a constructor argument that does not exist, a variable not assigned. "
     "Malformed text and missing mandatory XML attributes are outside.",
     ["inputs"], "all element kinds, all subsets and kinds of children",
     "Tests read fully populated or single-child elements; the empty, partial and foreign cases of most readers are not run.",
     [R, E], "readers collect keyword arguments from the children present and call the constructor",
     technique="abstract interpretation of the reader: none-dereference, argument binding and raise analysis",
     note="Every use of a possibly absent value, every constructor call and every raise in all reader methods is decided "
          "over all presence combinations.")

prop("P22", "Writing never fails because optional content is absent",
     "Every element that can be built with some of its optional content left out can be written: no writer method uses an absent "
     "value, hands it on to a method that needs one, or ends in an error or failed assertion merely because content is absent. "
     "Conditions on the values of content that is present may still be refused.",
     ["inputs"], "all writable classes, all combinations of present and absent optional content",
     "Tests write fully populated and minimal elements; a guard that looks at the wrong attribute fails only for one combination.",
     [W], "writer methods guard every optional child by a test for its presence",
     technique="abstract interpretation of every writer method over presence conditions, with declared and constructed attribute types",
     note="Attribute types come from annotations and constructors; conditions that depend on values are counted, not judged.")

prop("P23", "Looking up a name or path gives the element that bears it",
     "Looking something up by name, path or reference returns the contained element that bears that name, and nothing only "
     "when no element of the searched container bears it; a path is continued segment by segment in the element found. "
     "Creating packages along a path returns existing packages where they exist and creates exactly the missing ones, and "
     "filtering delivers every matching element once.",
     ["inputs", "histories"], "all names, paths with and without leading slash, and contents of the containers",
     "Tests look up a handful of paths; a mistake in the order of cases shows only for deeper paths or later elements.",
     [E, WS], "the find, find_x, get_x_in_port, filter and make_packages methods of containers, packages and the workspace",
     technique="symbolic case distinction over every lookup method (abstract values and path conditions) compared with the names",
     note="Assumes the name index agrees with the lists, which P10 decides; empty path segments are not considered.")

prop("P14", "One document never influences the next",
     "A reader or writer that is used for several documents treats each as if it were new: nothing remembered from "
     "an earlier document, including one that ended in an error, changes what is read or written later.",
     ["histories", "fault_sequences"], "all sequences of read and write operations on one reader or writer",
     "Tests create a new reader or writer for nearly every document.",
     [R, W], "reader and writer keep per-document state in attributes of the instance",
     technique="effect analysis: every per-document attribute is re-initialised on entry before it is read",
     note="All instance attributes written after construction are enumerated over the call graph.")

prop("P15", "Writing and looking up leave the model unchanged; text is repeatable",
     "Writing a model, looking something up in it, or generating code from it leaves every element, collection and link "
     "of the model unchanged. The text produced depends on nothing but the model: writing twice, in the same process or "
     "another, gives identical output.",
     ["inputs", "histories"], "every model, every repetition of write operations",
     "Tests compare one text once and do not compare the model before and after.",
     [W, WS, E, D, MI, G], "writer, workspace, look-up and generator methods read attributes of the elements they are given",
     technique="context-sensitive points-to and effect analysis over the call graph of the operations",
     note="All code reachable from write, look-up and generating operations is covered, including properties, dispatch tables, "
          "copies and helpers of model classes; code outside the package is assumed not to change what it is handed.")

prop("P16", "Objects never share mutable state by default",
     "Two objects created independently never share a mutable collection or sub-object: appending to one never "
     "changes another.",
     ["histories"], "all classes and all constructor calls",
     "Tests look at one object at a time.",
     [E, F, B, D, WS, MI, ME], "constructors create fresh lists and dictionaries per object",
     technique="escape analysis of defaults, class attributes and module-level objects",
     note="Every parameter default and class-level or module-level mutable object is followed into attributes.")

prop("P17", "Generated type definitions follow their dependencies, each once",
     "The C header generated for a set of requested data types defines every requested type and every type it needs "
     "exactly once, each after all the types its definition mentions, for any dependency graph without cycles.",
     ["inputs", "programs"], "all sets of implementation data types and all dependency graphs",
     "Tests generate a handful of small types, mostly without shared dependencies.",
     [G, MI], "the implementation model orders elements by dependencies before the generator emits them",
     technique="symbolic analysis of the dependency traversal: edges per kind of type, visit order, duplicate test, emission",
     note="The traversal is decided step by step (edges, order, once-only test, case split of the generator over the kinds of "
          "types). Kinds the generator refuses with an error are not required to be generated.")

prop("P18", "Each implementation data type is mapped by category or refused",
     "Every implementation data type is turned into the one kind of model type its category stands for, with its name, symbol, "
     "emitter, referenced types and every dimension or member in order, or is refused with an error; asking twice gives the "
     "same type, and only requested types count as requested. The definition generated for a type says the same as the type.",
     ["inputs"], "all categories, element kinds, dimensions and members",
     "Tests cover some categories with one or two members and dimensions.",
     [MI, ME, G], "category dispatch when building the implementation model; one definition per kind in the generator",
     technique="symbolic summary of the type construction, split by category, compared with the element's attributes",
     note="All categories, element kinds and sub-element categories are split; loops over dimensions and members are summarised. "
          "Lookup of a referenced element is abstract.")

prop("P21", "The generated type header is a well-formed, self-protecting C header",
     "The header generated for any set of types begins with an include guard that covers everything else, closes every conditional "
     "block and brace it opens, specifies linkage for C++ only, and defines the types unconditionally after the headers they need. "
     "The text version and the file version hold the same lines, and the file is written into the directory the caller named.",
     ["models"], "all data types and option combinations",
     "Tests compare the header of a few types with a stored text.",
     [G], "write_type_header builds the sequence of header lines and writes the file",
     technique="symbolic reconstruction of the line sequence from the events of the generating methods, checked as a bracket language",
     note="The C library that renders the lines is outside this repository; it is assumed to write them in the order they were added.")

prop("P19", "Documents of a workspace hold exactly what was assigned to them",
     "Writing the documents of a workspace writes every configured document exactly once, to its configured path below the "
     "document root and in the requested schema version, holding every assigned package that exists, at its own path, and nothing "
     "else; a reference to something that is not a package is refused. A document mapping writes one file per matching element, "
     "named after it, holding that element and the elements its suffixes select, in their own package. Configuring documents and "
     "mappings, by call or by configuration file, keeps every entry given, and no document depends on one written before.",
     ["configurations"], "all workspace configurations and package structures",
     "Tests use a few configurations, without nested packages, suffixes or several documents.",
     [WS, D], "write_documents loops over configured documents and mappings",
     technique="symbolic data flow from the configuration to the written files, with the element library opaque",
     note="The packages and elements themselves are abstract, so the argument covers every workspace; how their XML is written is "
          "P01 to P06.")

prop("P20", "Output files are closed on every path",
     "Every file the library opens is closed when the operation ends, also when it ends with an error.",
     ["fault_sequences", "inputs"], "all file operations, all error points",
     "Tests never make a write fail half-way.",
     [W, WS, R], "writer opens the file before and closes it after writing the document",
     technique="typestate analysis of file handles including exceptional paths",
     note="All calls that open a file are enumerated over the package; every path from each, including exceptions from any call "
          "in between, must close it.")

prop("P24", "Namespaces, package maps and behavior settings take effect as configured",
     "Whether created by call or by configuration file, a namespace is stored under its name, and every role it was given then "
     "refers to the normalised path below the namespace's base reference (by default a root package of the namespace's name); a role "
     "or namespace that was not given is refused, and no other. A package map replaces the former one and leads every key to the "
     "package of its path, created if need be. Every behavior setting that is set, by call or by configuration file, is the one "
     "returned later, and unset settings are refused.",
     ["configurations"], "all namespace names, base references, role maps, package maps and settings",
     "Tests use a handful of fixed role names and paths and load no configuration with namespaces under unusual base references.",
     [WS, N, E], "the constructor of a namespace joins the paths; the workspace stores it and joins again on lookup; settings are "
     "attributes set by name",
     technique="symbolic data flow from configuration to lookup, the stored namespace object substituted into the lookup",
     note="Two joins of the same absolute base reference are one; base references are assumed to begin with a slash.")

prop("P25", "Applying a template creates its element once, in the package of its role",
     "Applying an element template yields the element of that name in the package its namespace gives to its role: the existing "
     "one untouched if there is one, otherwise one created exactly once, put into that package unless the template says not to, and "
     "returned. Before that every template it depends on is applied, in order, and handed over under its reference; the caller's "
     "arguments reach the creation, and a creation that yields no element is refused. A generic template is given the workspace and "
     "the caller's arguments, and its result is returned.",
     ["inputs", "histories"], "all templates, workspaces and earlier applications",
     "Tests apply a few templates in one order in a fresh workspace.",
     [WS, T], "the workspace looks the element up before it calls the template's create method",
     technique="symbolic evaluation of template application with the template's methods and the element library opaque",
     note="What create itself does is user code.")

prop("P26", "A connector joins exactly the two ports that were named",
     "Connecting two ports named by texts creates exactly one connector, of the kind that fits: two ports of inner components give "
     "an assembly connector from the one that provides to the one that requires, whichever way round they are named; an inner port "
     "and one of the composition itself give a delegation connector between them; two outer ports a pass-through connector. It "
     "refers to the ports and component prototypes named and carries the given name or a distinguishable default one. A port or "
     "component that does not exist is refused.",
     ["inputs"], "all compositions, port kinds, orders of the two names and forms of the texts",
     "Tests connect a few ports in one order; the mirrored branches and the failing look-ups are seldom reached.",
     [E], "the composition looks both ports up and splits on which of them belong to inner components",
     technique="symbolic summary of the connector creation with look-ups opaque, judged for every combination of port kinds and places",
     note="The look-up of one port is judged separately, in all its forms; find in the workspace and references are P09 and P13.")

prop("P27", "An event created by name starts the named runnable on the named element",
     "Creating an event by name adds exactly one event of the requested kind, which starts the runnable of the given name and, for "
     "data, operation and mode events, refers to the named port of the direction the event needs and to the named element of that "
     "port (or the only one, if none is named). Its name is the given one, or made of the prefix set for this kind of event, and is "
     "unique among the events; all options reach the event. A missing runnable, port, element, mode or prefix is refused.",
     ["inputs", "histories"], "all behaviors, ports, interfaces, event kinds and forms of the texts",
     "Tests create one event of each kind with valid names in a fresh behavior.",
     [E], "the create methods of the internal behavior look up the parts and compose the event's arguments",
     technique="symbolic summary of every event-creating method with look-ups and construction opaque, judged for each form of its text "
     "and for each missing part",
     note="The constructors of the events are P16; their look-ups of ports and elements are judged here.")

prop("P28", "An access point created from a text is of the kind the text and port call for",
     "Each entry adds exactly one access point to the runnable, of the documented kind for its prefix (blanks after it are ignored), "
     "the direction of its port and the port's interface, referring to the named port and the named element of the interface (or the "
     "only one, if none is named). Its name is the given one, or made of the prefix set for its kind, the port and the element; all "
     "other options given reach it, the caller's objects are left as they are, and parts added to a runnable get names unique in "
     "their list. An unknown prefix, port or element, and an access which the port does not allow, are refused.",
     ["inputs", "histories"], "all combinations of prefix, interface, port kind, element naming and options",
     "Tests cover one valid text per access kind; the failing and mixed combinations are seldom reached.",
     [E], "the runnable parses the text, looks port and interface up and branches on interface, port kind and options",
     technique="symbolic summary of the access point creation with look-ups opaque, judged for every row of the documented table",
     note="Combinations which the documentation does not define (e.g. READ on a provided port) are not judged; "
          "ports and interfaces are found by P09 and P23.")

prop("P29", "Elements made from plain Python data say what the data says",
     "Each convenience constructor returns an object of the documented class with every part of the data it is given in the documented "
     "place, nothing dropped, swapped or made up: value tables, rational scalings, data constraints, values (labels, arrays, records, "
     "absent values), constants, events, variable accesses, and com-specs for every element of a port interface. Zero, empty text and "
     "empty labels count as data; forms of data which are not documented, and names the port interface does not have, are refused.",
     ["inputs"], "all forms of the data: type, tuple length, marker, empty and zero values, queued or not, one or several elements",
     "Tests use a few non-zero values of each form; the empty, zero and mixed ones differ by a truth test.",
     [E], "the class methods branch on the type and the size of the data and build nested objects from it",
     technique="symbolic summary of each class method with nested construction opaque, judged for every documented form of data",
     note="Constructors storing their arguments is P07's; the checks of the values themselves are P13's and P14's.")
prop("P30", "A part created through its owner is complete and is added to it once",
     "Each method of an interface, component, behaviour or operation that creates a part adds exactly one object of the documented class "
     "to the documented place of its owner, with every argument in its documented field, and returns that same object. Zero, empty and "
     "false arguments count, com-specs are kept in every documented form (arguments, object, list), and default names and symbols follow "
     "the given ones. Names of areas and ports the owner does not have, and undocumented types, are refused.",
     ["inputs"], "all forms of the arguments: absent, zero or empty, text, reference or object, one or several",
     "Tests create each part once with ordinary values; the empty, single-object and list forms differ by one branch.",
     [E], "create methods of the element model forward many arguments and branch on the type of some",
     technique="symbolic summary of each create method with construction opaque, judged for every documented form of the arguments",
     note="Constructors storing their arguments is P07's; events are P27's, port access is P28's, connectors are P26's.")

