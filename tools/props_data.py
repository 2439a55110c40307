# prop(id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], observe=[...], note=...)

prop("C01", "A call binds only arguments the target signature can accept",
 "A reflected function runs only when the number of arguments matches and every argument and the requested result bind to the declared parameter and result kinds: same type, derived to base, or a declared conversion for by-value and rvalue parameters; const is never dropped, a non-const reference binds only a non-const object, an rvalue reference binds only an rvalue, and an untyped Value on either side is a wildcard. In every other case the call reports an error and the function body is not run. What the compatibility query answers for a signature agrees with what a call with those argument kinds does.",
 ["inputs", "programs"], "over all combinations of argument kind (copy, lvalue, const lvalue, rvalue, const rvalue), parameter kind, result kind and type relation (same, derived, base, unrelated, convertible, pointer, Value), for all arities",
 "The tests check a few dozen hand-picked pairs for one or two arguments; the matrix of kinds, relations and positions has tens of thousands of cells and each must be decided the same way.",
 ["src/argument.cpp", "src/function.cpp", "src/function.tcc", "src/value_function.h", "src/cast.cpp"],
 [("argument/parameter matching", "src/argument.cpp isConvertibleTo"), ("arity and result matching", "src/function.cpp testArguments/testReturn"), ("check before invoking", "src/function.tcc call")],
 observe=["Function::test", "Function::call", "Argument::isConvertibleTo"])

prop("C02", "Calls pass the caller's own objects and hand back exactly the result",
 "Through a reflected call, a reference parameter denotes the caller's object, a by-value parameter an independent equal copy, and an rvalue parameter an object the callee may consume; arguments arrive in order, whatever the kind of callable (free function, const or non-const member, functor, lambda). A returned reference denotes the very object the function returned, a returned value is delivered intact, and no other object is modified.",
 ["inputs", "programs"], "over all parameter kinds, argument kinds, callable kinds, argument positions and arities 0 to 6",
 "The tests exercise one callable per kind with at most three arguments; the guarantee is about every combination of kind and position.",
 ["src/value_function.h", "src/function.tcc", "src/cast.h", "src/cast.cpp", "src/value.tcc"],
 [("typed trampoline", "src/value_function.h ValueFunctionImpl"), ("argument casts", "src/cast.h Cast<Value,Target>"), ("result cast", "src/cast.h retCast")],
 observe=["Function::call", "Value::call", "Type::call", "Scope::call"])

prop("C03", "Overloaded calls pick the exact match, else the only viable one, else fail",
 "A call to an overloaded name runs the overload whose signature matches exactly (the earliest registered if several do); with no exact match it runs the single overload that is viable through conversions; with none, or several viable and none exact, it reports an error and runs nothing. Adding an overload that an existing one already matches exactly is refused and leaves the set unchanged. The set's membership query and lookup answer consistently with its members.",
 ["histories", "inputs"], "over all sequences of overload registrations from a pool of signatures and all calls against the resulting sets",
 "The tests register two or three overloads in one order; which overload runs depends on the whole set and its registration order.",
 ["src/overloads.cpp", "src/overloads.tcc", "src/type.cpp"],
 [("best-match loop", "src/overloads.tcc call"), ("ambiguity refusal", "src/overloads.cpp add")],
 observe=["Overloads::call", "Overloads::add", "Overloads::test", "Overloads::get", "Overloads::size"])

prop("C04", "Reflected objects live exactly as long as some owning value refers to them",
 "An object moved or copied into a value is destroyed exactly once, when the last value sharing it is gone; a value that merely refers to a caller's object never destroys, copies or outlives-by-owning it. Copying a value shares its object, copy() and move() create a new independent one, and after any sequence of operations every value still denotes the right object with the right content, constness and reference kind.",
 ["histories"], "over all sequences of value operations (construct, assign, move, copy, drop, mark const or rvalue, modify) on any set of handles",
 "The tests check destructor counts for five fixed snippets; the guarantee concerns every history of sharing and dropping.",
 ["src/value.cpp", "src/value.tcc", "src/value.h"],
 [("shared ownership", "src/value.h storage"), ("store/borrow decision", "src/value.tcc Value(T&&)")],
 observe=["Value"])

prop("C05", "Nothing reached through a const path is ever modified",
 "A value made from a const object, marked const, obtained from a const field, or derived in any way (copying the handle, fields, pointees kept const, elements, rvalue or const views) from such a value never lets the object be modified, whether by call, assignment, field write, move, cast or reading JSON into it. A mutation attempted through such a path reports an error and leaves every byte of the object unchanged, while the same mutation through a non-const path succeeds.",
 ["histories", "programs"], "over all chains of handle derivations up to a depth from const and non-const starting points, followed by every mutator",
 "Each test checks one derivation; constness has to survive every composition of derivations and every way of mutating.",
 ["src/value.cpp", "src/value.tcc", "src/argument.cpp", "src/cast.cpp", "src/field.tcc"],
 [("const propagation", "src/value.cpp Value::field, Value::toConst"), ("const test in matching", "src/ref_type.cpp testConstConversion"), ("const casts", "src/cast.cpp cast")],
 observe=["Value::isConst", "Value::field", "Value::call", "Value::assign", "Value::get", "Value::cast"])

prop("C06", "Casting a value yields its object, a faithful copy, or a clean error",
 "Casting or getting a value as a C++ type succeeds exactly when the castability query says so (apart from the two documented tolerances), and then gives the very object for reference targets and an independent copy for by-value targets, through base classes and declared converters alike. Otherwise it reports an error and changes nothing. Repeating a non-consuming cast gives the same answer.",
 ["inputs", "histories"], "over all pairs of value kind, provenance and target kind, and all short sequences of casts on the same value",
 "The tests cover around sixty pairs on two types; the relation of query and cast, and repeated casts, are not sampled at all.",
 ["src/cast.cpp", "src/cast.h", "src/value.tcc", "src/value.cpp"],
 [("cast decision", "src/cast.cpp isCastable/cast"), ("typed delivery", "src/cast.h Cast<Value,Target>")],
 observe=["isCastable", "Value::cast", "Value::get", "Value::isCastable"])

prop("C07", "Types answer member and relation queries for all they have and inherit",
 "A type reports exactly the functions and fields registered on it and on its ancestors, the nearest definition winning; parent, child and pointer relations are the reflexive transitive closure of the declared parents, for plain and same-kind pointer types. Registering a name twice as a field, or as field and function of one type, is refused and changes nothing; converters are found by target type, inherited, and refused when several match.",
 ["histories", "inputs"], "over all sequences of registrations on a few types, and all queries after each",
 "The tests query two fixed hierarchies; the answers depend on where in the chain, and in which order, members are registered.",
 ["src/type.cpp", "src/type.h", "src/type.tcc", "src/types/pointer.h"],
 [("upward lookup", "src/type.cpp function/field/hasFunction/hasField"), ("relation", "src/type.cpp isChildOf/isParentOf"), ("converters", "src/type.cpp hasConverter/converter")],
 observe=["Type"])

prop("C08", "A reflected field is the member it names",
 "Reading a field through reflection gives the current content of exactly that member of exactly that object, and writing it changes that member and no other byte, for own, inherited and nested fields, through owned, borrowed and pointer handles. A write of the wrong type, or to a const field or through a const object, is an error and changes nothing.",
 ["histories", "inputs"], "over all sequences of reads and writes, reflected and direct, over all fields of objects with padding, inheritance and nesting",
 "The tests read and write a handful of fields once; aliasing between fields shows only in the combination of offset, handle and history.",
 ["src/field.cpp", "src/field.h", "src/field.tcc", "src/dsl/field.h", "src/value.cpp", "src/type.cpp"],
 [("offsets", "src/dsl/field.h, src/dsl/basics.h"), ("field access", "src/value.cpp Value::field, src/value.tcc get/set")],
 observe=["Value::field", "Value::get", "Value::set", "Type::field", "Field"],
 note="Exhaustive within the bounds. Two ways of naming a base that is not at offset zero are recorded as known findings.")

prop("C09", "One type object per id, loaded exactly once and on demand",
 "Looking a type up by C++ type, id or alias always gives the same fully loaded type object, whose loader has run exactly once, no earlier than the first lookup, whatever the order of registrations and lookups and however loaders look up other types or themselves. Unknown ids, duplicate ids and duplicate aliases are errors that change no answer given before or later.",
 ["histories"], "over all sequences of registrations, aliases and lookups with loaders that look up each other",
 "The tests perform one lookup order per process; loading is driven by the order of first uses.",
 ["src/registry.cpp", "src/registry.h", "src/reflect.h", "src/dsl/type.h", "src/dsl/template.h"],
 [("lazy load", "src/registry.cpp Registry::get/load"), ("registration", "src/registry.cpp Registry::add/alias")],
 state=[("types/loaders", "id to type and id to pending loader", "src/registry.cpp")],
 observe=["type<T>()", "type(id)", "Registry"])

prop("C11", "Qualified names split and join consistently",
 "Every well-formed qualified name splits into the same head and tail, or init and last component, at top-level separators only, with template argument lists kept whole, and joining the parts restores the name. Names with unbalanced brackets or empty components are refused everywhere.",
 ["inputs"], "over all strings up to a length over the characters that matter, and component sizes up to thousands",
 "The tests split a dozen names; bracket nesting and separators interact in arbitrary combinations.",
 ["src/scope.cpp"],
 [("name splitting", "src/scope.cpp head/tail parsing")],
 observe=["Scope::add*", "Scope::has*", "Scope::function", "Scope::type"])

prop("C12", "The scope tree holds exactly what was registered",
 "After any history of registrations from any level of the tree, every function, field, type and sub-scope is found by its qualified name, from every level, exactly if it was registered, lists are complete and without duplicates, and lookups and queries never change the tree. Conflicting registrations are refused and change nothing.",
 ["histories", "inputs"], "over all sequences of registrations by qualified name from any level, and every query after each",
 "The tests build one tree in one order; conflicts depend on the order in which scopes come into being.",
 ["src/scope.cpp", "src/scope.h", "src/scope.tcc", "src/dsl/scope.h"],
 [("recursive descent", "src/scope.cpp"), ("lazy type resolution", "src/scope.cpp Scope::type")],
 observe=["Scope"])

prop("C13", "Construction, copy, move and allocation build exactly the object asked for",
 "Constructing, copying, moving or allocating an object through reflection runs the matching constructor of exactly that class once, gives an independent object with the requested content (value-initialised when none is asked for), and leaves copied-from sources untouched and moved-from sources consumed, for every class shape the plumbing supports. Where the class lacks the operation it reports an error, leaks nothing and leaves arguments and handles intact, and the copiable and movable queries say so beforehand.",
 ["inputs", "programs"], "over all class shapes (copiable, move-only, no default, pinned, inherited, bare), operations and source kinds",
 "The tests construct one fully regular class; which plumbing a class gets depends on its traits.",
 ["src/dsl/plumbing.h", "src/type.cpp", "src/type.tcc", "src/value.cpp"],
 [("plumbing by traits", "src/dsl/plumbing.h"), ("copy and move", "src/value.cpp Value::copy/move"), ("construct and alloc", "src/type.tcc, src/type.cpp")],
 observe=["Type::construct", "Type::alloc", "Value::copy", "Value::move", "Value::assign", "Type::isCopiable", "Type::isMovable"])

prop("C10", "Types, scopes and calls give the same answers from any number of threads",
 "Threads that concurrently look up, register and alias types, load them for the first time, look through the global scope and make reflected calls see no data race and no deadlock. Each gets exactly the answer it would get alone: one fully loaded object per type, each loader run once.",
 ["schedules"], "over all interleavings, within a preemption bound, of two or three threads each making one or two first uses",
 "The tests are single threaded; the window in which a type is half loaded is microseconds wide.",
 ["src/registry.cpp", "src/registry.h", "src/dsl/template.h", "src/argument.cpp", "src/scope.cpp"],
 [("registry lock", "src/registry.cpp"), ("one-time registration of templates", "src/dsl/template.h reflectTemplateLoader"), ("cached Value type", "src/argument.cpp isConvertibleTo")],
 state=[("RegistryState", "types, aliases, pending loaders and the scope tree, one lock", "src/registry.cpp")],
 observe=["type<T>()", "type(id)", "Registry", "scope()", "Value::call"],
 technique="stateless exploration of thread schedules of the real code (preemption bounded) with vector-clock race and deadlock detection",
 note="All schedules within the preemption bound, switching at synchronisation operations; races at any instrumented access. Accesses inside libstdc++.so itself and weak memory orders are not modelled.")

prop("C14", "Standard containers behave through reflection as they do directly",
 "Vectors, maps, unordered maps and strings manipulated through reflection hold exactly what the same operations give directly, whatever the element type and handle: sizes, elements and keys are right, element access denotes the element itself, arguments are copied or consumed as passed. Bounds-checked access out of range and mutations through const handles are errors that change nothing, and no element is leaked or destroyed twice.",
 ["histories", "inputs"], "over all sequences of container operations up to a depth, element types, handle kinds and positions, and container sizes up to thousands",
 "The tests push two elements and read them back; which element is touched depends on the history of the container.",
 ["src/types/std/vector.h", "src/types/std/map.h", "src/types/std/string.h", "src/types/std/string.cpp"],
 [("vector reflection", "src/types/std/vector.h"), ("map reflection", "src/types/std/map.h"), ("string reflection", "src/types/std/string.cpp")],
 observe=["Value::call", "Value::operator[]", "Type::getValue(valueType/keyType)"])

prop("C15", "Raw and smart pointers keep their meaning and ownership through reflection",
 "Dereferencing a reflected pointer gives the pointee itself, testing it tells whether it is null, and assigning, resetting, moving or releasing it changes exactly what it points at; owning pointers destroy each pointee exactly once, when the last owner is gone. A pointer to a derived object is accepted where a pointer of the same kind to its base is wanted, with the same address, and never the reverse or across kinds.",
 ["histories", "programs"], "over all sequences of pointer operations on several pointers and values of each kind, and all pairs of related and unrelated pointees",
 "The tests dereference one pointer of each kind once; ownership errors show only in sequences of sharing, moving and dropping.",
 ["src/types/pointer.h", "src/types/std/smart_ptr.h", "src/type.cpp", "src/argument.cpp"],
 [("raw pointers", "src/types/pointer.h"), ("smart pointers", "src/types/std/smart_ptr.h"), ("covariance", "src/type.cpp isChildOf")],
 observe=["Value::operator*", "Value::operator bool", "Value::call", "Type::pointee"])

prop("C16", "Operators on values are the operators of their class",
 "Applying an operator to a value runs the operator its class defines, on that very object and the given operand, with the result and side effects of the direct expression, for every operator the operator declarations cover, native or reflected operands, own or inherited. Mutating operators are refused on const objects, and an operator the class lacks is not reported and is an error.",
 ["histories", "programs"], "over all operators, handle kinds and operand kinds, in all sequences up to a depth, and all classes defining a single operator",
 "The tests use four operators once; each operator is wired separately and can be swapped or dropped unnoticed.",
 ["src/value.h", "src/value.cpp", "src/dsl/operators.h"],
 [("forwarding", "src/value.h reflectValueOp*"), ("detection", "src/dsl/operators.h reflectOpFn")],
 observe=["Value operators", "Type::hasFunction"])

prop("C17", "Built-in types carry their true traits, limits, aliases and values",
 "Each built-in arithmetic type is reflected under its own name with its size, limits and classification, every standard alias resolves to the type it names on this platform, and every value passes unchanged through values, copies, assignment, construction and calls; addition gives what the language gives.",
 ["inputs"], "over all built-in types, all aliases in any lookup order, all values of the 8 and 16 bit types and boundary values of the others, and all pairs of 8 bit operands",
 "The tests look at two types and a few values; there are fifteen types and thirty-six aliases wired by hand.",
 ["src/types/primitives.cpp", "src/types/primitives.tcc", "src/types/primitives.h", "src/types/primitive_int.cpp"],
 [("number reflection", "src/types/primitives.tcc reflectNumberImpl"), ("aliases", "src/types/primitives.cpp PrimitiveAliases")],
 observe=["type(id)", "Type::is", "Type::getValue", "Value"])

prop("C18", "Traits stay with what they were put on, with the value they were given",
 "A trait is reported on exactly the type, field, function or scope it was added to, with exactly the value given (an object, a shared or borrowed value, or none), and is not inherited by child types. Adding a trait twice and reading one that is absent or of another type are errors that change nothing.",
 ["histories"], "over all sequences of trait registrations on several holders with several kinds of value, and all queries after each",
 "The tests check the presence of two traits; values, duplicates and isolation between holders are not tested.",
 ["src/traits.cpp", "src/traits.tcc", "src/traits.h", "src/dsl/type.h", "src/dsl/field.h", "src/dsl/function.h", "src/dsl/scope.h"],
 [("trait store", "src/traits.cpp"), ("declarations", "src/dsl/*.h reflect*Trait/reflect*Value")],
 observe=["Traits::is", "Traits::getValue", "Traits::traits"])

prop("C19", "Function objects own what they were made from",
 "A reflected function keeps its callable alive and callable, with its own state, through moves, assignments, swaps and growth of the sets holding it, and destroys it exactly once, when it is dropped, replaced or refused. Name, signature and behaviour travel together.",
 ["histories"], "over all sequences of making, moving, assigning, swapping, calling and dropping functions in several slots, and all fillings of overload sets",
 "No test assigns functions or counts their callables.",
 ["src/function.cpp", "src/function.tcc", "src/value_function.cpp", "src/value_function.h", "src/overloads.cpp"],
 [("ownership", "src/function.cpp Function(Function&&), operator=, ~Function"), ("callable storage", "src/value_function.h makeValueFunction, src/value_function.cpp freeValueFunction")],
 observe=["Function", "Overloads", "Function::call"])

prop("C20", "Every refusal is reported once, in full, and leaves the library usable",
 "Every refused operation is reported as an error whose message contains the whole offending name and whatever text it is built from, for any length and content; with exceptions disabled the same message is printed and the process aborts. Afterwards every other operation works as before.",
 ["inputs", "histories"], "over all message lengths through several buffer sizes, all places a name enters a message, and all sequences of refusals",
 "The tests compile errors into aborts and never look at a message.",
 ["src/error.cpp", "src/error.h"],
 [("formatting", "src/error.cpp verrorFormat"), ("reporting", "src/error.cpp verror, src/error.h reflectError")],
 observe=["reflect::Error", "errorFormat", "verror"])

prop("C21", "Reflected global functions and variables are the real ones",
 "A reflected global variable read through its scope gives its current value, as an independent copy, and a write through the scope changes that variable and nothing else; const variables cannot be written. Reflected global functions run the very function with the given arguments, by the same name from every enclosing scope, and a scope declared in several places holds all of it.",
 ["histories"], "over all sequences of direct and reflected reads, writes and calls from every scope level up to a depth",
 "The tests declare one scope and call each name once.",
 ["src/dsl/scope.h", "src/scope.cpp", "src/scope.tcc"],
 [("declarations", "src/dsl/scope.h reflectGlobalVar/reflectGlobalFn"), ("scope call", "src/scope.tcc Scope::call")],
 observe=["Scope::call", "Scope::functions"])

prop("C22", "Parsing JSON never crashes: any bytes give a value or a positioned error",
 "Whatever the bytes of a document and the type of the target, parsing ends with either a value or an error made of a line, a column and a message: no crash, no exception, no undefined behaviour, no read past the input. A scalar target keeps its value when its document is in error, and whatever is left in any other target is valid and readable.",
 ["inputs"], "over all token sequences and byte sequences up to a length, all single changes and all cuts of rich documents, all target types and ways of parsing",
 "The tests parse a handful of valid documents; a parser's crashes are in the malformed ones, of which there is an unbounded number.",
 ["src/utils/json/parser.cpp", "src/utils/json/parser.tcc", "src/utils/json/token.cpp", "src/utils/json/reader.cpp", "src/utils/json/format.cpp"],
 [("tokenizer", "src/utils/json/token.cpp nextToken"), ("recursive parsers", "src/utils/json/parser.cpp"), ("error reporting", "src/utils/json/reader.cpp Reader::error")],
 observe=["json::parse", "json::Reader", "json::Error"])

prop("C23", "A document is read into an untyped Value exactly when it is JSON",
 "A document parsed into an untyped Value is accepted exactly when it is a JSON document, and the Value then holds exactly what the document says (null, booleans, integers, floats, strings, arrays, objects, nested at will), whatever whitespace, or comments when allowed, surround its tokens. Anything else is reported as an error, a truncated document included.",
 ["inputs"], "over all token sequences, byte sequences and nested documents up to a size, all layouts, and sizes and depths up to thousands",
 "The tests read two documents; acceptance is a statement about every text.",
 ["src/utils/json/parser.cpp", "src/utils/json/token.cpp", "src/utils/json/reader.cpp"],
 [("untyped parsing", "src/utils/json/parser.cpp ValueParser"), ("tokenizer", "src/utils/json/token.cpp")],
 observe=["json::parse", "Value"])

prop("C24", "Parsing into a typed object sets what the document names and nothing else",
 "Parsing into a reflected object assigns each member that the document names, in place, at any nesting, appends the items of arrays, sets the entries of maps, fills or resets pointers, and leaves every member that isn't named as it was; unknown members are skipped whatever they hold. A value which doesn't fit the type of its member is an error.",
 ["inputs", "histories"], "over all documents of tokens up to a length for each target shape, all pairs of shape and document kind, and all sequences of documents read into the same object",
 "The tests read one complete document into fresh objects.",
 ["src/utils/json/parser.cpp", "src/utils/json/parser.tcc", "src/utils/json/parser.h"],
 [("object, array, map, pointer parsers", "src/utils/json/parser.cpp"), ("generic array and object parsing", "src/utils/json/parser.tcc")],
 observe=["json::parse"])

prop("C25", "Printed JSON is exactly the text the value and the options call for",
 "Printing a reflected value gives one well-formed JSON text saying exactly what the value holds: members in order, items, entries, pointees or null, under each combination of compact or pretty layout and unicode options, with the right commas, indentation and nesting at any depth. What JSON can't represent is reported as an error.",
 ["inputs"], "over all values up to a size of each shape and all writer options, and depths and sizes up to thousands",
 "The tests compare two printed documents; commas and indentation depend on the position and the neighbours of every value.",
 ["src/utils/json/printer.cpp", "src/utils/json/printer.tcc", "src/utils/json/writer.cpp", "src/utils/json/format.cpp"],
 [("printers", "src/utils/json/printer.cpp"), ("layout", "src/utils/json/writer.cpp"), ("formatting", "src/utils/json/format.cpp")],
 observe=["json::print", "json::Writer"])

prop("C26", "What is printed as JSON reads back as the same value",
 "For every value that JSON printing accepts, parsing the printed text into a fresh object of the same type gives an equal value (floats to their twelve printed digits), and printing that again gives the same text, whatever the writer options. Printing never changes the value printed.",
 ["inputs"], "over all values up to a size of each shape, all writer options and all ways of printing and parsing",
 "The tests parse what they printed once.",
 ["src/utils/json/printer.cpp", "src/utils/json/parser.cpp", "src/utils/json/format.cpp", "src/utils/json/token.cpp"],
 [("printers", "src/utils/json/printer.cpp"), ("parsers", "src/utils/json/parser.cpp")],
 observe=["json::print", "json::parse"])

prop("C27", "JSON strings keep every character, escaped or not",
 "Every string survives printing and parsing byte for byte; escapes, \\u sequences and surrogate pairs read as the characters they stand for and are written as such. With the validating or escaping options exactly the invalid UTF-8 sequences are refused, in values and keys alike.",
 ["inputs"], "over all 1,112,064 code points, all surrogate pairs, all pairs of bytes, all sequences of boundary bytes up to a length, and all arrangements of escape pieces, under every reader and writer option",
 "The tests use a dozen characters.",
 ["src/utils/json/token.cpp", "src/utils/json/format.cpp", "src/utils/json/reader.cpp"],
 [("reading strings", "src/utils/json/token.cpp"), ("writing strings", "src/utils/json/format.cpp formatString"), ("UTF-8", "src/utils/json/utils.h, format.cpp")],
 observe=["json::parse", "json::print", "json::Reader::Options", "json::Writer::Options"])

prop("C28", "JSON numbers are read exactly or refused, never turned into another number",
 "A JSON integer which fits 64 bits is read as exactly itself, any other number as the closest double, and a number out of the target's range or malformed is an error which leaves the target as it was. Integers are printed exactly, floats with twelve significant digits, and infinities and NaNs are errors.",
 ["inputs"], "over all texts of number characters up to a length, all integers next to powers of two and ten, all exponents, digit counts up to 800, and all sign, exponent and top mantissa bits of a double",
 "The tests read a few small numbers.",
 ["src/utils/json/token.cpp", "src/utils/json/parser.cpp", "src/utils/json/format.cpp"],
 [("reading numbers", "src/utils/json/token.cpp"), ("conversion", "src/utils/json/parser.cpp parseInt/parseFloat"), ("writing numbers", "src/utils/json/format.cpp")],
 observe=["json::parse", "json::print"])

prop("C29", "Objects created by JSON parsing have one owner and are destroyed once",
 "An object which parsing creates behind a raw, shared or unique pointer is held by exactly the pointer that the document fills and lives as long as it; a pointer which already holds an object keeps it, and null resets it. No object is leaked, shared by accident or destroyed twice, even when the document ends in an error, and printing neither creates nor destroys any.",
 ["histories"], "over all sequences of documents, whole, cut or altered at every byte, read into one tree of pointers of each kind",
 "The tests parse into pointers once and count nothing.",
 ["src/utils/json/parser.cpp", "src/utils/json/printer.cpp", "src/types/std/smart_ptr.h", "src/types/pointer.h"],
 [("pointer parsers", "src/utils/json/parser.cpp"), ("pointer printers", "src/utils/json/printer.cpp")],
 observe=["json::parse", "json::print"])

prop("C30", "JSON traits decide which members show, under which name, both ways",
 "An alias renames a member in reading and printing alike, a skipped member is never read or printed, a member skipped when empty is left out exactly when empty, and a custom parser and printer are used for exactly their type wherever it appears. Two members with one name are reported as an error each time either is attempted, and other types keep working.",
 ["programs", "inputs"], "over all assignments of traits and combinations of traits to four members, own and inherited, all subsets of members set, and all documents naming them",
 "The tests use each trait on one member; clashes and combinations are not tested.",
 ["src/utils/json/traits.h", "src/utils/json/traits.cpp", "src/utils/json/parser.cpp", "src/utils/json/printer.cpp"],
 [("traits", "src/utils/json/traits.h"), ("field tables", "src/utils/json/parser.cpp, printer.cpp ObjectParser/ObjectPrinter init"), ("custom", "src/utils/json/parser.cpp CustomParser, printer.cpp CustomPrinter")],
 observe=["json::alias", "json::skip", "json::skipEmpty", "json::custom", "json::parse", "json::print"])

prop("C31", "Documents in a stream are read one at a time, each printed one complete",
 "Parsing from a stream or reader takes exactly one document and leaves the next one readable, for any sequence of documents, targets and ways of giving the bytes; a broken document affects no later stream. Printing to a stream or a sink delivers exactly the text that printing to a string gives, in order, and errors are reported through the reader, writer or returned error alike.",
 ["histories"], "over all sequences of documents up to a length, targets, stream behaviours and sinks",
 "The tests read one document per reader.",
 ["src/utils/json/reader.h", "src/utils/json/reader.cpp", "src/utils/json/writer.h", "src/utils/json/writer.cpp", "src/utils/json/json.h"],
 [("reader", "src/utils/json/reader.cpp"), ("writer", "src/utils/json/writer.cpp"), ("entry points", "src/utils/json/parser.tcc, printer.tcc")],
 observe=["json::Reader", "json::Writer", "json::parse", "json::print"])

prop("C32", "JSON errors name the line and column at which the document goes wrong",
 "The error for a broken document gives the line of the token at which it goes wrong, counting every newline read before it, comments and earlier documents of the same reader included, and a column within that token. The message isn't empty, and the first error is the one that is kept.",
 ["inputs"], "over all single changes of rich documents, all token sequences up to a length and all layouts put before them",
 "No test looks at an error position.",
 ["src/utils/json/reader.cpp", "src/utils/json/reader.h", "src/utils/json/token.cpp"],
 [("position", "src/utils/json/reader.cpp"), ("error", "src/utils/json/error.h")],
 observe=["json::Error::what", "json::Reader::error"])

prop("C33", "The token and callback interfaces walk any document without losing their place",
 "The reader's tokens are those of the document in order, peeking never consumes, and generic array and object parsing calls back once per item or member, with its index or key, in order, whatever each callback does with its value (parse, skip, walk). Skipping takes exactly one value and refuses what isn't one; an error raised by a callback ends the walk and is the one reported.",
 ["inputs", "histories"], "over all token sequences up to a length, all interleavings of peek and next, and all choices made by the callbacks of a walk",
 "The tests never use the token interface directly.",
 ["src/utils/json/reader.h", "src/utils/json/reader.cpp", "src/utils/json/parser.tcc", "src/utils/json/token.h"],
 [("peek and next", "src/utils/json/reader.cpp"), ("generic parsing", "src/utils/json/parser.tcc parseArray/parseObject"), ("skip", "src/utils/json/parser.cpp skip")],
 observe=["json::Reader", "json::parseArray", "json::parseObject", "json::skip", "json::Token"])

prop("C34", "JSON used from several threads at once gives each what it would get alone",
 "Threads which parse and print at the same time, for the first time or later, each get exactly what they would get alone, with no data race and no deadlock. A type which can't be parsed or printed is an error for each thread that asks, every time, and for no other.",
 ["schedules"], "over all interleavings, within a preemption bound, of two or three threads each making one or two first or later uses of every kind of parser and printer",
 "The tests are single threaded; parsers and printers are built lazily and shared, and refer to each other before they are complete.",
 ["src/utils/json/parser.cpp", "src/utils/json/printer.cpp"],
 [("shared parsers", "src/utils/json/parser.cpp getParser"), ("shared printers", "src/utils/json/printer.cpp getPrinter")],
 observe=["json::parse", "json::print"],
 technique="stateless exploration of thread schedules of the real code (preemption bounded) with vector-clock race and deadlock detection",
 note="All schedules within the preemption bound, switching at synchronisation operations; races at any instrumented access. Accesses inside libstdc++.so itself and weak memory orders are not modelled.")

prop("C35", "A reflected function describes exactly its C++ signature",
 "A Function built from any callable reports the arity, and for each parameter and the result the type, whether it's a copy, an l-value reference or an r-value reference, and whether it's const, exactly as its C++ declaration has them; its name and its printed signature are the declaration's too, also once it's kept in a set of overloads. It is described without being run, and what holds nothing is described as void.",
 ["programs"], "over every kind of parameter and result in every position of signatures up to six parameters, every pair of kinds, and every kind of callable",
 "The tests look at a handful of signatures, each with one or two kinds of parameter.",
 ["src/function.h", "src/function.tcc", "src/function.cpp", "src/argument.h", "src/argument.tcc", "src/argument.cpp"],
 [("describing a callable", "src/function.h, reflect function.tcc"), ("describing a parameter", "src/argument.tcc Argument::make, src/ref_type.h"), ("signature text", "src/function.cpp signature, src/argument.cpp print")],
 observe=["Function::arguments", "Function::argument", "Function::returnType", "signature", "Argument::print", "Value::argument"])

prop("C36", "What a type or scope prints of itself is exactly what was put in it",
 "print() of a type, field, set of overloads or scope names everything registered on it and nothing else: its parents within it, traits, own fields by offset with their type, own functions with each overload's signature in the order they were added, types and nested scopes, all indented by nesting. It agrees with what the queries answer, printing changes nothing, and a registration that is refused leaves the type as it was and says what it is about.",
 ["histories"], "over all sequences of registrations up to a length, refused ones included, on a type, its ancestors, a function or a tree of scopes, and over everything the process has registered",
 "No test looks at what print returns.",
 ["src/type.h", "src/type.cpp", "src/scope.cpp", "src/field.cpp", "src/overloads.cpp", "src/traits.cpp", "src/argument.cpp"],
 [("printing a type", "src/type.cpp print, sortedFields"), ("printing a scope", "src/scope.cpp print"), ("printing members", "src/field.cpp, src/overloads.cpp, src/traits.cpp print"), ("refused registrations", "src/type.cpp addField, addFunction")],
 observe=["Type::print", "Scope::print", "Field::print", "Overloads::print", "Type::addField", "Type::addFunction"])
