GRAM = "exhaustive enumeration of programs executed on the real interpreter, each compared with an explicit reference model"
GNOTE = "Complete for the listed program grammars up to the stated sizes; trusts the reference evaluator in mc/ref*.go, which raises 'undefined' where the language leaves the meaning open (those programs are counted and skipped)."
R = "grammar.go variables.go function.go world.go control.go".split()

p("P01", "Lexical scoping of variables and functions, and closures",
  "Every reference to a variable or function resolves to the innermost lexically enclosing binding of that name, whoever calls the code; a closure shares its variables with the scope that made it, sees and makes later assignments to them, and each entry to a binding form or call makes fresh variables.",
  ["programs"], "all programs over let, let*, lambda, flet, labels, defun, defglobal, setq, funcall with shadowing",
  "The tests run single examples; the property is about every nesting and shadowing of binders, closures and calls.",
  ["lambda.go", "setq.go", "world.go"],
  [("lexical frames", "world.go: _Scope, Let, Flet"), ("closures", "lambda.go: newLambda, _Lambda.Call"), ("let and setq", "setq.go"), ("flet and labels", "functionref.go")],
  technique=GRAM, note=GNOTE)
p("P02", "Tail calls are invisible except for stack use",
  "A self-recursive function that makes its recursive call in tail position, also inside if, cond, let, let*, progn and in loops of any length, gives exactly the result, the side effects and the closures of ordinary calls, and runs without growing the host stack; redefinition, local functions and shadowing decide which function a tail call reaches as for any call.",
  ["programs"], "all bodies with recursive calls in every position, and depth 300000 for each tail position",
  "A handful of recursive examples cannot show that the jump preserves variables, captured closures, cleanup forms and redefinition.",
  ["lambda.go", "progn.go", "setq.go"], [("tail-call jump", "lambda.go: _Lambda.Call, evalWithTailRecOpt"), ("tail position tracking", "progn.go, setq.go: *WithTailRecOpt")],
  technique=GRAM, note=GNOTE + " Depth is checked at 300000 calls under a 256 MB stack limit.")
p("P03", "Non-local exits reach exactly their lexical or dynamic target",
  "return-from and go leave to the lexically visible block or tagbody of that very activation, and throw to the newest catch with an eql tag, carrying the value; a target that is no longer or was never active is a control error, and nothing between the exit and its target runs except cleanup forms.",
  ["programs"], "all nestings of block, catch, tagbody, closures, mapping functions and exits",
  "Tests exercise single levels; wrong resolution shows only when names are reused by recursion, closures or nesting.",
  ["progn.go", "world.go"], [("block and return-from", "progn.go: cmdBlock, cmdReturnFrom"), ("catch and throw", "progn.go: cmdCatch, funThrow"), ("tagbody and go", "progn.go: cmdTagBody, cmdGo")],
  technique=GRAM, note=GNOTE)
p("P04", "Cleanup forms of unwind-protect run exactly once on every way out",
  "However control leaves the protected form (value, return-from, throw, go, error, quit), its cleanup forms run exactly once, in order, innermost first, before control arrives at the target, and the value or exit is then delivered unchanged unless a cleanup form itself fails; leaving a cleanup form by a non-local exit is a control error.",
  ["programs", "fault_sequences"], "all nestings of unwind-protect with each exit or error at each position in body and cleanup",
  "The exits and failures must be tried at every point of every nesting; the tests try a few.",
  ["progn.go"], [("unwind-protect", "progn.go: cmdUnwindProtect")],
  technique=GRAM + "; every kind of abrupt exit injected at every position", note=GNOTE)
p("P05", "Arguments are evaluated once each, left to right, before the call",
  "A call of any function, direct or through funcall or apply, evaluates its operands exactly once, left to right, before the body starts; an exit or error in one operand leaves the later ones and the body unevaluated; funcall and apply deliver exactly the same arguments as the direct call.",
  ["programs", "fault_sequences"], "every built-in function and user functions x every way of calling x every kind of exit at each argument position",
  "Only an enumeration over all functions and positions can show that none of them evaluates twice or out of order.",
  ["lambda.go", "list.go", "operator.go"], [("argument evaluation", "lambda.go: Function.Call, _Lambda.Call"), ("funcall and apply", "lambda.go: cmdFunCall, cmdApply")],
  technique="exhaustive enumeration of functions x call styles x exit positions on the real interpreter, with traced operands, plus program grammars against the reference model", note=GNOTE)
p("P06", "Conditionals and loops evaluate exactly the right forms",
  "if, cond, and, or, case, case-using, when, unless, while, dolist, dotimes, for, progn, prog1 and prog2 evaluate exactly the forms the language says, each once per pass and in order, choose clauses by eql (or the given predicate) in order, step their variables in parallel where stated, and return the specified value.",
  ["programs"], "all programs over the conditional and looping forms up to the bound, with a trace of every evaluation",
  "Wrong order, double evaluation and wrong clause choice show only for particular combinations of forms, values and side effects.",
  ["cond.go", "progn.go", "embed/case-using.lsp", "embed/for.lsp"],
  [("cond, and, or, case", "cond.go"), ("while", "progn.go"), ("loops and case-using as macros", "embed/*.lsp")],
  technique=GRAM, note=GNOTE)
p("P07", "Dynamic variables are bound for exactly the dynamic extent of their form",
  "dynamic-let binds its variables in parallel for the dynamic extent of its body, seen by everything called from it, and restores the previous bindings on every kind of exit (value, return-from, throw, go, error); defdynamic and setf of dynamic assign the innermost binding; an unbound dynamic variable is an error, and lexical variables of the same name are separate.",
  ["programs", "fault_sequences"], "all nestings of dynamic-let, setf/dynamic, defdynamic, calls and non-local exits up to the bound",
  "Restoring must hold on every exit from every nesting, and for repeated names and exits in the middle of the bindings.",
  ["setq.go", "world.go"], [("dynamic variables", "setq.go: cmdDynamicLet, cmdDefDynamic, cmdDynamic"), ("setf of dynamic", "embed/set-dynamic.lsp")],
  technique=GRAM + "; every kind of exit at every position", note=GNOTE)
p("P08", "Conditions reach the right handler, in the right context, and can be continued",
  "An error or signal-condition calls the innermost active handler once, at the point of the error and with the outer handlers in effect; a handler leaves by a non-local exit or by continue-condition, which makes the signaling form return that value only if the condition is continuable; an unhandled condition ends the evaluation as an error that is the same condition; ignore-errors, error, cerror and the condition accessors (class, operands, message parts) report the condition that was signaled.",
  ["programs", "fault_sequences"], "all nestings of with-handler, signals, built-in errors, continuations, exits and ignore-errors up to the bound",
  "Which handler runs, how often, and what is restored afterwards depends on the nesting and on the way each handler leaves.",
  ["error.go", "progn.go", "embed/error.lsp", "embed/cerror.lsp"],
  [("handlers and signals", "error.go: callHandler, cmdWithHandler, funSignalCondition"), ("continuation", "error.go: funContinueCondition"), ("error and cerror", "embed/error.lsp, embed/cerror.lsp")],
  technique=GRAM, note=GNOTE + " A handler that returns normally is undefined behaviour and skipped.")
p("P09", "No call or form crashes the host or breaks the interpreter",
  "Calling any built-in function with any arguments, in any number, or writing any special form or macro call with any operands, well-formed or not, ends in a value or in a condition that a Lisp handler can catch: never in a Go panic, a Go nil in place of an object or an error without message; the value or condition can be printed, and the interpreter evaluates correctly afterwards.",
  ["inputs", "programs"], "every built-in function and form x all combinations of up to three arguments from a set with every kind of object",
  "A crash needs the right function with the right wrong argument; only trying all combinations shows that none is left.",
  ["expect.go", "cons.go", "sequence.go", "array.go", "class.go", "error.go"],
  [("argument checks", "expect.go: Expect*"), ("special forms on malformed operands", "progn.go, setq.go, cond.go, class.go")],
  technique="exhaustive enumeration of functions and forms x argument combinations executed on the real interpreter, each followed by a probe of the outcome and of the interpreter's state",
  note="Complete for 0 to 3 arguments from the listed values (two: all 60 values; three: the first 12, thorough 24, and 4 from 8). Requests for absurd amounts of memory, infinite recursion and circular structures are left out.")
p("P13", "Arithmetic, comparison and number parsing are exact",
  "For all numbers: +, -, *, / and the rounding and remainder functions give the exact integer result when operands are integers and it fits 64 bits and the IEEE result otherwise; mod and floor, rem and truncate obey their identities for every sign; comparisons compare the mathematical values of integers and floats and agree with each other; division by zero and non-numbers are errors of the right class; parse-number and the reader accept exactly the number syntax and give its value.",
  ["inputs"], "all pairs and triples of boundary numbers of both classes, and all strings over the number alphabet up to length 6 (thorough 7)",
  "Signs, mixed classes, boundary values and rounding interact; the tests use a few small numbers.",
  ["number.go", "operator.go", "cmds.go", "pkg/parser/main.go"],
  [("arithmetic and comparison", "number.go, operator.go"), ("number syntax", "pkg/parser/main.go: tryParseAsNumber"), ("max, min, 1+", "embed/*.lsp")],
  technique="exhaustive enumeration of operand tuples and number strings executed on the real interpreter, compared with an exact (arbitrary-precision) reference model",
  note="Complete for the listed operands and strings. Results outside 64-bit integers and finite floats are left undefined, as the implementation documents no bignum arithmetic.")
p("P14", "The equality predicates are equivalence relations of increasing coarseness",
  "eq, eql, equal and equalp are reflexive, symmetric and transitive for objects of every class, each includes the one before, eql tells separately created objects apart, equal compares structure with types and case, equalp ignores case and number class; member, assoc and catch find objects by eql.",
  ["inputs"], "all pairs of atoms and structures made from them against the model, and all pairs and triples of objects of every class for the laws",
  "A law fails for one pair of classes out of hundreds.",
  ["cmds.go", "utils.go", "atom.go", "cons.go", "array.go", "string.go"],
  [("equality of nodes", "Equals methods of every Node type"), ("identity", "utils.go: sameNode")],
  technique="exhaustive enumeration of pairs and triples of objects on the real interpreter, checked against a reference model and the algebraic laws",
  note="Complete for the listed objects. The identity of numbers, characters and strings under eq is left to eql.")
p("P15", "Lists: structure, sharing and mutation",
  "cons, list, append, reverse, nreverse, member, assoc, the mapping functions, nth, nthcdr, the c…r family and their setf places give exactly the specified conses: copies are fresh where promised, tails are shared where promised, and a mutation through one reference is seen through exactly the references that share that cons.",
  ["programs"], "all sequences of list operations and mutations over variables that share structure, up to the bound",
  "Aliasing bugs need one operation to share or copy and a later one to mutate; single-call tests cannot see them.",
  ["list.go", "cons.go", "sequence.go", "embed/setf.lsp"],
  [("conses and list functions", "cons.go, list.go"), ("mapping functions", "list.go: mapCar and others"), ("places", "embed/set-*.lsp")],
  technique=GRAM + "; the graph of conses (which are the same object) is compared, not only their printed form", note=GNOTE)
p("P16", "Arrays and vectors: elements, bounds and identity",
  "create-array, vector, aref, elt, subseq, length and array-dimensions give the specified elements and dimensions for arrays of every rank, set-aref and setf change exactly the addressed element of that one array for every reference to it, subseq gives a fresh vector, and any index out of range, of the wrong type or number is an error that changes nothing.",
  ["programs"], "all sequences of array operations with indices in and out of range over variables that share arrays",
  "Wrong element addressing and missing bounds checks show only for particular ranks, indices and sharing.",
  ["array.go", "sequence.go"], [("arrays", "array.go"), ("sequences", "sequence.go"), ("places", "embed/set-elt.lsp")],
  technique=GRAM + "; identity of arrays is compared too", note=GNOTE)
p("P28", "String and character functions agree with their definition",
  "Comparison, concatenation, indexing, searching, subsequences and length of strings work by characters, not bytes, and agree with the sequence-of-characters definition for every string and index; character comparisons agree with the order of code points; indices out of range and arguments of the wrong class are errors.",
  ["inputs"], "all strings up to length 3 (4, thorough 6, for one-string functions) over alphabets with multi-byte characters x all indices",
  "The defects are in multi-byte characters, empty strings and boundary indices in combination.",
  ["string.go", "sequence.go"], [("string comparison and search", "string.go"), ("sequence functions on strings", "sequence.go")],
  technique="exhaustive enumeration of all short strings, indices and characters executed on the real interpreter, compared with an explicit reference model", note=GNOTE)
p("P17", "Hash tables and property lists are finite maps",
  "After any sequence of stores, removals and clears, gethash returns exactly the value last stored under an eql key of that table and nil otherwise, hash-table-count counts the keys, every reference to a table sees the same contents and different tables are independent; property, set-property, setf and remove-property do the same for each symbol and property name.",
  ["programs"], "all sequences of up to 3 to 5 operations (thorough more) over shared and separate tables with keys of every kind, then a look-up of every key",
  "Map bugs need a particular sequence of stores and removals with particular keys.",
  ["hash.go", "startup.lsp"], [("hash tables", "hash.go"), ("property lists", "startup.lsp")],
  technique=GRAM, note=GNOTE)
p("P18", "Classes, slots and generic functions follow the class hierarchy",
  "create initializes every slot from its initarg, else the most specific initform evaluated afresh in its defining scope; accessors, writers, setf and boundp functions reach that slot of that instance only; instancep, subclassp and class-of agree with the declared hierarchy; a generic call runs the most specific applicable method with its parameters bound to the arguments, and no applicable method is an error.",
  ["programs"], "all class hierarchies, slot options, method sets and call arguments up to the bound",
  "The behaviour depends on the whole combination of classes, slot options, methods and argument classes.",
  ["class.go", "generic.go", "builtinclass.go"],
  [("classes and slots", "class.go: cmdDefClass, funCreate"), ("generic functions", "generic.go: Generic.Call, cmdDefMethod")],
  technique=GRAM, note=GNOTE)
p("P23", "Macros, backquote and quoting expand exactly as written",
  "A macro call is replaced by the value of the macro body applied to its unevaluated operands and the expansion is evaluated in the scope of the call; a wrong number of operands is an error; a local function or variable of a macro's name hides or does not hide it as scoping says; backquote copies its template with exactly the innermost unquoted parts evaluated, spliced lists inserted in place, nested levels kept; quote and function return their operand itself; macroexpand agrees with evaluation.",
  ["programs"], "all macro definitions and uses, and all backquote templates with nested levels and splices, up to the bound",
  "Whether a template part is evaluated depends on its nesting, and which definition a name means on the surrounding scopes.",
  ["macro.go", "lambda.go", "functionref.go", "pkg/parser/main.go"],
  [("macros", "macro.go: cmdDefMacro, _Macro.Call"), ("backquote", "macro.go: funBackQuote"), ("expansion at definition time", "lambda.go: newLambda")],
  technique=GRAM, note=GNOTE)
p("P24", "setf changes exactly the place that its accessor reads",
  "For every place the language offers (variables, dynamic variables, car, cdr and their compositions, elt, aref, nth, gethash, slot accessors), setf and incf store so that reading the same place gives the new value, change nothing else, return the value stored, and evaluate their subforms as often as documented.",
  ["programs"], "all sequences of places and values over variables that share conses, arrays, tables and instances, up to the bound",
  "A store that reaches the wrong object or copies shows only through another reference to the shared structure.",
  ["embed/setf.lsp", "embed/set-aref.lsp", "list.go", "array.go", "hash.go", "startup.lsp"],
  [("setf", "embed/setf.lsp"), ("setters", "embed/set-*.lsp, list.go, array.go, hash.go")],
  technique=GRAM + "; sharing is compared as a graph of objects", note=GNOTE)
p("P10", "The reader reads exactly the written data",
  "Reading a text yields the data it denotes, one after the other, each ending exactly where its text ends: lists and dotted pairs, quotes and backquotes, strings with escapes, characters by name, code or any single character, symbols in bars, integers in every radix, floats, vectors and arrays, with white space and (nested) comments ignored; an incomplete or malformed text is an error, never a wrong datum, a hang or a crash.",
  ["inputs"], "all texts of up to 5 to 7 (thorough 6 to 9) characters or tokens over ten alphabets",
  "Lexical defects lie in combinations of delimiters, escapes and ends of text that examples do not reach.",
  ["pkg/parser/main.go", "pkg/parser/tokenize.go", "parse.go"],
  [("tokens", "pkg/parser/tokenize.go: readToken"), ("data", "pkg/parser/main.go: tokenToNode, readArray")],
  technique="exhaustive enumeration of all short texts read by the real reader, each datum and end position compared with a reference reader",
  note="Complete for the stated alphabets and lengths; tokens whose meaning the language leaves open are counted and skipped.")
p("P11", "What ~s prints reads back as an equal object, and printing is a function",
  "The text that ~s (or format-object) writes for any object made of lists, arrays, strings, characters, symbols, keywords and numbers is read back, by the reader and by the rules of the language, as an object equal to it; ~a writes the same text with the strings, characters and symbols in it as they are; equal hash tables and instances are printed the same way every time; the definition that expand-defun writes for a function is again a definition of that function.",
  ["inputs"], "every character, all short strings and symbols over special characters, numbers of every magnitude, all structures up to a size, and some 20,000 function definitions",
  "The tests print a few plain objects; the law concerns every character, name, number and nesting.",
  ["cons.go", "array.go", "string.go", "atom.go", "number.go", "hash.go", "class.go", "lambda.go", "format.go", "pkg/parser/main.go"],
  [("printing", "cons.go, array.go: PrintTo; string.go, atom.go, number.go: String, GoString"), ("reading", "pkg/parser")],
  technique="exhaustive enumeration of objects up to a size, printed and read back by the real code and by a reference reader", note="Complete for the stated objects; NaN, infinities and objects without readable text are outside.")
p("P25", "Every object has one class, and predicates, assure and convert agree with it",
  "For objects of every kind and every class, instancep, class-of with subclassp, assure, the, method selection and the type predicates all agree with the documented class hierarchy; subclassp is a strict order; convert gives exactly the documented conversions, evaluates its operand once, loses nothing on the way there and back, and is an error for every other pair of classes or unsuitable value.",
  ["inputs"], "one object of every kind x every class, all pairs of classes, and the conversion table with numbers and strings of given ranges",
  "The consistency is between many functions over all pairs of objects and classes; the tests hold a few pairs.",
  ["builtinclass.go", "class.go", "convert.go", "error.go"],
  [("classes", "builtinclass.go, class.go, error.go"), ("conversions", "convert.go: cmdConvert")],
  technique="exhaustive enumeration of object kinds x classes x operations on the real interpreter against an explicit class hierarchy and conversion table")

p("P12", "format writes exactly what its directives say, to exactly one stream",
  "format, format-object, format-char, format-integer and format-float produce exactly the text the control string, parameters and arguments denote: ~a ~s ~d ~x ~o ~b ~f ~e ~g ~% ~& ~~ with widths, padding characters and v and # parameters counted in characters; every radix; too few arguments, a directive that does not exist or an argument of the wrong class is an error; output to nil, t, string, file, standard and error streams arrives at that stream alone and in order, and ~& writes a newline exactly when that stream is not at the start of a line.",
  ["inputs", "programs"], "all control strings of up to three pieces over the directives, their parameters and literal text x argument tuples, and all sequences of output operations on one and on several streams",
  "A formatting defect needs a combination of directive, parameters, argument and what the stream received before.",
  ["format.go", "world.go", "io.go"], [("directives", "format.go: formatSub"), ("line position", "world.go: _WriterNode, io.go: _OutputFileStream"), ("destinations", "format.go: tAndNilToWriter")],
  technique="exhaustive enumeration of control strings, argument tuples and operation sequences executed on the real interpreter, compared with a reference formatter",
  note="The text of ~a and ~s for floats, truncated directives and negative widths are left open; float directives without precision are judged by the law that the text denotes the number.")
p("P19", "Input streams give each character once, in order, then end of stream",
  "On every string, file or standard input stream, any sequence of read, read-line and read-char consumes exactly the characters of its datum, line or character from the front; the end of the stream gives the end-of-stream error or the eof value as the arguments say, again and again; with-standard-input makes a stream the standard input during its body and the previous one is back after every kind of exit; a failing or closed file is an error and never looks like the end.",
  ["inputs", "programs"], "all texts of up to 4 (thorough 5) characters x all sequences of up to 4 read operations on every kind of stream, all nests of with-standard-input with every exit, long texts around the buffer sizes, and faults",
  "The position after each operation depends on the text and on all operations before.",
  ["io.go", "pkg/parser/tokenize.go", "world.go"], [("reading", "io.go: funRead, funReadLine, funReadChar"), ("standard input", "io.go: cmdWithStandardInput"), ("tokens", "pkg/parser/tokenize.go")],
  technique="exhaustive enumeration of texts x operation sequences and of with-standard-input nests executed on the real interpreter, compared with a cursor model",
  note="Carriage returns before newlines and the position after a read error are left open.")
p("P20", "Written output arrives completely and in order, or the program is told",
  "What is written to a file through open-output-file or with-open-output-file is, after the close or any exit from the form, exactly the file's contents; writing to a closed stream is an error, closing twice is not; no exit leaves the file open; whenever the file or the standard output cannot take a byte - at any position, also when buffered data is flushed by the close - an error is reported and what arrived is a prefix of the output; probe-file and file-length agree with the files.",
  ["programs", "faults"], "all sessions of up to 4 (thorough 5) file operations on two files and streams, every write pattern x every size limit around it and the buffer boundaries, a standard output failing after every number of bytes, and every exit",
  "A lost write error shows only when a fault hits a particular byte, buffer boundary or exit.",
  ["io.go", "format.go", "world.go"], [("output files", "io.go: _OutputFileStream, cmdWithOpenOutputFile"), ("write errors", "format.go: formatWriter")],
  technique="exhaustive enumeration of operation sequences and of fault positions injected into the real code (file size limits, full device, failing writer), compared with a file model",
  note="What a file holds while a stream writes to it is left open; two writers of one file are not explored.")
p("P21", "A call takes exactly its arguments, and a wrong number is a program error",
  "Calling any function - built-in, lambda, defun, flet, labels, generic or macro; directly, through funcall or apply - with a number of arguments its lambda list does not accept is always a <program-error>, in every state and whatever the arguments are, and its body does not start; with an accepted number every parameter gets exactly its argument, and a rest parameter the fresh list of all the others.",
  ["programs"], "every built-in function x every number of arguments around its own x ways of calling, and all user functions with up to three parameters x all argument counts x ways of defining and calling",
  "A lost or surplus argument that is ignored shows only when a call has one, and nobody writes such calls in tests.",
  ["expect.go", "lambda.go", "operator.go", "generic.go", "macro.go", "embed/*.lsp"],
  [("built-in functions", "expect.go, operator.go: Function*.Call, SpecialF, tool functions with their argument counts"), ("user functions", "lambda.go: _Lambda.Call"), ("generic functions", "generic.go: Generic.Call"), ("macros", "macro.go: _Macro.Call")],
  technique="exhaustive enumeration of functions x argument counts x ways of calling on the real interpreter against the arity table of the language, plus program grammars against the reference model",
  note="The index counts of aref and set-aref (which accept partial indices), and of functions the repository extends on purpose, are left open.")
p("P29", "An argument of a wrong class is a domain error that names it",
  "A function called with an argument of a class it does not accept signals a <domain-error> whose domain-error-object is that very argument, before the function has any effect; with the right classes it does not signal one.",
  ["inputs"], "every built-in function x every argument position x one object of every kind, the other arguments valid",
  "The tests call functions with wrong arguments in a few places; each function and position decides it by code of its own.",
  ["expect.go", "operator.go", "cons.go", "sequence.go", "string.go", "array.go", "class.go", "io.go", "format.go", "embed/*.lsp"],
  [("class checks", "expect.go: ExpectClass and the like"), ("domain errors", "error.go: DomainError")],
  technique="exhaustive enumeration of functions x argument positions x object kinds on the real interpreter against a table of accepted classes",
  note="Skipped where the repository extends the language or leaves it open on purpose: sign and zero predicates, the cadr family, nth and nthcdr, strings as sequences, characters and strings as numbers, close.")
p("P22", "Worlds, library and history do not change what a program means",
  "What a program gives in a World does not depend on what other Worlds define or evaluate, before, in between or around it (global variables, which Worlds share by design, aside); nor on which library functions were used before, in which order and in which scope they were used first, nor on the names of the user's own variables; nor on how earlier evaluations ended: after an error, exit, quit, abort or parse error the handlers, catch tags, blocks, dynamic bindings, streams and scopes are those from before.",
  ["programs", "schedules", "fault_sequences"], "all nests of contexts and exits followed by probes of the state, all interleavings of the steps of two Worlds, all nests around an evaluation in another World, all library functions in every order, first-use scope and with every variable name",
  "Left-over state is seen only by a later evaluation, and the library is compiled on first use, so only the history or the neighbour decides.",
  ["world.go", "lambda.go", "error.go", "progn.go", "setq.go", "io.go", "embed/*.lsp", "startup.lsp"],
  [("Worlds", "world.go: New, _RootWorld"), ("library", "lambda.go: LispString; embed/*.lsp"), ("evaluation state", "world.go: shared")],
  technique="exhaustive enumeration of histories, of interleavings of two real interpreters and of library uses, each compared with the same program run alone in a new World",
  note="Worlds in different goroutines are not explored.")
p("P26", "An evaluation whose context is cancelled ends at once, leaving the World intact",
  "Whenever its context is cancelled or its deadline passes, an evaluation - in any loop, recursion or library function, under any handler, ignore-errors, catch or cleanup form - ends at its next step with the context's error; nothing is evaluated further, handlers do not see it, and afterwards the World evaluates every program as if the cancelled one had not been started, its completed definitions aside.",
  ["programs", "fault_sequences"], "all programs up to the bound cancelled at every single poll, all endless loops in all contexts, the first evaluation of a World cancelled at every poll",
  "The moment of the cancellation decides which frames, handlers and half-made definitions are there; tests cannot try each.",
  ["utils.go", "lambda.go", "progn.go", "generic.go", "world.go", "error.go"],
  [("polls", "utils.go: checkContext and its callers"), ("exits", "error.go: isExit"), ("first evaluation", "world.go: InterpretNodes")],
  technique="exhaustive fault injection: each enumerated program is run on the real interpreter once per poll of its context, cancelled exactly there, and the World is then probed and the program run again",
  note="Blocking system calls are not interrupted; cleanup forms run under the cancelled context too.")
p("P27", "The Go interface means what the language means",
  "A host that works through the Go interface gets what the corresponding program would: scopes made with Let and Flet are let and flet, Get, Set, DefineGlobal and GetFunc are references, setq, defglobal and #', a host's Function is called with the evaluated arguments its limits allow and a SpecialF with the operands as written, a Go error passes through every form like any error and comes back as itself, Interpret, InterpretBytes, InterpretNodes and Eval agree, Range and Assert report what a program sees, symbols are equal exactly if their names are and a gensym equals no other symbol, and host and program share one output position.",
  ["programs", "histories"], "all chains of scopes x all sequences of evaluations and interface calls in any of them; all argument limits and counts; all nests around a Go error; all sequences of host and program output",
  "Scopes of both sides interleave; each pair of mechanisms alone works in the tests, the defects need a nest or a sequence.",
  ["world.go", "lambda.go", "functionref.go", "error.go", "atom.go", "utils.go"],
  [("scopes", "world.go: Let, Flet, Range"), ("calls", "functionref.go: Function, Function0, Function1, Function2, SpecialF"), ("symbols", "atom.go: NewSymbol, funGensym")],
  technique="exhaustive enumeration of histories of interface calls and evaluations on the real interpreter, each compared with the same history in a reference model of scopes",
  note="One goroutine.")
p("P30", "The command runs a script as the program it contains",
  "Started on a file (with or without a first line #!... or @...), with -e or through a script that loads it, the command evaluates exactly the forms of the script, in order; they see the arguments in *posix-argv*, the standard input and what loaded files defined; what was printed before the end is on the standard and the error output, the exit status is 0 when the script ends or exits and 1, with a message on the error output, when an error ends it.",
  ["programs", "command_lines"], "all scripts of up to 3 forms out of output, input, definitions, errors, exits and load in all contexts x the ways to start them",
  "What a script does depends on where in it, in which file and in which context a form ends it.",
  ["cmd/gmnlisp/main.go", "cmds.go", "world.go", "progn.go", "io.go"],
  [("starting", "cmd/gmnlisp/main.go: mains"), ("loading", "cmds.go: funLoad")],
  technique="exhaustive enumeration of scripts and ways to start them, each run by the command built from the working tree and compared with a model of its state",
  note="The interactive mode is left out: it needs a terminal.")
p("P31", "The add-on functions subst, =~, =~i, wildcard and command do what they document",
  "subst returns the tree with every part that is OLD replaced by NEW and leaves its arguments alone; =~ and =~i return the strings and positions of all matches and groups of the pattern, whatever patterns were used before; wildcard lists exactly the matching files in order; command runs a program with exactly those arguments on the output and input of the caller and is an error if it fails; arguments of the wrong kind or number are errors.",
  ["programs", "inputs"], "all trees and items up to the bound, all patterns of a grammar x all short strings, all pairs of patterns in one program, all sets of files x all short patterns",
  "Patterns, groups, empty matches, characters of several bytes and shared structure multiply beyond samples.",
  ["pkg/subst/main.go", "pkg/regexp/main.go", "pkg/wildcard/main.go", "pkg/command/main.go"],
  [("tree", "pkg/subst/main.go: subst"), ("matches", "pkg/regexp/main.go"), ("files", "pkg/wildcard/main.go: funWildcard"), ("programs", "pkg/command/main.go: funCommand")],
  technique="exhaustive enumeration of calls on the real interpreter against a reference model of trees and file patterns and Go's regexp semantics, which the add-on documents as its own",
  note="Of patterns with * and ? only ASCII names; command runs only the command itself.")
