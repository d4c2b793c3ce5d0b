NA = {}
c("C07","explicit enumeration of all operand pairs over boundary grids, every execution compared with a math/big model",
  "Exhaustive over the stated operand grids (next to every power of two for the integer kinds, exponent/mantissa corners for floats), all kind combinations, 12 operators, via variables, literals, infix and selectors; values outside the grids are not explored.")
c("C14","explicit enumeration of all set/delete histories over small key universes on real hashes, each final (and each intermediate) state compared with an insertion-ordered map model",
  "Exhaustive over all histories up to the stated length for 10 three-key universes (hash-code collisions, equal keys of different types, symbols/strings/ints/chars/arrays), 26 write routes, and pointer copies of two instances; larger universes and longer histories are not explored.")
c("C18", "explicit-state model of package visibility (tree of packages, members, nested hashes) explored exhaustively: every path of at most 7 hops x every read, call and write route x viewpoints x package nestings, each access run on the real interpreter and every member compared with the model through the package's own accessors", "names whose first rune has no case are left open")
c("C17","explicit enumeration of all write routes x field types x values, and of all bounded histories of declarations, constructions, writes and array sharing, on the real interpreter; after each step every live instance is checked deeply (Go representation) against an independent description of the declaration in force when it was made",
  "Exhaustive over 55 write routes x 24 (quick) / 56 (thorough) field types x 125 values, 2500 undeclared keys, all histories of 2 (3 thorough) of 29 steps after 184 prefixes, all histories of 3 (4) of 49 steps on arrays shared with typed fields. nil inside a slice and values of Go variables (var) are left open; a pointer to a slice is judged by the type it got when made.")
c("C19","explicit enumeration of all histories of intern/generate/duplicate/clone operations over interpreter families, each compared with a name-to-symbol bijection model",
  "Exhaustive over histories up to the stated length, families of up to three interpreters, and a name universe chosen around the numbers the generator would use next; longer histories and other names are not explored.")
c("C02","explicit enumeration of all programs of bounded core-language grammars; each is run on the real interpreter and its value, error and host-call trace compared with a direct tree-walking reference evaluator",
  "Exhaustive up to the stated size over 9 program families (control, blocks, loops with labelled break/continue, calls, recursion, data, container histories, arithmetic over boundary operands, everything mixed) and over 7 layouts of 7 of them (comments, tight, infix); about 10^6 programs (quick) and 7*10^6 (thorough). Larger programs and programs outside the families are not explored; programs whose meaning the reference does not define (counted as skipped_unsup) are not compared.")
c("C03","explicit enumeration of all programs of bounded scoping grammars (nested shadowing, closure makers and routes, iterations, recursion); each is run on the real interpreter and compared with a reference evaluator with textbook lexical environments",
  "Exhaustive up to the stated size over six program families in which every binding form shadows the same few names and every closure made is called (twice) after its maker returned; about 5*10^5 programs (quick). Larger programs are not explored.")
c("C09","explicit enumeration of all nests of tail contexts and all step shapes of self-recursive functions; value and effects compared with a reference evaluator without tail calls, high-water marks of the VM stacks, the Go stack and the live heap compared between depths",
  "Exhaustive over nests of up to 3 (quick) / 4 (thorough) of 15 tail contexts x 7 kinds of function, and over step shapes mixing tail and non-tail positions; depths up to 10^5 (quick) / 10^6 (thorough). Constant space is checked by equality of high-water marks at different depths, not proved for all depths.")
c("C16","explicit enumeration of bounded families of lazy and strict calls (parameter lists x call routes x callee bodies x argument expressions, and typed functions with positional/named arguments in every order), each compared with a reference evaluator with call-by-need promises",
  "Exhaustive over 6 parameter lists x 30 call routes x bodies/arguments up to the stated size, and over all typed func declarations of up to 3 (quick) / 4 (thorough) parameters. A # variadic tail is taken as strict; promises passed on explicitly stay promises.")
c("C04","explicit enumeration of bounded program families of the full surface language (catalogue of forms x nests of contexts, sequences of forms, core-language families) run on the real interpreter; the depths of the four VM stacks, the value of empty input, one-at-a-time against together, table sizes and live heap between repetitions are checked after every one",
  "Exhaustive over 261 uses of the forms x 58 contexts nested to depth 1 (quick) / 2 (thorough), all sequences of 2 forms, and twelve core families; programs outside the catalogue's vocabulary are not explored.")
c("C05","explicit enumeration of every fault point: every host call of every core-family program made to fail in each of 8 ways, every failing form in every nest of contexts, every cut of a program text; after each the interpreter is compared with a reference evaluator (or with an untouched twin) on a battery of follow-up programs",
  "Exhaustive over the failing host calls of the core families, 108 failing forms x nests of contexts to depth 1 (quick) / 2 (thorough), texts cut at every byte, and short sequences of failing programs; failures inside builtins other than by their own argument checks are not injected.")
c("C12","explicit enumeration of bounded spaces of data values and of literal spellings; every value is printed by the real printer and read back (and evaluated) by the real reader and compared structurally, every spelling is compared with an independent exact (math/big) reading",
  "Exhaustive over all Unicode characters, all texts of up to 5 (quick) / 6 (thorough) of 17 number fragments, integers next to every power of two and ten, floats of every exponent x 16 (quick) / 172 (thorough) mantissas, strings of up to 3/4 of 33 difficult characters, nests over 80 leaves; other mantissas and longer strings are not explored.")
c("C13","explicit enumeration of all cut positions (one and two cuts, one character at a time) of all bounded texts on the real parser, of all bounded histories of earlier parses, and of REPL sessions of the built interpreter; compared with reading the text whole in a fresh interpreter and with an independent scanner for unfinished texts",
  "Exhaustive over token sequences up to the stated length x every one- and two-cut delivery, every corpus file x every cut, and all histories up to the stated length; more than two cuts are explored only as all pieces of one size.")
c("C11","explicit enumeration of bounded spaces of data values and JSON source texts; each is encoded and decoded by the real codec, the bytes are read by encoding/json and by an independent msgpack reader, and all three are compared with the value member by member in order",
  "Exhaustive over every Unicode character, strings of up to 3 (quick) / 4 (thorough) of 33 difficult characters as values, string and symbol keys, all sequences of 3 of 25 key names under 4 types, integers next to every power of two and ten, floats of every exponent, nests to depth 3-5 over 7 leaves, JSON source texts in 4 layouts; larger values are not explored. Inf and NaN in JSON, and clashing or reserved member names, may be refused.")
c("C01","explicit enumeration of bounded spaces of source texts (bytes, tokens, calls of every name, edited uses of every form, deep and cyclic inputs and data), each handed to every entry point of the real library and to the built command in crash-detecting worker processes",
  "Exhaustive over all texts of up to 2 bytes (3 thorough), token sequences up to 2 (3), every one of 264 names applied to all sequences of 2 of 68 arguments (3 of 18), every single-token edit of 261 forms, 61 kinds of nests and 42 chains 3000 (30000) times, cyclic and shared data x 52 operations. Steps are limited to 20000 per evaluation (an endless loop is not a failure); excluded: operations that block, act on processes or files, or are asked for huge allocations.")
c("C06","explicit enumeration of bounded texts of infix blocks (operators, operands, spacings, selectors, if/for forms, statement sequences, nests); an independent tokeniser and recursive-descent parser written from the documented levels gives the prefix form, compared with the tree of infixExpand and, evaluated in a twin interpreter, with the block's value and effects",
  "Exhaustive over all operator pairs x 8 operands per position x 4 spacings per operator, all sequences of 3-4 (5 thorough) operators, 320 selectors x 22 places, 2300 ifs, 5800 for headers, all 2-3 statements of 27, nests to depth 3 (4) of 13; longer texts are not explored. Texts the documentation leaves open (listed under assumptions) are skipped and counted.")
c("C20","exhaustive exploration of the real interpreter's nondeterminism under a controlled scheduler of map iteration: the harness is built with an overlay of Go's map iterator that starts each iteration where it is told; every bounded program is run in fresh interpreters under every rotation of small maps (and steps between iterations), in several processes and after every other program, and value, printed output, error text and effects are compared",
  "Exhaustive over 261 forms (alone x 16 orders; in 58 contexts x 3), 275 names x 68 arguments (x 18 x 18), 77 operations on hashes of 9 sizes and 4 kinds of keys x 16 orders, operations on every sequence of up to 3 members of a JSON object, records of 8 demo types with up to 2 fields x 26 operations x 11 orders, the corpus files, every form alone in 3 processes, every form (and 544 calls) followed by the forms in one process, forms typed to the zygo command. The random, time and pointer-printing functions are left out; where a program makes a pointer, addresses are compared masked; maps of more than 8 entries are iterated from 8 places.")
c("C15","explicit enumeration of all bounded templates and of all bounded pairs of macro and place of its call on the real interpreter; template values and effects compared with an independent substitution function over the tree, macro calls compared with the hand-written expansion (outcome, effects, bindings, stack depths, names bound) in a twin interpreter",
  "Exhaustive over templates of up to 3 (quick) / 4 (thorough) nodes with 74 leaves and 5 (6) nodes with 5 (7) leaves in 12 places, 22 macros x 257 argument forms x 5 (79) places, 38 macros whose bodies compute, loop, recurse or fail x 79 places (all pairs of them thorough). Deeper templates are not explored; error texts are not compared.")
c("C08","explicit enumeration of all short programs over the names of a sandboxed interpreter (every builtin and word x arguments x routes to a function x compositions) on the real interpreter, every system call, environment access and exit of the process intercepted by an overlay of Go's syscall and os packages; plus every command and argument of the built command line program run with -sandbox as an unprivileged user in a scratch directory that is compared before and after",
  "Exhaustive over every name a sandboxed interpreter knows (in the bare, standard-setup and duplicated configurations) x argument lists, every word of the unsandboxed name table, routes by which a function may be reached, compositions of two functions, and the catalogue of forms; in-process effects that bypass Go's os/syscall packages would be seen only by the check of the command. Host-registered functions are outside.")

c("C10","explicit enumeration of bounded spaces of records (every field of every struct type x values of every kind, pairs of fields, updates after a conversion, failures, method arguments, all object graphs over a fixed set of positions) on the real interpreter; the Go struct it builds and the record it gives back are compared with an independent conversion written from Go's field rules, sharing and cycles included",
  "Exhaustive over every field of 14 Go struct types x values of every kind, every spelling of every field name, ordered pairs of fields, convert / change / fail / convert sequences, method parameters of every kind, every way to fill 12 positions of three records (pointers, values, interfaces, slices, maps, embedded; with cycles; 46656 graphs), chains 3000 deep. Larger graphs and Go types outside the harness's and the demo types are not explored. One recorded finding: time.Time fields come back as nil (existing tests ask for it).")
