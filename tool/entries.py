# ---------------------------------------------------------------- divisor finders
DIVFILES = ["DivList.h", "KDTree.h", "BinaryKDTree.h", "PackedKDTree.h", "KDEntryArray.h", "DivMask.h"]
prop("D01", "Divisor queries report only confirmed divisors and multiples",
     "Every element returned by a divisor query, handed to an output object by an all-divisors or all-multiples "
     "query, or handed out as removed by a remove-multiples call has been confirmed, by the configuration's own "
     "divisibility test applied to exactly that element and the query in the right direction. Divisibility masks, "
     "tree position, sorting and the divisor cache never replace that test.",
     ["inputs", "configurations", "histories"],
     "for every divisor finder (list or k-d tree, every combination of the template switches), content, query and "
     "history of earlier operations",
     "the tests compare a few random runs with a reference finder; a wrong answer that needs a mask collision, a "
     "stale cache or a particular tree shape is not among them",
     DIVFILES, [("findDivisor / findAllDivisors / findAllMultiples / removeMultiples", "KDTree.h"),
                ("leaf scans", "KDEntryArray.h"), ("list scans", "DivList.h")],
     TS, TRUST + "Decided for all paths of all query entry points.")
prop("D02", "A divisibility mask never rules out a real divisor",
     "If one monomial divides another, the mask computed for the first by a mask calculator can divide the mask the same "
     "calculator computes for the second: a mask only gains bits when an exponent grows, two masks are found not to "
     "divide only because of a bit that the first has and the second lacks, and updating a mask to a lower bound leaves "
     "only bits that both masks have. The divides test of an extended element says what the configuration says.",
     ["inputs", "configurations"],
     "for every monomial, exponent, and setting of the calculator's bits",
     "a mask that is wrong for one pair of exponent vectors silently loses an answer; a test would have to hit that pair",
     ["src/mathic/DivMask.h"],
     [("Calculator::compute", "DivMask.h"), ("canDivide / combineAnd", "DivMask.h"),
      ("updateToLowerBound / Extender::divides", "DivMask.h")],
     "static monotonicity dataflow (rising/falling/constant in the exponents) over the compiler IR of compute, and "
     "bit-by-bit evaluation of the comparison terms in a static typestate dataflow",
     TRUST + "The configuration's divides agrees with its exponents. The order of bits and the bounds chosen do not matter.")
prop("D04", "No divisor query overlooks an element it cannot exclude",
     "A divisor query, an all-divisors or all-multiples query, a remove-multiples call and the all-elements walk look "
     "at every subtree and every element of the container, except where the split exponent, a divisibility mask or the "
     "sort order proves that it holds no answer, where an answer already ends the query, or where the output object has "
     "asked to stop. Every element found to be an answer is handed out, once.",
     ["inputs", "configurations", "histories"],
     "for every tree shape, content, query and sort setting, in every template configuration",
     "a skipped subtree or a scan that ends one element early loses answers only for some shapes and queries; no unit "
     "test covers the divisor finders at all",
     DIVFILES, [("findDivisor / findAllDivisors / findAllMultiples / removeMultiples / forAll", "BinaryKDTree.h"),
                ("the same", "PackedKDTree.h"), ("leaf scans", "KDEntryArray.h"), ("list scans", "DivList.h"),
                ("canDivide", "DivMask.h")],
     TS, TRUST + "Masks and split exponents are taken to describe the content correctly (D02, D06).")
prop("D05", "A divisor traversal stops on request and leaves nothing behind",
     "After an output object passed to a query or to the all-elements walk has answered that it wants no more, it "
     "is not called again by that operation. When any operation of a k-d tree returns, no pending work of that "
     "traversal is left that a later operation would resume from.",
     ["inputs", "histories", "configurations"],
     "for every content, query, stopping point and later operation, in every template configuration",
     "tests stop at most once, at the first element; stopping in the middle of a deep tree followed by another "
     "query is a history they do not contain",
     DIVFILES, [("proceed() results", "BinaryKDTree.h"), ("proceed() results", "PackedKDTree.h"),
                ("proceed() results", "KDEntryArray.h"), ("proceed() results", "DivList.h")],
     TS, TRUST + "Decided for all paths; an output object that throws is outside the statement.")

# ---------------------------------------------------------------- priority queues
prop("Q01", "A heap neither loses, duplicates nor invents entries",
     "Every push, pop and replacement of the top of a Heap (without deduplication) leaves in its array exactly the "
     "entries that were there before, plus the pushed or replacing one, minus the popped or replaced one, whose value "
     "pop returns. Every entry that is overwritten or cut off on the way is kept and placed in another slot.",
     ["inputs", "histories", "configurations"],
     "for every heap size and content, every outcome of the comparisons and both index schemes",
     "no test uses the heap; which entries move depends on the comparison outcomes, of which samples cover few",
     ["Heap.h", "ComTree.h"], [("push, pop, decreaseTop", "Heap.h"), ("pushBack, popBack", "ComTree.h")],
     TS, TRUST + "Hole typestate over all paths; ComTree growth is taken to preserve slots.")
prop("Q02", "Heap operations keep every entry at most its parent",
     "If no entry of a Heap (without deduplication) compares greater than its parent, the same holds after push, pop "
     "and decreaseTop (with a replacement not greater than the old top): an entry only rises over one it has beaten, "
     "a child only takes the place of its parent when its sibling is not greater, and the last entry is placed only "
     "where the slot above is not less and the slots below are not greater.",
     ["inputs", "histories", "configurations"],
     "for every heap size and content, every outcome of the comparisons and both index schemes",
     "no test uses the heap; the order can break at one size, e.g. where a node has one child, and show much later",
     ["Heap.h", "ComTree.h"], [("moveHoleDown, moveValueUp", "Heap.h"), ("Node", "ComTree.h")],
     TS, TRUST + "Preservation for every slot write on all paths; comparison assumed to be a strict weak order.")

prop("Q04", "A tournament tree keeps the winner of every match",
     "If every match of a TourTree is won by one of its two players whose entry is not less than the other's, and every "
     "player knows its leaf, the same holds after push, pop and decreaseTop (with a replacement not greater than the "
     "old top): every match of a new or changed player up to the root is decided anew by comparing the two entries, "
     "and the matches won by a removed player go to the one that takes over its entry. top() and pop() give the entry "
     "of the winner of the whole tournament.",
     ["inputs", "histories", "configurations"],
     "for every size of the tree, every content and every outcome of the comparisons",
     "the order can break on one side of one size only and shows when the misplaced entry surfaces, many operations "
     "later",
     ["TourTree.h", "ComTree.h"], [("push, pop, decreaseTop", "TourTree.h"), ("Node", "ComTree.h")],
     TS, TRUST + "Preservation for every match written on all paths; comparison assumed to be a strict weak order.")
prop("Q05", "A tournament tree neither loses, duplicates nor invents entries",
     "Every push, pop and decreaseTop of a TourTree leaves exactly the entries that were there before, plus the pushed "
     "or replacing one, minus the popped or replaced one, each held by one player at one leaf; the number of matches "
     "fits the number of players. Players only move in memory while the tree grows, and then every match is updated.",
     ["inputs", "histories", "configurations"],
     "for every size of the tree, every content, every outcome of the comparisons and every step at which it grows",
     "which entries move depends on comparison outcomes and sizes, of which samples cover few; a match that still "
     "refers to freed memory often reads the old content",
     ["TourTree.h"], [("push, pop, decreaseTop, reallocate", "TourTree.h")],
     TS, TRUST + "std::vector is taken at its documented meaning; ComTree growth is taken to preserve slots.")

prop("D07", "The divisor cache of a k-d tree never outlives a change of the tree",
     "With the divisor cache in use, a KDTree answers a query from its cache only with an entry that an earlier query "
     "confirmed as a divisor and that has been kept in place since: every insertion (single, range), removal, "
     "rebuild and clear that changes or moves stored entries leaves nothing remembered, and a query remembers only "
     "what it has just confirmed.",
     ["histories", "configurations"],
     "for every sequence of queries and changes, both tree kinds and every setting of masks, leaf size and automatic "
     "rebuilding",
     "a stale cached pointer usually still points at plausible memory, and only some changes move the remembered entry",
     ["KDTree.h", "BinaryKDTree.h", "PackedKDTree.h"], [("reportChanges, resetNumberOfChangesTillRebuild", "KDTree.h"),
      ("findDivisor", "KDTree.h")],
     TS, TRUST + "Changed-then-remembered typestate over all paths; a removal counts as a change when it says it removed "
     "something.")

prop("D06", "An insertion into a KDTree puts the entry where queries look for it",
     "Inserting into a KDTree stores the entry once, in the leaf (or node) that the comparisons of its exponents with the "
     "splits on the way lead to, without losing or overwriting an entry; when entries are kept in order it goes to the "
     "place the order gives it. Every mask that queries use to cut off a subtree or leaf containing the entry is lowered to "
     "the entry's, and the entry keeps its own mask. When a full node is divided, the entries are divided by the split that "
     "is stored, each part is in order if it has to be, the part with the greater exponents is below the greater side, and "
     "the new node takes the place of the divided one.",
     ["inputs", "histories", "configurations"],
     "for every tree content, every entry, both tree kinds and every setting of masks, leaf size and ordering",
     "the tests insert a few entries in a few orders; a mask not lowered or a split linked wrongly on one path shows only "
     "for a later query that the wrong mask or place happens to mislead",
     DIVFILES, [("insert, splitInsert", "BinaryKDTree.h"), ("insert, splitInsert", "PackedKDTree.h"),
      ("insert, split, push_back", "KDEntryArray.h")],
     TS, TRUST + "One operation from an arbitrary well-formed tree. std::sort, std::upper_bound and std::partition are "
     "taken at their documented meaning; that split() finds a value with entries on both sides (the new one included) is "
     "assumed, since it depends on exponents' values. Building a tree in one go (rebuild) is not part of this property.")

prop("D08", "removeMultiples takes out exactly the multiples it reports",
     "removeMultiples of a KDTree or DivList takes out exactly those entries that the configuration's divides() (or the "
     "exponents) confirmed as multiples, after passing each of them to the output; every other entry stays, once, with "
     "its own mask. The result says whether anything was removed and size() goes down by the number of entries taken "
     "out.",
     ["inputs", "histories", "configurations"],
     "for every content, every monomial, both tree kinds, lists in a vector or linked, and every setting of masks and "
     "leaf size",
     "the tests compare outputs on a few inputs; a wrong gap-closing step needs removed and kept entries in a certain "
     "order in one leaf",
     DIVFILES, [("removeMultiples", "KDEntryArray.h"), ("removeMultiples", "DivList.h"), ("removeMultiples", "BinaryKDTree.h"),
      ("removeMultiples", "PackedKDTree.h")],
     TS, TRUST + "Entries are content tokens that assignment and swapping move; std::list::erase is taken at its "
     "documented meaning. That all multiples are visited is D04's concern.")

prop("D09", "A DivList kept in order stays in order when entries are added",
     "When the configuration asks for order, inserting into a DivList whose entries are in order leaves them in order by "
     "the configuration's isLessThan(): a single entry goes where comparisons with its neighbours (or a search through "
     "the whole list) put it, a range given to an empty list is sorted as a whole before insert() returns. Without "
     "order asked for nothing is promised about places. insert() of one entry adds exactly that entry, once.",
     ["inputs", "histories", "configurations"],
     "for every content in order, every entry and range, lists in a vector or linked, with and without masks",
     "the searches of an ordered list stop where the order says so; the tests insert few entries, so an entry one place "
     "off is rarely behind the stopping point of a query",
     ["DivList.h"], [("insert, insertSort, sortAll", "DivList.h")],
     TS, TRUST + "moveToFront, which gives up the order on purpose, is outside the statement; std::sort, std::list::sort, "
     "std::upper_bound and std::lower_bound are taken at their documented meaning and isLessThan() is taken to be a "
     "strict weak order.")

# ---------------------------------------------------------------- pair queue
PAIRFILES = ["PairQueue.h"]
prop("P01", "Pair data is constructed, current and destroyed exactly once for every column",
     "Every column in a PairQueue holds data constructed for exactly its current pair: it is constructed when the "
     "column is added, recomputed (or destroyed and constructed again) whenever the column moves to another row, and "
     "destroyed exactly once, as the data of the pair it was computed for, when the column leaves the queue - because "
     "it is exhausted, because it is retired, because adding it failed, or because the queue is destroyed.",
     ["histories", "inputs", "fault_sequences"],
     "for every sequence of additions, pops and retirements, every row order, and an exception at any configuration "
     "call, memory allocation or queue operation during an addition",
     "the test uses pair data without a lifetime of its own (a trivially destructible type), so leaks, double "
     "destruction and stale data cannot fail it",
     PAIRFILES, [("addColumnDescending, pop, destructor", "PairQueue.h"),
                 ("ConstructPairDataFunction, DestructPairDataFunction", "PairQueue.h")],
     TS, TRUST + "The tournament tree is an opaque ordered bag; TourTree is taken to hold what was pushed.")
prop("P02", "A failed addColumnDescending leaves the pair queue as it was",
     "If anything throws while a column is added (memory, the pair data construction, the internal queue), the column "
     "count, the retirement records and the queued columns are as before the call and nothing constructed or reserved "
     "for the new column stays behind. A successful call adds exactly one column numbered with the previous column "
     "count, not retired, queued exactly when it has rows, and keeps its memory.",
     ["fault_sequences", "inputs"],
     "for every point at which the call can throw, every range given and every state of the queue before",
     "no test makes any of these calls throw",
     PAIRFILES, [("addColumnDescending and its guards", "PairQueue.h")],
     TS, TRUST + "The internal queue's push is taken to have no effect when it throws.")
prop("P03", "Retired indices are neither recomputed nor presented",
     "With index retirement supported, a column or row index for which retire() was called never again becomes part of "
     "the pair at the top: a column leaves the queue instead of moving to a pair with a retired column or row, and no "
     "pair data is computed for such a pair. An index that was not retired is never treated as retired.",
     ["histories", "inputs"],
     "for every interleaving of additions, retirements and pops",
     "the test retires a few indices in one fixed order; which columns are at a retired row when it is retired varies "
     "with the history",
     PAIRFILES, [("pop, retireIndex, getRetired", "PairQueue.h")],
     TS, TRUST + "A pair retired while it is below the top is only met when it reaches the top, as documented.")
prop("P04", "Pairs are compared and reported as the triples they stand for",
     "Whenever the queue's order is decided, compare() is given, for each of the two columns, its own column index, its "
     "current row and its own data, in the same order as the question asked. topPair(), topPairData(), empty(), "
     "columnCount() and the retirement query report the top column's index, current row and data, the emptiness of the "
     "queue, the number of columns added and what is recorded for the index.",
     ["inputs", "histories", "configurations"],
     "for every state of the queue, for the 1, 2 and 4 byte row representations",
     "the tests check the output of one ordering; a comparison given a stale row or the other column's data is right "
     "for many inputs",
     PAIRFILES, [("Configuration::compare, topPair, topPairData", "PairQueue.h")],
     TS, TRUST)
prop("P05", "Popping removes the top pair and otherwise only retired pairs",
     "pop() moves the top column on by exactly one row, or out of the queue when no row is left, and goes on to further "
     "pairs only while the pair then on top is retired; every other column is left alone and no row is skipped, in "
     "whichever width the rows of the column are stored.",
     ["histories", "inputs"],
     "for every state of the queue, every number and width of rows left and every retirement record",
     "the widths change at 256 and 65536 columns; the test uses two dozen",
     PAIRFILES, [("pop", "PairQueue.h"), ("incrementRowIndex", "PairQueue.h")],
     TS, TRUST)
prop("P06", "A new column holds exactly the given rows, in order",
     "The column that addColumnDescending adds to the queue has as many rows as the given range and its k-th row is the "
     "k-th of that range, for any length of the range and any column index; short row numbers are only used where every "
     "row of the column fits.",
     ["inputs"],
     "for every column index, every length and content of the given range",
     "the tests use columns with at most a few dozen rows; the representation changes at 65535 columns",
     PAIRFILES, [("Column::create", "PairQueue.h"), ("Column::big", "PairQueue.h")],
     TS, TRUST + "Rows are less than the column index, as the documentation requires.")

# ---------------------------------------------------------------- hash table
HASHFILES = ["HashTable.h"]
prop("H01", "A hash table finds a key exactly when it holds it",
     "lookup() returns an entry only after keysEqual() found that entry's own key equal to the key asked for, and no "
     "entry only after all entries of the key's bucket have been compared. insert() adds an entry exactly when no equal "
     "key is there, with the given key and value, in the bucket of that key's hash, and reports truthfully whether it "
     "did; otherwise it returns the entry that is there and changes nothing.",
     ["inputs", "histories", "configurations"],
     "for every content, hash function, bucket length and fill ratio, also when memory runs out",
     "the tests use a handful of keys; chains of several colliding keys and the step that grows the table are sampled "
     "in one configuration",
     HASHFILES, [("lookup, insert, makeNode", "HashTable.h")],
     TS, TRUST + "Key equality and hash are the user's; std::vector and BufferPool are taken at their documented meaning.")
prop("H02", "Growing, removing and clearing a hash table keep every other entry",
     "Growing moves every entry of every bucket exactly once into the bucket of its key's hash in the larger table. "
     "remove() unlinks exactly the given entry; clearing empties every bucket. After every operation, also one that ran "
     "out of memory, the size that buckets are computed with equals the number of buckets there are.",
     ["histories", "inputs", "fault_sequences"],
     "for every number of buckets, chain length and position of the entry in its chain, and every failing allocation",
     "the tests grow the table once and remove from short chains; they never make an allocation fail",
     HASHFILES, [("grow, remove, hardReset, reset", "HashTable.h")],
     TS, TRUST + "A user hash function that throws during growth is outside the statement.")

# ---------------------------------------------------------------- the API as a whole
CG = "call-graph effect analysis over the compiler IR of the library and of all templates"
CF = "type checking of witness programs by the compiler (must compile / must not compile)"
prop("A01", "A configuration is copied once, when the structure is constructed",
     "Every structure copies the configuration it is given exactly once, in its constructor, and works with that copy. "
     "No other operation (queries, insertions, pops, growth, rebuilds, clearing, sorting) copies or assigns a "
     "configuration, so state kept in the stored configuration is the one every operation sees.",
     ["configurations", "histories"],
     "for every operation of every structure, in every template configuration, on every path",
     "copies are invisible to tests whose configurations are stateless",
     ["KDTree.h", "DivList.h", "Geobucket.h", "Heap.h", "TourTree.h", "PairQueue.h", "HashTable.h"],
     [("constructors", "KDTree.h"), ("constructors", "Geobucket.h"), ("constructors", "PairQueue.h")],
     CG, "Counts copy call sites over the whole call graph below each public operation, whatever the path; StlSet (a "
         "comparator copied by std::multiset) is left out. Trusted: clang's IR generation.")
prop("A02", "What is only available as const cannot be changed, and unique things not copied",
     "Through a const reference to a container no entry, key, pair data or configuration can be changed and no changing "
     "operation can be called; keys of a hash table and pair data can never be changed through the handles given out. "
     "Containers that own memory and do not support copying cannot be copied or assigned.",
     ["programs"],
     "for every program that uses the library: such a program does not compile",
     "a test that compiles cannot show that something else does not",
     ["DivList.h", "KDTree.h", "Heap.h", "TourTree.h", "Geobucket.h", "PairQueue.h", "HashTable.h"],
     [("const overloads, ConstEntryOutput", "KDTree.h"), ("const_iterator, ConstEntryOutput", "DivList.h"),
      ("unavailable copy operations", "Geobucket.h")],
     CF, "Each kind of violating use is tried against each container; uses that go around the type system (casts) are "
         "outside the statement. Trusted: the compiler's type checker.")
prop("A03", "Every operation is available with every documented configuration",
     "Every public operation of every container can be used with a configuration that has just the documented members, "
     "in every combination of the compile-time switches, with opaque entries, keys and results that offer only what is "
     "documented; every function this needs is defined.",
     ["configurations"],
     "for every combination of template switches (all enumerated) and every public operation",
     "the tests instantiate a few combinations; operations of templates that nobody calls are not even compiled",
     ["KDTree.h", "BinaryKDTree.h", "PackedKDTree.h", "DivList.h", "Geobucket.h", "GeoFront.h", "Heap.h", "TourTree.h",
      "StlSet.h", "PairQueue.h", "HashTable.h", "CliParser.h", "NameFactory.h"],
     [("public operations", "KDTree.h"), ("public operations", "Geobucket.h"), ("public operations", "CliParser.h")],
     CF, "Archetype configurations in harness/t_api.cpp; 137 to 240 variants type-checked; definedness decided over the "
         "symbols of the library and all instantiations. Trusted: the compiler's type checker.")
prop("C04", "The library prints only where told to and never ends the process",
     "No function of the library writes to standard output, reads standard input, ends the process, opens files or "
     "changes process-wide settings. Text goes to the stream that was passed in; only the display functions and the help "
     "action write to standard error. Errors are reported by exceptions.",
     ["inputs", "histories"],
     "for every call of every function of the library, on every path",
     "a path that prints or exits only in a rare case is not taken by tests",
     ["display.cpp", "HelpAction.cpp", "CliParser.cpp", "ColumnPrinter.cpp", "Timer.cpp", "error.cpp"],
     [("display", "display.cpp"), ("performAction", "HelpAction.cpp"), ("reportError", "error.cpp")],
     CG, "Debug assertions (MATHIC_DEBUG) and the DivMask statistics macro are off. Calls through user callbacks are the "
         "user's. Trusted: clang's IR generation.")

# ---------------------------------------------------------------- the command line
prop("C01", "A command line parameter means what its argument says",
     "A parameter that takes an argument has, from then on, the value the argument stands for: for a switch true for "
     "\"on\" and for no argument and false for \"off\"; for an integer the number whose decimal text is exactly the "
     "argument; for a text the argument itself. Every other argument is rejected by an exception and leaves the value as "
     "it was. The text given for a value is one the parameter accepts as that value, and constructing, setting, "
     "assigning and reading a parameter keep value, name and description.",
     ["inputs"],
     "for every argument and every previous value, on every path of the parameter classes",
     "the texts that are almost a number (signs, leading zeros, spaces, numbers that do not fit) are not ones a test tries",
     ["IntegerParameter.cpp", "BoolParameter.cpp", "StringParameter.cpp", "CliParameter.cpp"],
     [("processArgument", "IntegerParameter.cpp"), ("processArgument", "BoolParameter.cpp"),
      ("valueAsString", "StringParameter.cpp")],
     TS, TRUST + "Texts are opaque values with equality; the stream conversions are uninterpreted, so the check relies on "
         "the standard library to read back the number that it writes.")
prop("C02", "A name or prefix finds exactly what is registered under it",
     "Looking up a name calls the function registered with exactly that name, or finds nothing if there is none (create "
     "raises UnknownNameException). The names with a prefix are all registered names that start with it, once each and in "
     "order. A prefix stands for itself if it is a registered name and otherwise for the only registered name that starts "
     "with it; if there is none UnknownNameException is raised, if there are several AmbiguousNameException.",
     ["inputs", "histories"],
     "for every list of registered names and every name or prefix, on every path",
     "it takes names that are prefixes of each other, in the right order of registration",
     ["NameFactory.h"],
     [("createNullOnUnknown", "NameFactory.h"), ("namesWithPrefix", "NameFactory.h"),
      ("uniqueNameWithPrefix", "NameFactory.h")],
     TS, TRUST + "Texts are opaque values; names are taken to be registered once each, as documented.")
prop("C03", "The command line parser gives every token to whom it belongs",
     "The action made is the one whose name the first token is or abbreviates. Every later token that is not empty counts "
     "once: those before the first one that starts with a dash go to the action as direct options, in one call, in order; "
     "from there on each token with a dash names, by name or prefix, one of the parameters of that action, and that "
     "parameter gets the token after it as its argument, or no argument if there is none or it starts with a dash; other "
     "tokens are errors. No option is dropped, processed twice or given to another parameter; an empty command line "
     "raises UnknownNameException.",
     ["inputs"],
     "for every command line and every set of parameters, on every path of the parser",
     "which token belongs to whom goes wrong only for particular sequences (an option last, two in a row, empty tokens)",
     ["CliParser.cpp"],
     [("parse", "CliParser.cpp"), ("makeParamNames", "CliParser.cpp")],
     TS, TRUST + "Texts, name lookup (C02), actions and parameters are opaque; a parameter list with pointers to distinct "
         "names is assumed.")

# ---------------------------------------------------------------- not applicable
prop("X01", "Over its whole history a queue returns its entries in order",
     "Any sequence of pushes, pops, top replacements and top decreases of a Heap, TourTree, Geobucket, StlQueue, Stl set or "
     "ComTree shows at every point a maximum of what was pushed and not popped, and loses or invents no entry.",
     ["histories", "inputs"],
     "for every sequence of operations",
     "tests run some sequences on some entries",
     ["Heap.h", "TourTree.h", "Geobucket.h", "ComTree.h"], [("push, pop, decreaseTop", "Heap.h")],
     TS, "", na="It quantifies over the contents of an array of unbounded length (every node dominates its children), a "
     "relational invariant over array contents that no static argument in reach bounds; the inductive steps that can be "
     "decided from the source are Q01, Q02 (Heap) and Q04, Q05 (TourTree).")
prop("X02", "Queries agree with a search through all entries after any history",
     "After any history of insertions, removals and rebuilds, the queries of KDTree and DivList give the same answers as "
     "checking every stored entry.",
     ["histories", "inputs"],
     "for every history and query",
     "tests compare with brute force on a few histories",
     DIVFILES, [("findDivisor, findAllDivisors, findAllMultiples", "KDTree.h")],
     TS, "", na="As one statement it needs the tree invariant (every entry on its side of every split above it, masks below "
     "the masks of what they cover, sorted leaves) proved inductively over heap shapes of unbounded depth, which a dataflow "
     "analysis of single operations cannot quantify over. Its parts are claimed: soundness D01, masks D02, coverage D04 and "
     "D05, insertion D06, cache D07, removal D08.")
prop("X03", "Automatic rebuilds keep their amortised cost",
     "With automatic rebuilds on, the number of rebuilds over n insertions and removals is bounded by the logarithm the "
     "rebuild ratio implies, and the cost per operation is amortised logarithmic on random input.",
     ["histories"],
     "for every history",
     "tests do not count rebuilds",
     ["KDTree.h", "DivList.h"], [("reportChanges", "KDTree.h")],
     TS, "", na="A bound on the sum over a history of a floating-point threshold; no sound static argument in reach bounds it.")
prop("X04", "Printed tables and numbers are aligned and correctly rounded",
     "ColumnPrinter pads every cell to the width of its column in the given justification and prints numbers, units and "
     "percentages rounded as documented.",
     ["inputs"],
     "for every table and number",
     "tests print a few tables",
     ["ColumnPrinter.cpp"], [("print, bytesInUnit, percentInteger", "ColumnPrinter.cpp")],
     TS, "", na="It is about the characters of formatted text produced by stream operators, i.e. run-time values; deciding it "
     "statically would amount to evaluating the formatting.")
prop("X05", "The timer measures elapsed time",
     "Timer reports the processor time since its last reset, to the clock's resolution.",
     ["inputs"],
     "for every interval",
     "tests do not time anything",
     ["Timer.cpp"], [("getMilliseconds", "Timer.cpp")],
     TS, "", na="It depends on the clock of the machine, which the source does not determine.")
