import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = {
    "modeling": {"sources": ["lib/Modeling/**/*.cpp"]},
    "lexer": {"sources": ["lib/Lexer/*.cpp", "lib/Parser/BaseModelica/StateMachine.cpp", "lib/Parser/BaseModelica/Token.cpp"]},
    "parser": {"sources": ["lib/Lexer/*.cpp", "lib/Parser/BaseModelica/*.cpp", "lib/AST/*.cpp", "lib/AST/BaseModelica/*.cpp"]},
    "varfilter": {"sources": ["lib/Lexer/*.cpp", "lib/VariableFilter/*.cpp"], "exclude": ["lib/VariableFilter/VariableFilter.cpp"]},
    # Written for the next release of clang: compiled with a header that bridges the difference.
    "varfilter-main": {"sources": ["lib/VariableFilter/VariableFilter.cpp"], "extra": "-include %s/harness/vfcompat.h" % VERIF},
    # The compiler proper (see tools/mlirshim.py).
    "dialects": {"mid": "mid", "sources": ["lib/Dialect/BaseModelica/IR/*.cpp", "lib/Dialect/BaseModelica/Analysis/*.cpp"]},
    "dialects0": {"mid": "mid0", "sources": ["lib/Dialect/%s/IR/*.cpp" % d for d in
                  ("Modeling", "Runtime", "IDA", "KINSOL", "SUNDIALS")]},
    "transforms": {"mid": "mid", "sources": ["lib/Dialect/BaseModelica/Transforms/**/*.cpp"],
                   "exclude": ["lib/Dialect/BaseModelica/Transforms/%s.cpp" % f for f in
                               ("BufferizableOpInterfaceImpl", "AllInterfaces")]},
    "lowering": {"mid": "mid", "sources": ["lib/Codegen/Lowering/**/*.cpp"]},
    "conversion": {"mid": "mid", "sources": ["lib/Codegen/Conversion/**/*.cpp"], "exclude": ["lib/Codegen/Conversion/AllToLLVM/*.cpp"]},
    "io": {"sources": ["lib/IO/*.cpp"]},
}
BINARIES = {
    "fold": {"harness": ["mid/fold.cpp", "mid/bridge.cpp"], "groups": ["modeling", "dialects", "dialects0", "transforms"], "flavor": "mid", "libs": ["mlirso", "llvm"]},
    "lower": {"harness": ["mid/lower.cpp", "mid/bridge.cpp"], "groups": ["modeling", "dialects", "dialects0", "transforms", "conversion", "varfilter", "varfilter-main"], "flavor": "mid", "libs": ["mlirso", "llvm"]},
    "derive": {"harness": ["mid/derive.cpp", "mid/bridge.cpp"], "groups": ["modeling", "dialects", "dialects0", "transforms"], "flavor": "mid", "libs": ["mlirso", "llvm"]},
    "t1": {"harness": ["mid/t1.cpp", "mid/bridge.cpp"], "groups": ["modeling", "dialects", "dialects0", "transforms", "lowering", "parser", "conversion", "varfilter", "varfilter-main"], "flavor": "mid", "libs": ["mlirso", "clang", "llvm"]},
    "indexset": {"harness": ["indexset.cpp"], "groups": ["modeling"], "flavor": "asan"},
    "rtree": {"harness": ["rtree.cpp"], "groups": ["modeling"], "flavor": "asan"},
    "access": {"harness": ["access.cpp"], "groups": ["modeling"], "flavor": "asan"},
    "combine": {"harness": ["combine.cpp"], "groups": ["modeling"], "flavor": "asan"},
    "mcim": {"harness": ["mcim.cpp"], "groups": ["modeling"], "flavor": "asan"},
    "localmatch": {"harness": ["localmatch.cpp"], "groups": ["modeling"], "flavor": "asan"},
    "matching": {"harness": ["matching.cpp"], "groups": ["modeling"], "flavor": "opt"},
    "matching-asan": {"harness": ["matching.cpp"], "groups": ["modeling"], "flavor": "asan", "extra": "-DMC_STRIDE=13"},
    "dependency": {"harness": ["dependency.cpp"], "groups": ["modeling"], "flavor": "opt"},
    "dependency-asan": {"harness": ["dependency.cpp"], "groups": ["modeling"], "flavor": "asan", "extra": "-DMC_STRIDE=13"},
    "scheduling": {"harness": ["scheduling.cpp"], "groups": ["modeling"], "flavor": "opt"},
    "scheduling-asan": {"harness": ["scheduling.cpp"], "groups": ["modeling"], "flavor": "asan", "extra": "-DMC_STRIDE=13"},
    "graph": {"harness": ["graph.cpp"], "groups": ["modeling"], "flavor": "asan"},
    "schedules": {"harness": ["schedules.cpp"], "runtime": ["schedrt.cpp"], "groups": ["modeling"], "flavor": "sched", "libs": ["isolated"]},
    "lexer": {"harness": ["lexer.cpp"], "groups": ["lexer"], "flavor": "asan", "libs": ["llvm"]},
    "parser": {"harness": ["parser.cpp"], "groups": ["parser"], "flavor": "opt", "libs": ["clang", "llvm"]},
    "parser-asan": {"harness": ["parser.cpp"], "groups": ["parser"], "flavor": "asan", "extra": "-DMC_SHIFT=1", "libs": ["clang", "llvm"]},
    "varfilter": {"harness": ["varfilter.cpp"], "groups": ["varfilter", "varfilter-main"], "flavor": "opt", "libs": ["clang", "llvm"]},
    "varfilter-asan": {"harness": ["varfilter.cpp"], "groups": ["varfilter", "varfilter-main"], "flavor": "asan", "extra": "-DMC_SHIFT=1", "libs": ["clang", "llvm"]},
    "io": {"harness": ["io.cpp"], "groups": ["io"], "flavor": "opt", "libs": ["llvm"]},
    "ranges": {"harness": ["ranges.cpp"], "groups": ["modeling"], "flavor": "asan"},
}

_SAN = "The real sources are compiled with AddressSanitizer and UndefinedBehaviourSanitizer; a crash or a 15 s CPU stall of a case counts as a failure."

CHECKS = {
    "C01": {"level": "model_checking",
            "technique": "exhaustive exploration of operation histories of the real IndexSet against a point-set model (explicit state, deduplicated)",
            "note": "Exact up to the stated grids and depths; small-scope assumption beyond. " + _SAN,
            "rule": "Every operation applied to every set reached so far (states deduplicated by stored ranges and tree shape); every pair of subsets of small grids for the binary operations; bulk constructions over systematic families of ranges. Each result is compared with a set of points through every observer.",
            "assumptions": ["coordinates and ranks beyond the enumerated grids behave like the enumerated ones (small scope)"],
            "runs": [{"bin": "indexset"}]},
    "C02": {"level": "model_checking",
            "technique": "exhaustive exploration of operation histories of the real R-tree with invariants on every reached tree",
            "note": "Exact up to the stated object alphabet and depth. " + _SAN,
            "rule": "All insert/remove/bulk-load/copy/move/clear sequences up to the depth bound, from the empty tree and from populated multi-level trees; node bounding boxes, fan-outs, parents, enumeration and queries checked on every state.",
            "assumptions": ["objects beyond the alphabet behave like the enumerated ones (small scope)"],
            "runs": [{"bin": "rtree"}]},
    "C03": {"level": "model_checking",
            "technique": "exhaustive enumeration of all pairs/triples of small ranges and points against their denotation",
            "note": "Exact within the enumerated coordinates and ranks. " + _SAN,
            "rule": "Every pair of ranges / multidimensional ranges / points over small coordinates (rank up to 3) and every triple for the order axioms; operations compared with sets of points.",
            "assumptions": ["coordinates beyond the enumerated ones behave alike (small scope)"],
            "runs": [{"bin": "ranges"}]},
    "C04": {"level": "model_checking",
            "technique": "exhaustive enumeration of access functions x domains x accessed sets against direct evaluation of the expressions",
            "note": "Exact within the expression grammar and grids. " + _SAN,
            "rule": "Every tuple of up to 3 expressions of the grammar over 0 to 3 dimensions; every point and subset of a small grid as domain; every accessed subset of the image (plus one point outside) with every parent subset; all pairs for equality.",
            "assumptions": ["expressions beyond the grammar behave alike (small scope)", "inverse images are specified for single-valued accesses only"],
            "runs": [{"bin": "access"}]},
    "C05": {"level": "model_checking",
            "technique": "exhaustive enumeration of pairs of access functions against composition of their evaluations",
            "note": "Exact within the expression grammar. " + _SAN,
            "rule": "Every compatible pair of access functions of the grammar (1 to 3 dimensions and results), evaluated on every point of a grid; a multi-valued result may be used at most once by the second function, as the representation cannot express shared choices.",
            "assumptions": ["expressions beyond the grammar behave alike (small scope)"],
            "runs": [{"bin": "combine"}]},
    "C06": {"level": "model_checking",
            "technique": "exhaustive exploration of operation histories of the real MCIM against a set-of-pairs model",
            "note": "Exact for the stated spaces, access functions and depth. " + _SAN,
            "rule": "All sequences of 3 operations (4 over a reduced alphabet in the thorough tier) from an alphabet of about 60 (apply over the whole space or subsets, set, unset, +=, -=, filters, change of spaces, copy/move, clear, self operations) over four pairs of spaces of rank 1 and 2; after every operation the matrix is read at all coordinates and through all observers, filtered by every subset, compared with matrices differing at each coordinate, and split in groups.",
            "assumptions": ["spaces and access functions beyond the enumerated ones behave alike (small scope)"],
            "runs": [{"bin": "mcim"}]},
    "C07": {"level": "model_checking",
            "technique": "exhaustive enumeration of equation/variable index sets and access functions; all solutions compared with the incidence relation",
            "note": "Exact for the stated grids and access functions. " + _SAN,
            "rule": "All non-empty subsets of small grids (rank 1 to 3) as equations, families of subsets as variables, all the sequences of 1 to 3 accesses; forward and random-access enumeration of the solutions, from the accesses and from the matrix.",
            "assumptions": ["index sets and accesses beyond the enumerated ones behave alike (small scope)"],
            "runs": [{"bin": "localmatch"}]},
    "C08": {"level": "model_checking",
            "technique": "exhaustive enumeration of small systems of array equations; matching compared with brute-force bipartite matching of the scalar graph",
            "note": "Exact for the stated shapes of variables and equations and choices of accesses. One system out of 13 is run again in a build with the sanitizers.",
            "rule": "Every bipartite graph of up to 3x3 scalars; for systems of 1 to 3 arrays (rank 1 and 2, also non contiguous) every choice of up to 2 or 3 accesses per equation from a menu (identity, shifts, reversal, constants, ranges), solved with 5 combinations of options.",
            "assumptions": ["bigger systems behave alike (small scope)", "two families of systems are visited with a fixed stride in the quick tier, in full in the thorough one"],
            "runs": [{"bin": "matching"}, {"bin": "matching-asan"}]},
    "C10": {"level": "model_checking",
            "technique": "stateless exploration of the thread interleavings of the real code under a controlled scheduler (deviation-bounded), with a happens-before race check of every memory access",
            "note": "Exact for the listed systems and number of deviations. MLIR's own thread pool and uniquing of attributes are replaced by, or opaque to, the scheduler.",
            "rule": "The elements of each parallel region become tasks switched at mutex, read-write lock and atomic operations (all that matters once free of data races, which is checked). For each system, three base schedules (ascending, descending, round robin) and all those with 1 or 2 deviations from them; the result of each is judged by the oracles of C08, C11 and C12; deadlocks, unlocks of free mutexes and data races are reported.",
            "assumptions": ["schedules further from the base ones and bigger systems behave alike", "the traits and MLIR's uniquing of affine expressions are thread safe"],
            "runs": [{"bin": "schedules"}]},
    "C11": {"level": "model_checking",
            "technique": "exhaustive enumeration of small matched systems; array-level, scalar and partitioned dependency graphs compared with the scalar dependency relation",
            "note": "Exact for the stated shapes of systems and menus of accesses. One system out of 13 is run again in a build with the sanitizers.",
            "rule": "For systems of 1 to 4 arrays (rank 1 to 3, also non contiguous, strided, reversed, or sharing a variable) every choice of up to 2 or 3 read accesses per equation from a menu (identity, shifts, reversal, constants, ranges). Array graph: components and their order; scalar graph: instances and post order; partitioned components: disjoint, complete, containing each scalar cycle, and acyclic once contracted.",
            "assumptions": ["bigger systems behave alike (small scope)", "some families of three equations are visited with a fixed stride"],
            "runs": [{"bin": "dependency"}, {"bin": "dependency-asan"}]},
    "C12": {"level": "model_checking",
            "technique": "exhaustive enumeration of small matched systems; the schedule is simulated instance by instance in every allowed loop direction",
            "note": "Exact for the stated shapes of systems and menus of accesses. One system out of 13 is run again in a build with the sanitizers.",
            "rule": "The systems of C11, split in components both by array equation and by partition, given to the scheduler in all the orders (three orders beyond three components); each schedule is run on the scalar dependency relation, for all the directions it allows.",
            "assumptions": ["bigger systems behave alike (small scope)", "the loops of an equation are nested in the order of its dimensions"],
            "runs": [{"bin": "scheduling"}, {"bin": "scheduling-asan"}]},
    "C14": {"level": "model_checking",
            "technique": "exhaustive exploration of histories of the real graphs against an adjacency-list model; all small digraphs for the components",
            "note": "Exact for the stated depths and sizes. " + _SAN,
            "rule": "All the histories of additions of vertices and edges (parallel edges and, if directed, self loops) and removals of vertices: 6 operations from the empty graph (7 thorough), 4/5 more from three vertices; every observer, plain and filtered, write-through of the properties, and number of live properties. All the digraphs up to 3 vertices (4 without self loops; all of them thorough) for the single-entry graphs and their components, all the dependency relations on 3 elements (a seventh of those on 4) for the order of the components.",
            "assumptions": ["bigger graphs and longer histories behave alike (small scope)"],
            "runs": [{"bin": "graph"}]},
    "C15": {"level": "model_checking",
            "technique": "exhaustive exploration of the real lexer automaton over all the texts up to a length, against a reference longest-match tokenisation",
            "note": "Exact up to the stated lengths and alphabets. " + _SAN,
            "rule": "All the texts up to 4 to 9 characters (up to 11 thorough) over 8 alphabets stressing operators, numbers, strings, quoted identifiers, comments and identifiers; all 3-character printable texts; every byte; all pairs and triples of 56 token spellings with separators; every keyword, its edits by one character and all the pairs of keywords. Kinds and contents of the tokens are compared up to the first malformed lexeme, which must yield an error; after it, the lexer must reach the end.",
            "assumptions": ["longer texts behave alike: the automaton looks at one character of lookahead (small scope)"],
            "runs": [{"bin": "lexer", "args": ["--prop", "15"]}]},
    "C16": {"level": "model_checking",
            "technique": "exhaustive enumeration of numeric literals through the real lexer against exact integers and correctly rounded doubles",
            "note": "Exact up to the stated lengths; doubles are allowed to be 8 units in the last place away from the correctly rounded value. " + _SAN,
            "rule": "All texts up to 6 (8 thorough) characters over digits, dot, exponent mark and signs; runs of 1 to 30 (60) equal digits at the integral and fractional positions with 6 exponents; all exponents from -345 to 325 for 12 mantissas; scales up to 420 digits; integers around the powers of two and ten; sequences of three literals.",
            "assumptions": ["other digit patterns behave alike (small scope)"],
            "runs": [{"bin": "lexer", "args": ["--prop", "16"]}]},
    "C17": {"level": "model_checking",
            "technique": "exhaustive exploration of the real lexer automaton over all the layouts up to a length, against positions computed from the text",
            "note": "Exact up to the stated lengths and alphabets. " + _SAN,
            "rule": "All texts up to 5 to 7 (9 thorough) pieces over white space, line breaks, comment delimiters, quotes and digits; all pairs of 56 token spellings after and between 11 separators; layouts of up to 300 lines and columns. Beginning and end of each token are compared, only the beginning for the malformed ones.",
            "assumptions": ["longer texts behave alike (small scope)", "columns count characters (a tab is one)"],
            "runs": [{"bin": "lexer", "args": ["--prop", "17"]}]},
    "C18": {"level": "model_checking",
            "technique": "exhaustive exploration of the real parser over all the token sequences up to a length that an incremental Earley recogniser keeps viable, comparing trees with the grammar's derivation",
            "note": "Exact up to the stated lengths and alphabets; the reference grammar is an independent transcription of the language, interpreted by an Earley recogniser. " + _SAN,
            "rule": "All the sentences made of 4 (5 thorough) operands joined by 19 binary operators with optional unary ones; all sentences up to 6 to 11 tokens (8 to 13 thorough) over 14 alphabets of expression tokens (arithmetic, logic, conditionals, calls, generators, subscripts, arrays, derivatives, tuples, constants...).",
            "assumptions": ["longer expressions and other combinations of alphabets behave alike (small scope)"],
            "runs": [{"bin": "parser", "args": ["--prop", "18"]}, {"bin": "parser-asan", "args": ["--prop", "18"]}]},
    "C19": {"level": "model_checking",
            "technique": "exhaustive exploration of the real parser over all the viable token sequences up to a length, each followed by every unviable token, against an Earley recogniser of the language",
            "note": "Exact up to the stated lengths and alphabets; stack exhaustion by very deep nesting is out of scope. " + _SAN,
            "rule": "Every viable token sequence (and every first dead token) of up to 3 to 12 tokens over 36 alphabets and contexts, completed by the context's suffix; every prefix, deletion of 1 to 4 tokens, insertion and substitution by each of all the token spellings (two of them in thorough runs), and exchange of two tokens, of a corpus of programs. Acceptance, diagnostics, completeness of the tree, crashes and hangs are judged.",
            "assumptions": ["longer texts behave alike (small scope)"],
            "runs": [{"bin": "parser", "args": ["--prop", "19"]}, {"bin": "parser-asan", "args": ["--prop", "19"]}]},
    "C20": {"level": "model_checking",
            "technique": "exhaustive exploration of the real parser over all the class contents up to a length that an incremental Earley recogniser keeps viable, comparing trees with the grammar's derivation",
            "note": "Exact up to the stated lengths and alphabets. " + _SAN,
            "rule": "All the sentences up to 5 to 11 tokens or blocks (7 to 13 thorough) over 23 alphabets and contexts: members, prefixes, declarations, modifications, dimensions, if/for/when equations, statements, loops, assignments, sections, external calls, class kinds, nested and multiple classes; and a corpus of programs. Literals identify their position, so that loss, duplication and reordering are seen.",
            "assumptions": ["longer classes behave alike (small scope)", "source locations of nodes are not compared"],
            "runs": [{"bin": "parser", "args": ["--prop", "20"]}, {"bin": "parser-asan", "args": ["--prop", "20"]}]},
    "C21": {"level": "model_checking",
            "technique": "exhaustive exploration of the real filter parser and lookups over all the texts up to a length, against an independent reading of the text",
            "note": "Exact up to the stated lengths and alphabets. VariableFilter.cpp is compiled through a header bridging two releases of clang. Regular expressions whose meaning differs among POSIX implementations are only checked for termination. " + _SAN,
            "rule": "All texts up to 5 pieces (6 thorough) over 16 pieces covering every token; deeper ones for ranges, derivatives, regular expressions (17 pieces) and lists of 15 elements; every pair of 21 numbers around the limits as bounds; every pair of bytes in 4 contexts. Acceptance, diagnostics and the filters of 8 names x ranks 0 to 3, as variables and derivatives, through the parser and through fromString (also copied and moved).",
            "assumptions": ["longer texts and other names behave alike (small scope)", "texts without NUL characters"],
            "runs": [{"bin": "varfilter"}, {"bin": "varfilter-asan"}]},
    "C24": {"level": "model_checking",
            "technique": "exhaustive enumeration of the trees of all the sentences up to a length, cloning each tree and each of its nodes with the real code",
            "note": "Exact for the trees explored; run under AddressSanitizer too, with the original destroyed before the clone is read. " + _SAN,
            "rule": "Every tree of every sentence of the suites of C18 and C20 up to 3 to 10 tokens (5 to 12 thorough) and of a corpus of programs: dump (kinds, contents, order, locations), parent links and node identities of the tree, of its clone and of the clone of each inner node.",
            "assumptions": ["larger trees behave alike (small scope)"],
            "runs": [{"bin": "parser", "args": ["--prop", "24"]}, {"bin": "parser-asan", "args": ["--prop", "24"]}]},
    "C26": {"level": "model_checking",
            "technique": "exhaustive enumeration of the file names up to a length and of structured paths, against the table of extensions",
            "note": "Exact up to the stated lengths and alphabets.",
            "rule": "Every file name of up to 6 characters (7 thorough) over 9 characters spelling all the known extensions, 11 directories x 14 stems x 41 extensions, and the accessors of input files of every kind.",
            "assumptions": ["longer names and other characters behave alike (small scope)"],
            "runs": [{"bin": "io", "args": ["--prop", "26"]}]},
    "C27": {"level": "model_checking",
            "technique": "exhaustive enumeration of command lines up to a length, executed for real, against what the executed process observes",
            "note": "The executed program is the harness itself; files are kept in a scratch directory.",
            "rule": "Every sequence of up to 2 arguments (3 thorough) among 13 (spaces, quotes, shell metacharacters, line breaks, empty) x 3 ways of appending; every subset of redirections x every argument, run once and twice; exit status and missing program.",
            "assumptions": ["other arguments behave alike (small scope)", "empty arguments are dropped, as the code does on purpose"],
            "runs": [{"bin": "io", "args": ["--prop", "27"]}]},
    "C28": {"level": "model_checking",
            "technique": "exhaustive enumeration of small programs of the intermediate representation, executed by a reference interpreter before and after the real rewriting",
            "note": "The folders, the canonicalization patterns and the distribution passes of the repository run on every program through MLIR's own driver.",
            "rule": "Every operation on every pair of constants of a set of 31; every tree of two operations over constants and variables; every tree of up to three operations below a negation, multiplication or division being distributed; every range of a set under every operation; tensors of constants; every chain of up to three views over shapes of up to three dimensions.",
            "assumptions": ["larger programs behave alike (small scope)", "programs whose original evaluation is undefined (division by zero, overflow, out of bounds) only have to be processed", "real results are compared up to rounding"],
            "runs": [{"bin": "fold", "args": []}]},
    "C29": {"level": "model_checking",
            "technique": "exhaustive enumeration of small programs of the intermediate representation, executed by a reference interpreter before and after the real lowering",
            "note": "Range inference, explicit casts and the conversion to the arith, math, tensor, linalg, scf and runtime dialects run on every program; both sides are executed. The lowering of some tensor operations is pinned by the repository's own tests to a wrong result: see the findings.",
            "rule": "Every operation on every combination of types and of a set of values, every tree of two operations, every range and reduction of a set, every tensor operation over twelve shapes (static, dynamic, empty) and three element types, every list of subscripts.",
            "assumptions": ["larger programs behave alike (small scope)", "tensor programs that the conversion refuses are counted, not judged; scalar ones must be lowered", "the functions of the runtime library compute what their names say", "real results are compared up to rounding"],
            "runs": [{"bin": "lower", "args": []}]},
    "C30": {"level": "model_checking",
            "technique": "exhaustive enumeration of small functions and equations, differentiated by the real compiler and executed by a reference interpreter with dual numbers",
            "note": "Time derivatives of functions (first and second order), partial derivatives of functions (first and second order), derivatives of der(expression) within functions and time derivatives of the equations of models, as index reduction asks for them.",
            "rule": "Every expression of two operations among 35 over variables and constants, every sequence of assignments of a set with branches and loops, arrays static and dynamic, reductions, calls, every position of the inputs among the variables; at 12 points each (40 in the thorough tier).",
            "assumptions": ["larger expressions behave alike (small scope)", "the points where the function has no derivative are skipped", "powers whose real exponent varies are judged where the derivative exists only (the base is positive)", "expressions with operations that have no derivative may be refused"],
            "runs": [{"bin": "derive", "args": []}]},
}
