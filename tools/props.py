# The single source of properties.jsonl (see tools/gen_meta.py).
M = "lib/Modeling/"
H = "include/marco/Modeling/"


def P(id, title, statement, over, text, why, files, mechanism, observe, hook=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mechanism=mechanism, observe=observe, hook=hook)


PROPS = [
    P("C01", "An index set always denotes exactly its set of points",
      "After any history of insertions, removals, unions, intersections, complements, slices, "
      "projections, dimension prepending/appending and bulk constructions, an index set denotes "
      "exactly the set of points that set algebra prescribes. Containment, overlap, emptiness, "
      "cardinality, rank, equality, iteration (each point exactly once) and the exposed ranges "
      "(pairwise disjoint and covering) all agree with that point set, whatever history produced it.",
      ["histories", "inputs"],
      "Every operation sequence over small grids of rank 1 to 3, every pair of subsets of those grids, "
      "and bulk constructions of tens to hundreds of ranges.",
      "Unit tests fix a handful of sets of one or two ranges; bugs hide in the split/merge/rebalance "
      "paths which depend on the history and on the number of stored ranges.",
      [M + "IndexSet.cpp", H + "IndexSet.h", H + "RTree.h"],
      [("set algebra over disjoint ranges", M + "IndexSet.cpp"), ("R-tree storage", H + "RTree.h")],
      ["public IndexSet API"]),
    P("C02", "The R-tree container behaves as a collection under any history",
      "After any sequence of insertions, removals, bulk loads, copies, moves and clears, an R-tree contains "
      "exactly the objects that were inserted and not removed, each enumerated exactly once. "
      "The bounding box of every node is the smallest one enclosing its content, node fan-outs stay within "
      "the declared minimum and maximum (root excepted) and parent links are consistent. "
      "Containment and overlap queries through the tree agree with a linear scan of its objects.",
      ["histories"],
      "All operation sequences up to a depth over a small alphabet of objects, from the empty tree and from "
      "populated multi-level trees, for several fan-out configurations.",
      "Tests insert a few objects; condensation after removal, node splitting and root collapse depend on "
      "specific multi-step histories.",
      [H + "RTree.h", M + "RTree.cpp"],
      [("split / adjust / condense", H + "RTree.h")],
      ["RTree public and node-traversal API"]),
    P("C03", "Points and ranges obey set and order semantics",
      "Ranges and multidimensional ranges denote exactly the points between their bounds: containment, overlap, "
      "intersection, difference, slicing, size, iteration, mergeability and merging all agree with that "
      "denotation. Equality and inequality are exact complements, comparison is a total order consistent with "
      "equality, and equal values have equal hashes.",
      ["inputs"],
      "Every pair (and triple, for order transitivity) of points, ranges and multidimensional ranges over small "
      "coordinates, including negative ones, up to rank 3.",
      "Tests check single pairs; the guarantees quantify over all pairs, and a wrong comparison on one "
      "relative placement is enough to corrupt index sets.",
      [M + "Range.cpp", M + "MultidimensionalRange.cpp", M + "Point.cpp"],
      [("range algebra", M + "MultidimensionalRange.cpp")],
      ["Range, MultidimensionalRange and Point public API"]),
    P("C04", "Access functions map, invert and compare as the functions they describe",
      "Mapping a point through an access function yields exactly the value of the described expression at that "
      "point, and mapping an index set yields exactly the union of the images of its points, whichever internal "
      "representation was selected. The inverse of an invertible access maps every image back to its origin, and the "
      "inverse image of a set of accessed indices within a parent set (for accesses yielding one point per index) is "
      "exactly the set of parent points whose image is among them. Two accesses compare equal only if they describe the same function.",
      ["inputs"],
      "Every expression tuple over a small grammar (constants, dimensions, +, -, *, /, ranges, index sets), every "
      "small index set as domain, every subset of the image as accessed indices.",
      "Tests exercise a few affine accesses on rectangular domains; each specialised representation has its own map, "
      "inverse and inverse-image code whose agreement is a statement over all expressions and domains.",
      [M + "AccessFunction.cpp", M + "AccessFunctionRotoTranslation.cpp", M + "AccessFunctionGeneric.cpp",
       M + "AccessFunctionAffineConstant.cpp", M + "AccessFunctionConstant.cpp", M + "AccessFunctionAffineMap.cpp",
       M + "DimensionAccess.cpp"],
      [("representation selection", M + "AccessFunction.cpp"), ("per-representation map / inverseMap", M)],
      ["AccessFunction public API"]),
    P("C05", "Composing access functions is function composition",
      "Combining two access functions yields an access function that maps every point to what the second function yields "
      "on the result of the first one, for every combination of constants, dimensions, arithmetic, ranges and index sets. "
      "Combination with the identity changes nothing, and the number of dimensions and results of the outcome are those of "
      "the composition.",
      ["inputs"],
      "Every pair of compatible access functions from a small grammar and every point of a small domain.",
      "Tests compose two roto-translations; generic accesses carry auxiliary iteration spaces which must be merged.",
      [M + "AccessFunction.cpp", M + "DimensionAccess.cpp"],
      [("combine", M + "AccessFunction.cpp")],
      ["AccessFunction::combine, AccessFunction::map"]),
    P("C06", "The incidence matrix is a boolean matrix over indices",
      "The compressed multidimensional incidence matrix between equation indices and variable indices denotes exactly "
      "the set of (equation index, variable index) pairs obtained from the history of element settings, clearings, access "
      "applications, sums and differences. Reading an element, flattening over rows and columns, filtering by rows or "
      "columns, equality and emptiness all agree with that set of pairs.",
      ["histories", "inputs"],
      "Every operation sequence up to a depth on matrices of small equation and variable spaces of rank 1 and 2, "
      "filled element by element and through access functions.",
      "Tests set a few diagonal elements; the group structure (deltas, access keys) is rewritten by each mutation.",
      [M + "MCIM.cpp", M + "MCIMGroup.cpp", M + "MCIMGroupAffineConstant.cpp", M + "MCIMGroupGeneric.cpp",
       M + "MCIMGroupEmpty.cpp"],
      [("grouped compressed storage", M + "MCIM.cpp")],
      ["MCIM public API"]),
    P("C07", "Local matching solutions are valid and complete",
      "Every local solution enumerated for an incidence matrix or for a set of variable accesses is a one-to-one partial "
      "assignment made only of existing incidences. The enumeration terminates, yields exactly the advertised number of "
      "solutions, and yields a solution whenever there is any incidence; together, the solutions cover every incidence that "
      "could be matched.",
      ["inputs"],
      "Every small set of access functions over small equation and variable spaces, and every small boolean matrix.",
      "Tests check a handful of hand-written matrices and accesses.",
      [M + "LocalMatchingSolutions.cpp", M + "LocalMatchingSolutionsMCIM.cpp", M + "LocalMatchingSolutionsVAF.cpp"],
      [("VAF enumeration", M + "LocalMatchingSolutionsVAF.cpp"), ("MCIM enumeration", M + "LocalMatchingSolutionsMCIM.cpp")],
      ["solveLocalMatchingProblem"]),
    P("C08", "Matching succeeds exactly on well-posed systems and is a valid matching",
      "If array matching reports success, every scalar equation is assigned exactly one scalar variable it really accesses "
      "and every scalar variable is assigned to exactly one scalar equation: each block of the solution pairs a set of equation "
      "instances with an equally large set of variable elements that admits a one-to-one assignment along real accesses. Matching, "
      "under every combination of its options (simplification of the leaf nodes, scalarization of the variables accessed by constant "
      "indices and its threshold), succeeds whenever the underlying scalar bipartite graph admits a perfect matching, and fails otherwise.",
      ["inputs", "programs", "schedules"],
      "Every system of up to three array variables and equations with small index spaces and accesses from a small alphabet, "
      "compared with brute-force bipartite matching of the scalarised system.",
      "The repository has no runnable test of matching at all; correctness depends on augmenting-path interplay between several "
      "arrays.",
      [H + "Matching.h", M + "Matching.cpp"],
      [("simplify", H + "Matching.h"), ("augmenting paths", H + "Matching.h")],
      ["MatchingGraph::match"]),
    P("C10", "Parallel construction is correct under every interleaving",
      "Whatever the interleaving of the threads that build matching graphs and dependency graphs and search matchings, components and schedules, the "
      "outcome is correct: no vertex, incidence or dependency is lost or duplicated, a matching found is valid and its success does not "
      "depend on the interleaving, components and schedules respect the same dependencies as those computed sequentially. No interleaving deadlocks or accesses "
      "shared state without synchronisation.",
      ["schedules"],
      "All the interleavings within a bounded number of deviations from three base schedules of the parallel sections, on small systems, each one checked for "
      "data races.",
      "Unit tests run single-threaded; a lost update needs a particular interleaving.",
      [H + "Matching.h", H + "ArrayEquationsDependencyGraph.h", H + "ScalarEquationsDependencyGraph.h", H + "Scheduling.h",
       H + "DependencyGraph.h"],
      [("mutex-protected maps", H + "Matching.h"), ("parallel edge construction", H + "ArrayEquationsDependencyGraph.h")],
      ["graphs, matchings and schedules obtained under a controlled scheduler substituted for the thread pool"]),
    P("C11", "Strongly connected components are exact",
      "For every matched system, every equation instance belongs to exactly one of the reported components; instances that transitively "
      "depend on each other always share a component; equations share a component only if they transitively depend on each other as array equations; "
      "and the components can be ordered such that none depends on a later one. The components of array equations are exactly the strongly "
      "connected components of the equations and are reported in such an order, and the scalar dependency graph visits every "
      "equation instance once, after those it depends on unless they are part of a cycle.",
      ["inputs", "programs"],
      "Every small system of array and scalar equations, compared with a transitive closure of the scalarised system.",
      "No runnable test reaches the dependency graphs beyond a couple of cycles.",
      [H + "DependencyGraph.h", H + "ArrayEquationsDependencyGraph.h", H + "ScalarEquationsDependencyGraph.h",
       H + "SCCsDependencyGraph.h", H + "Dependency.h"],
      [("edge construction", H + "ArrayEquationsDependencyGraph.h"), ("SCC extraction", H + "DependencyGraph.h")],
      ["getSCCs / edges of the dependency graphs"]),
    P("C12", "The schedule respects every data dependency",
      "Scheduling a matched system orders all its equation instances, each exactly once, such that each is computed after every "
      "instance it depends on, unless the two belong to the same component of several equations or depend on each other. An iteration direction is declared for an equation only if "
      "iterating its indices in that direction computes every instance after the instances of the same equation it depends on.",
      ["inputs", "programs"],
      "Every small system of array equations with every choice of matched accesses and read accesses from a small alphabet.",
      "There is no runnable test of scheduling; correctness quantifies over all systems.",
      [H + "Scheduling.h"],
      [("direction inference", H + "Scheduling.h"), ("independent subsets scheduling", H + "Scheduling.h")],
      ["Scheduler::schedule result"]),
    P("C14", "Graph containers and traversals are faithful",
      "After any history of vertex and edge insertions and vertex removals, directed and undirected graphs report exactly the vertices, edges, "
      "outgoing edges and adjacent vertices that were inserted and not removed, also through filtered traversals, and the properties attached to them. "
      "Single-entry graphs hide their entry node from the enumeration of the vertices and expose every vertex through it, and the strongly connected components computed on them are exact.",
      ["histories"],
      "All histories up to a depth over at most 4 vertices, against an adjacency-matrix model.",
      "Tests build one graph each.",
      [H + "Graph.h", H + "SingleEntryDigraph.h", H + "SingleEntryWeaklyConnectedDigraph.h"],
      [("adjacency storage", H + "Graph.h")],
      ["graph public API"]),
    P("C15", "Lexing yields exactly the token sequence of the language",
      "For every input text the lexer produces exactly the token sequence that longest-match tokenisation of the Modelica lexical "
      "grammar prescribes: no character is dropped, duplicated or absorbed by a neighbouring token, comments and white space only separate tokens, "
      "and malformed text yields an error token. Keywords are recognised as such and identifiers and strings keep their exact content.",
      ["inputs"],
      "All strings up to a length over several alphabets of characters (operators, digits and dots, quotes and escapes, comments, letters), and all keyword/identifier adjacencies.",
      "Tests lex one isolated token at a time; absorption bugs need two adjacent tokens.",
      ["lib/Parser/BaseModelica/StateMachine.cpp", "lib/Parser/BaseModelica/Token.cpp", "include/marco/Lexer/Lexer.h"],
      [("character state machine", "lib/Parser/BaseModelica/StateMachine.cpp")],
      ["token stream and token values of the lexer"]),
    P("C16", "Numeric literals have their exact value",
      "The value of an integer literal token is the number it spells, and the value of a floating-point literal token is the spelled "
      "decimal value up to floating-point rounding, for every combination of integral part, fraction and exponent.",
      ["inputs"],
      "All literal spellings up to a length over digits, dot, exponent mark and sign, plus long digit runs.",
      "Tests check about a dozen literals.",
      ["include/marco/Lexer/Lexer.h", "lib/Parser/BaseModelica/StateMachine.cpp", "include/marco/Lexer/FloatLexer.h",
       "include/marco/Lexer/IntegerLexer.h"],
      [("integer accumulation", "include/marco/Lexer/IntegerLexer.h"), ("float accumulation", "include/marco/Lexer/FloatLexer.h")],
      ["token values"]),
    P("C17", "Source locations are exact",
      "The source range attached to each token starts at the line and column of the first character of the token and ends at "
      "that of its last character, for every layout of white space, newlines and comments around and inside tokens.",
      ["inputs"],
      "All sequences of tokens and separators up to a length.",
      "A couple of tests look at the location of one token.",
      ["lib/Parser/BaseModelica/StateMachine.cpp", "include/marco/Lexer/Lexer.h"],
      [("position tracking", "lib/Parser/BaseModelica/StateMachine.cpp")],
      ["token locations"]),
    P("C18", "Expressions parse with the language's precedence and associativity",
      "Parsing an expression yields the tree that the Modelica grammar prescribes: same operators, operand order, precedence, associativity, "
      "unary sign handling, subscripts, call arguments, array constructors and generators. No operand or operator is lost, duplicated or reordered.",
      ["inputs", "programs"],
      "All expressions up to a number of operators over a token alphabet covering every operator class, compared with an independent "
      "precedence-climbing reference.",
      "The parser is not exercised by any runnable test.",
      ["lib/Parser/BaseModelica/Parser.cpp"],
      [("recursive descent by precedence level", "lib/Parser/BaseModelica/Parser.cpp")],
      ["AST of the parsed expression"]),
    P("C19", "The parser accepts or rejects every input and never crashes or hangs",
      "Given any token sequence the parser terminates, and either returns a complete tree or reports an error with a diagnostic; it never "
      "crashes, loops forever, or succeeds with an incomplete tree. Every text of the supported language (declared in the parser's grammar comments and node types) is accepted without diagnostics, "
      "and any other text, including one with missing, misplaced or trailing tokens, is rejected.",
      ["inputs"],
      "All token sequences up to a length from several start contexts (expression, equation, statement, class), and every single-token deletion, insertion and "
      "substitution in a corpus of valid programs.",
      "The parser is not exercised by any runnable test.",
      ["lib/Parser/BaseModelica/Parser.cpp"],
      [("error propagation through optional results", "lib/Parser/BaseModelica/Parser.cpp")],
      ["return value of the parser, process termination"]),
    P("C20", "Class contents are parsed into the right structure",
      "Parsing a class yields a tree with exactly the members (with type, dimensions, prefixes and modifications), equations, initial equations, algorithms, nested classes, "
      "annotations and statements that the text lists, in the same order and in the right sections. Equations and statements of each kind (if, for, when, while, assignment, "
      "break, return, call) contain exactly the conditions and bodies written in the text.",
      ["inputs", "programs"],
      "All combinations of a bounded number of class elements, sections, equation and statement kinds generated from a grammar, compared with the generating derivation.",
      "The parser is not exercised by any runnable test.",
      ["lib/Parser/BaseModelica/Parser.cpp", "lib/AST/BaseModelica"],
      [("class/section/statement parsing", "lib/Parser/BaseModelica/Parser.cpp")],
      ["AST of the parsed class"]),
    P("C21", "Variable filters select exactly the described variables",
      "For every filter text, a variable is selected exactly when the filter names it or a regular expression matches it, a derivative exactly when der(variable) is named or matched, and everything but derivatives when the "
      "filter has no elements. For each mention of a variable the reported index ranges are exactly the requested ones, cut to the rank of the variable or extended with unbounded ones; they are unbounded for variables selected in any other way "
      "(explicit mentions take precedence over regular expressions). Malformed filters, including bounds that can not be represented, are rejected with a diagnostic rather than accepted or crashing.",
      ["inputs"],
      "All filter texts up to a number of tokens over names, subscripts, derivatives, regular expressions and separators, against a reference matcher.",
      "The library cannot be linked by the runnable test-suite.",
      ["lib/VariableFilter/Parser.cpp", "lib/VariableFilter/LexerStateMachine.cpp", "lib/VariableFilter/Tracker.cpp",
       "lib/VariableFilter/Filter.cpp", "lib/VariableFilter/Range.cpp"],
      [("filter grammar", "lib/VariableFilter/Parser.cpp")],
      ["VariableFilter lookup results"]),
    P("C22", "Index and access attributes survive printing and parsing",
      "Every point, range, multidimensional range and index set attribute and every property built from them that is printed in textual IR is parsed back into an equal attribute, and malformed text is rejected "
      "with a diagnostic.",
      ["inputs"],
      "All small ranges and index sets, of rank 1 to 3, including empty ones.",
      "The IR round-trip tests need tools that cannot be built here.",
      ["lib/Dialect/Modeling"],
      [("attribute printers and parsers", "lib/Dialect/Modeling/IR")],
      ["MLIR textual form"]),
    P("C23", "Dialect operations survive printing and parsing",
      "Every operation, type and attribute of the compiler's own intermediate dialects that is printed in textual form is parsed back into an operation with the same operands, attributes, regions and "
      "types, and the verifier accepts it again.",
      ["inputs", "programs"],
      "All operations of the buildable dialects with bounded operand/attribute alternatives.",
      "The IR round-trip tests need tools that cannot be built here.",
      ["lib/Dialect/IDA", "lib/Dialect/KINSOL", "lib/Dialect/SUNDIALS", "lib/Dialect/Modelica"],
      [("custom assembly formats", "lib/Dialect")],
      ["MLIR textual form"]),
    P("C24", "Cloned syntax trees are deep, equal and correctly parented",
      "Cloning a syntax tree node yields an equal tree (same kinds, contents, order and source locations) that shares no node with the original. In the clone, as in any parsed tree, every "
      "child refers to its own parent within the same tree.",
      ["inputs", "programs"],
      "Every tree obtained from the bounded grammars used for the parsing properties.",
      "No test clones a tree.",
      ["lib/AST/BaseModelica", "include/marco/AST/BaseModelica"],
      [("copy constructors and setters", "lib/AST/BaseModelica")],
      ["AST API"]),
    P("C25", "Index reduction differentiates exactly the structurally required equations",
      "Structural index reduction terminates on every structurally non-singular system and returns the derivatives of variables and equations that the reference Pantelides algorithm on the "
      "scalarised system yields, so that the augmented system admits a complete matching of its highest-order derivatives.",
      ["inputs", "programs"],
      "Every small system of scalar and array equations with up to three variables and bounded derivative orders.",
      "No runnable test reaches index reduction.",
      [H + "Pantelides.h"],
      [("augmenting path with differentiation", H + "Pantelides.h")],
      ["PantelidesGraph::run result"]),
    P("C26", "Input files are classified by extension",
      "An input file is classified by its extension as the kind the documentation associates with that extension, regardless of directory names, dots within the name or prefixes, and unknown extensions are not silently "
      "taken for a known kind.",
      ["inputs"],
      "All file names built from a small alphabet of directories, stems and extensions.",
      "No test covers it.",
      ["lib/IO/InputFile.cpp", "include/marco/IO/InputFile.h"],
      [("extension table", "lib/IO/InputFile.cpp")],
      ["InputFile / InputKind API"]),
    P("C27", "External tools receive exactly the arguments and streams they are given",
      "Running an external command passes every non-empty appended argument to the program exactly once, unmodified and in order, without interpretation by a shell; each of the standard streams is redirected to its own file if "
      "requested and inherited otherwise, and the exit status of the program (or a negative value if it could not be run) is returned. Running the same command again behaves the same.",
      ["inputs", "configurations"],
      "All argument lists up to a length over an alphabet of difficult strings, all subsets of redirections, executed for real.",
      "No test covers it.",
      ["lib/IO/Command.cpp"],
      [("argument list and redirections", "lib/IO/Command.cpp")],
      ["argv, standard streams and exit status of the process"]),
    P("C28", "Simplifying an expression does not change its value",
      "For every expression of the intermediate representation (arithmetic, comparisons, logic, conversions, built-in functions, ranges, tensors and their views), constant folding, canonicalization and the distribution of "
      "negations, multiplications and divisions produce a valid program of the same result types that evaluates to the same values wherever the original evaluation is defined, and never crash, whatever the values of the constants.",
      ["inputs", "programs"],
      "All the operations over all combinations of a set of constants and variables, all the trees of two or three operations, all chains of views, executed before and after the rewriting by a reference interpreter.",
      "The tests compare the printed result of a few rewritings; no test evaluates an expression.",
      ["lib/Dialect/BaseModelica/IR/Ops.cpp", "lib/Dialect/BaseModelica/IR/Attributes.cpp", "lib/Dialect/BaseModelica/Transforms/OpDistribution.cpp"],
      [("folders and canonicalization patterns", "lib/Dialect/BaseModelica/IR/Ops.cpp"), ("distribution passes", "lib/Dialect/BaseModelica/Transforms/OpDistribution.cpp")],
      ["values computed by the program before and after"]),
    P("C29", "Lowering an expression does not change its value",
      "For every expression of the intermediate representation (arithmetic, comparisons, logic, conversions, selections, built-in functions, ranges, reductions, tensors, their views and their updates), the code produced by the "
      "conversion to the standard dialects computes the same values as the expression wherever this is defined, for all types of the operands and whatever their values; every well-typed scalar expression is converted.",
      ["inputs", "programs"],
      "All the operations over all combinations of types and values, all the trees of two operations, all the ranges, reductions, shapes and subscripts of a set, executed before and after the conversion.",
      "The tests compare the printed code of a few operations for a few types; nothing executes it.",
      ["lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp", "lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp", "lib/Codegen/Conversion/BaseModelicaToTensor/BaseModelicaToTensor.cpp",
       "lib/Codegen/Conversion/BaseModelicaToMLIRCore/BaseModelicaToMLIRCore.cpp", "lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp", "lib/Dialect/BaseModelica/Transforms/ExplicitCastInsertion.cpp"],
      [("scalar conversions", "lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp"), ("tensor conversions", "lib/Codegen/Conversion/BaseModelicaToTensor/BaseModelicaToTensor.cpp"), ("element-wise operations and products", "lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp")],
      ["values computed by the code produced"]),
    P("C30", "Symbolic derivatives are the derivatives",
      "The functions and equations that the compiler makes by differentiation compute the derivative of what they are made from, wherever it exists: time derivatives of functions up to the second order (inputs, outputs and protected variables, branches, "
      "loops, arrays), partial derivatives of functions up to the second order whatever the order of declaration of the variables, der(expression) within functions, and the time derivatives of the equations of models with respect to all or a part of "
      "the variables. Expressions made only of operations that have a derivative are differentiated.",
      ["inputs", "programs"],
      "All the expressions of two operations, and the sequences of statements of a set, differentiated by the passes of the compiler and executed at a set of points; the expected values come from dual numbers.",
      "The tests compare the printed code of single operations; nothing executes it, and none combines operations, variables and orders.",
      ["lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp", "lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp", "lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp",
       "lib/Dialect/BaseModelica/Transforms/DerivativeChainRule.cpp"],
      [("derivatives of operations", "lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp"), ("derivatives of functions and equations", "lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp"), ("seeds of partial derivatives", "lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp")],
      ["values computed by the derived functions and equations"]),
]

NOT_APPLICABLE = {}
