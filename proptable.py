# prop(id, title, statement, over, text, why, files, mechanism, technique=, note=, na=)

prop('C01', 'Operations compare equal only if every attribute agrees',
     'Two operations compare equal only if they are of the same kind and every attribute they were constructed '
     'with (types, bit widths, alignments, names, indices, element or case lists, flags, counts) is equal. '
     'Operations of different kinds never compare equal, and an operation compares equal to an identically '
     'constructed one.',
     ['programs', 'inputs'],
     'Every operation class of the IR and every pair of its instances, for arbitrary attribute values.',
     'Unit tests compare a few pairs of a few classes; common-node elimination and reductions merge nodes on the '
     'strength of the comparison for any pair of attribute values, so one attribute left out of one of more than '
     'a hundred classes silently merges different computations.',
     ['jlm/llvm/ir/operators', 'jlm/rvsdg', 'jlm/hls/ir/hls.hpp'],
     [('operator== of every Operation class', 'jlm/llvm/ir/operators/*.cpp, jlm/rvsdg/*.cpp, jlm/hls/ir/hls.hpp')],
     technique='abstract interpretation of every constructor and operator== into value terms; the attributes that '
               'reach the object are computed from the constructors and must each be compared, against the same '
               'attribute of the other object, on every path that answers true',
     note='Sound for the classes analysed up to the term abstraction; loops are treated as universally quantified '
          'over one symbolic index.')

prop('C02', 'Types compare equal only if their components agree',
     'Two IR types compare equal only if they are of the same kind and all their components (widths, sizes, '
     'element, argument and result types, scalability) are equal. The hash of a type depends on nothing but what '
     'equality compares, so equal types always hash equally.',
     ['programs', 'inputs'],
     'Every type class of the IR and every pair of its instances.',
     'Tests compare a handful of types; the comparison decides for any two types whether an edge is well typed '
     'and whether two operations are the same.',
     ['jlm/llvm/ir/types.cpp', 'jlm/llvm/ir/types.hpp', 'jlm/rvsdg/type.hpp', 'jlm/hls/ir/hls.cpp'],
     [('operator== and ComputeHash of every Type class', 'jlm/llvm/ir/types.cpp')],
     technique='the same analysis as for operations, plus a read-set comparison between the hash and the equality',
     note='Same abstraction as C01.')

prop('C03', 'Copies carry every attribute and leave the original untouched',
     'Copying an operation, type-carrying import or export, node or subgraph yields an object of the same kind with '
     'every attribute equal to that of the original. While a structural node is copied, each of its outputs and '
     'inner arguments is mapped to the corresponding one of the copy, and the original graph is not modified.',
     ['programs', 'inputs'],
     'Every operation, node, import and export class and arbitrary attribute values and graphs.',
     'Tests copy a few small graphs; inlining, unrolling, inversion, invariant hoisting and function cloning copy '
     'arbitrary nodes and rely on each attribute and each output mapping.',
     ['jlm/rvsdg', 'jlm/llvm/ir/operators', 'jlm/hls/ir'],
     [('copy functions', 'Operation::copy, Node::copy, Region::copy, GraphImport/GraphExport::Copy')],
     technique='abstract interpretation of every copy function; each field of the new object must be the value term '
               'of that field of the original; an effect analysis over the call graph shows that no mutating '
               'function is called on anything reachable from the original',
     note='Attribute preservation and mapping completeness are decided; that a copied region computes the same '
          'values follows from them but is not itself decided.')

prop('C04', 'LLVM instructions are converted to exactly the operations they denote',
     'For every LLVM instruction of a supported opcode, the conversion of LLVM modules emits exactly the operation '
     'that denotes it: the opcode, comparison predicate or intrinsic, the operand order, the types, volatility, '
     'alignment, indices, shuffle mask, calling convention and argument list are those of the instruction; I/O and '
     'memory states are threaded through every instruction that reads or writes them; branch and switch alternatives '
     'lead to the blocks LLVM names. Instructions of an unsupported opcode are rejected, never silently dropped.',
     ['programs', 'inputs'],
     'Every opcode, predicate, intrinsic and operand shape the converter handles, arbitrary operands and types.',
     'The unit tests convert a few small modules; the converter is a table of more than a hundred independent cases '
     '(opcode times predicate times scalar or vector times volatile times callee kind), most of which no test reaches.',
     ['jlm/llvm/frontend/LlvmModuleConversion.cpp'],
     [('convertInstruction and the per-opcode converters', 'jlm/llvm/frontend/LlvmModuleConversion.cpp')],
     technique='abstract interpretation of convertInstruction for one symbolic instruction per opcode, predicate, intrinsic '
               'and operand shape; the emitted operations, operands and state assignments are compared, as value terms, '
               'with a specification written from the LLVM language reference',
     note='Operand lists, index lists and switch cases are enumerated up to a small length; each case is decided for '
          'symbolic operands. Fast-math and no-wrap flags are outside the property (jlm has no representation for them).')

prop('C05', 'LLVM constants, globals and function bodies are imported faithfully',
     'Every supported LLVM constant is imported as the operation that denotes it, with its type, value and elements in '
     'order; unsupported kinds are rejected. Every global variable and function keeps its name, type, linkage, section, '
     'constness, alignment, calling convention and attributes; every attribute list keeps each attribute in its slot '
     '(function, result, parameter). A function body binds every argument in order, appends the code of every '
     'instruction to its own block in order, completes every phi once per reachable predecessor with the value of that '
     'predecessor, and returns value, I/O state and memory state.',
     ['programs', 'inputs'],
     'Every LLVM constant kind, attribute kind, global and function shape.',
     'Tests import a few modules and look at one or two facts of each; every attribute of every kind of global has to '
     'survive for any module.',
     ['jlm/llvm/frontend/LlvmModuleConversion.cpp', 'jlm/llvm/frontend/LlvmModuleConversion.cpp'],
     [('constants', 'jlm/llvm/frontend/LlvmModuleConversion.cpp ConvertConstant'),
      ('globals, functions, bodies', 'jlm/llvm/frontend/LlvmModuleConversion.cpp')],
     technique='abstract interpretation of the module conversion functions on symbolic globals, functions, attribute lists, '
               'phis and constants; resulting objects and recorded effects are compared as value terms with a specification',
     note='Bounded to a few elements, blocks and phi operands per scenario, symbolic otherwise. What the front end does not '
          'represent at all (thread-local storage, aliases, comdats, visibility) is outside the property.')

prop('C06', 'Structural nodes keep their variables consistent',
     'The accessors of gamma, theta, lambda, phi, delta and loop nodes agree with each other: the variable found from any of '
     'its ports (input, output, region argument, region result) is the one variable that owns that port, and the list '
     'accessors return every variable exactly once, in port order. Adding an entry, exit, loop, context or recursion '
     'variable adds exactly its ports, connected and typed by the given value, in every region; removing variables removes '
     'exactly the ports of those variables.',
     ['programs', 'inputs', 'histories'],
     'Every structural node class, any number of variables and regions, any order of adding.',
     'Tests build a few nodes in one order; every transformation relies on the bookkeeping for any mix of variables, and a '
     'port looked up one position off silently connects the wrong value.',
     ['jlm/rvsdg/gamma.cpp', 'jlm/rvsdg/theta.cpp', 'jlm/rvsdg/lambda.cpp', 'jlm/rvsdg/Phi.cpp', 'jlm/rvsdg/delta.cpp',
      'jlm/hls/ir/hls.cpp'],
     [('variable accessors, Add*, Remove*', 'jlm/rvsdg/gamma.cpp, theta.cpp, lambda.cpp, Phi.cpp, delta.cpp')],
     technique='abstract interpretation of every accessor, adder and remover over a port model (distinguishable ports with '
               'unknown origins, types and contents); each result is compared with the layout the node classes document',
     note='Decided for nodes with zero to three variables and one to three regions, every port of each, symbolic origins and '
          'types. Port creation and index maintenance inside Region and Node are primitives of the model.')

prop('C07', 'Operations are emitted as exactly the LLVM instructions they denote',
     'For every operation class the LLVM back end supports, it emits exactly the instruction or constant that denotes the '
     'operation: opcode, comparison predicate or intrinsic, operand order, result and element types, volatility, alignment, '
     'indices, shuffle mask, calling convention, attributes and argument list, and constant values and data bit for bit at '
     'their width. Operations that only order memory and I/O emit no code, and those that pass a value on yield it.',
     ['programs', 'inputs'],
     'Every operation class of the LLVM dialect, arbitrary operands, types and attribute values.',
     'The unit tests emit a few small modules; the converter is a table of more than eighty operation classes times their '
     'predicates, widths and attribute values, most of which no test reaches.',
     ['jlm/llvm/backend/IpGraphToLlvmConverter.cpp'],
     [('convert_operation and the per-operation converters', 'jlm/llvm/backend/IpGraphToLlvmConverter.cpp')],
     technique='abstract interpretation of the conversion of one symbolic operation per class and attribute shape; the calls '
               'made to the LLVM builder, normalised to the instruction they create, are compared as value terms with a '
               'specification written from the LLVM language reference',
     note='Operand and index lists are enumerated up to a small length and integer constants up to 65 bits; each case is '
          'decided for symbolic operands and types. LLVM\'s builder is trusted.')

prop('C08', 'Function bodies, terminators and globals are emitted faithfully',
     'Every block of a function body is emitted as one block holding the code of its operations in order and ending in exactly '
     'one terminator: a return of the function\'s value, an unconditional branch, or a branch or switch that leads, for every '
     'value of the predicate, to the block of the alternative that value selects. Every phi names, for each of its operands, '
     'the block and value of that predecessor. Every function and global variable is emitted once, with its name, type, '
     'linkage, section, constness, alignment and attributes, and is declared before any body or initialiser refers to it; '
     'the properties of the module are carried over.',
     ['programs', 'inputs'],
     'Every control flow graph, function, global variable and module property.',
     'Tests emit a few functions; which alternative a value selects and which value a phi receives has to be right for every '
     'number of alternatives, predicate width and predecessor order.',
     ['jlm/llvm/backend/IpGraphToLlvmConverter.cpp'],
     [('create_terminator, convert_cfg, convert_ipgraph', 'jlm/llvm/backend/IpGraphToLlvmConverter.cpp')],
     technique='abstract interpretation of the module conversion functions over symbolic blocks, operations, declarations and '
               'attribute sets; resulting terms and the order of recorded effects are compared with a specification',
     note='Bounded to two-block bodies with a loop, up to four alternatives and a few attributes per scenario, symbolic '
          'otherwise. Function result attributes of calls and the order of blocks are outside the property.')

prop('C09', 'Types and enumerations translate one to one',
     'Every linkage, attribute kind, supported calling convention and integer comparison predicate is translated to the one of '
     'the same meaning when a module is read and back to it when the module is written; unsupported calling conventions are '
     'rejected. Every type is translated, in both directions, to the type of the same kind with the same width, precision, '
     'element count, scalability, packing, name, parameter and result types; a struct type met twice is translated to the same '
     'type. Every type factory returns the type it was asked for.',
     ['inputs', 'programs'],
     'Every enumerator and every type of the two type systems, any component types.',
     'The tables have several hundred independent entries and rare kinds; round-trip tests of single entries leave most of '
     'them, and every width but the common ones, unobserved.',
     ['jlm/llvm/ir/TypeConverter.cpp', 'jlm/llvm/frontend/LlvmModuleConversion.cpp',
      'jlm/llvm/backend/IpGraphToLlvmConverter.cpp', 'jlm/llvm/ir/types.cpp', 'jlm/rvsdg/bitstring/type.cpp'],
     [('TypeConverter', 'jlm/llvm/ir/TypeConverter.cpp'), ('enumeration tables', 'LlvmModuleConversion.cpp, '
       'IpGraphToLlvmConverter.cpp'), ('Create of every Type class', 'jlm/llvm/ir/types.cpp')],
     technique='abstract interpretation of each table function for every enumerator, of each type converter for every kind of '
               'type with symbolic components, and of each type factory over its preallocated instances',
     note='Struct and function types with up to two components; address spaces, opaque structs and target types are outside '
          'the property (jlm has no representation for them).')

prop('C10', 'Load, store and memory-state normalizations preserve values and order',
     'When a non-volatile load or store, or a memory state merge, join, split or function-exit merge is normalized, every value '
     'that replaces a result is the value the result had: a loaded value is replaced only by the value the only store its states '
     'come from wrote, with the same type, to the same address; a store is removed only if nothing can observe it, and an earlier '
     'store only if the later one overwrites all of it and nothing else uses its states; every memory state is replaced by one '
     'ordered after the same writes; an I/O barrier is dropped only if the access lies within an allocation known to exist. A '
     'normalization never replaces a node by one just like it.',
     ['inputs', 'programs', 'histories'],
     'Every node of these kinds with up to three operands, each from any of some 16 producers, any further users of the '
     'producers\' outputs.',
     'The normalizations fire on combinations of producers, duplicated and permuted states, and users elsewhere in the graph; '
     'tests try a few graphs per normalization.',
     ['jlm/llvm/ir/operators/Load.cpp', 'jlm/llvm/ir/operators/Store.cpp', 'jlm/llvm/ir/operators/MemoryStateOperations.cpp'],
     [('LoadNonVolatileOperation', 'jlm/llvm/ir/operators/Load.cpp'),
      ('StoreNonVolatileOperation', 'jlm/llvm/ir/operators/Store.cpp'),
      ('memory state operations', 'jlm/llvm/ir/operators/MemoryStateOperations.cpp')],
     technique='abstract interpretation of every normalization function over enumerated symbolic graphs with an independent '
               'derivation of the writes each memory state is ordered after',
     note='Graph depth and operand count are bounded by the enumeration. Every normalization is interpreted on a graph built by '
          'the repository\'s own functions; what replaces a result is read back and judged by an independent definition.')

prop('C11', 'Constant folding computes what the operation would',
     'When an integer arithmetic, bitwise, shift or comparison operation, an integer extension or truncation, a match, a pointer '
     'comparison or an address computation is folded, and when a constant is traced through extensions and truncations, the '
     'result is the value LLVM defines for the operation on these operands: the same bits, for signed and unsigned operations, '
     'shift amounts of any width and operands of any width. Cases without a defined value are left alone or may have any value. '
     'Pointers are only taken for non-null if they are addresses of objects known to exist, and an address computation is only '
     'dropped if all its indices are the constant zero.',
     ['inputs', 'programs'],
     'All operand values of every integer operation for small widths and boundary values for large ones.',
     'Each operation folds every pair of values; tests try one or two pairs, which do not tell signed from unsigned or '
     'arithmetic from logical variants.',
     ['jlm/llvm/ir/operators/IntegerOperations.cpp', 'jlm/llvm/ir/operators/ConversionOperations.cpp', 'jlm/llvm/ir/Trace.cpp',
      'jlm/rvsdg/control.cpp', 'jlm/llvm/ir/operators/operators.cpp', 'jlm/llvm/ir/operators/GetElementPtr.cpp'],
     [('foldConstants of the Integer*Operation classes', 'jlm/llvm/ir/operators/IntegerOperations.cpp'),
      ('foldConstant of the conversions', 'jlm/llvm/ir/operators/ConversionOperations.cpp'),
      ('tryGetConstantSignedInteger', 'jlm/llvm/ir/Trace.cpp'), ('MatchOperation', 'jlm/rvsdg/control.cpp'),
      ('PtrCmpOperation', 'jlm/llvm/ir/operators/operators.cpp'),
      ('GetElementPtrOperation::normalizeIdempotent', 'jlm/llvm/ir/operators/GetElementPtr.cpp')],
     technique='abstract interpretation of every folding function on constant operands, compared with LLVM\'s definition of the '
               'operation',
     note='The arithmetic of the bit-string value representation itself is assumed here and decided by C12 (a fold has to use '
          'the right one of its methods on the right operands).')

prop('C12', 'Bit strings compute the arithmetic their operations are named after',
     'For bit strings of any width, every operation of the value representation computes the function it is named after: addition, '
     'subtraction, negation, low and high products, signed and unsigned division and remainder by a divisor that is not zero, '
     'bitwise operations, signed and unsigned comparisons, the three shifts by any amount, zero and sign extension, truncation, '
     'slices, concatenation, equality, and the conversions from and to 64-bit numbers and text, which refuse exactly what cannot '
     'be represented. A result bit that is known although operand bits are not is right for all values of these bits. The '
     'constant reduction of a bit operation computes that operation. The helpers that round numbers to powers of two or '
     'multiples, take logarithms, and truncate and extend 64-bit numbers are exact.',
     ['inputs'],
     'All operand values of every operation for small widths, boundary values around 64 bits for large ones.',
     'Every constant the compiler folds, compares or emits goes through these functions; tests try a handful of widths and values.',
     ['jlm/rvsdg/bitstring/value-representation.hpp', 'jlm/rvsdg/bitstring/value-representation.cpp',
      'jlm/rvsdg/bitstring/arithmetic.cpp', 'jlm/rvsdg/bitstring/comparison.cpp', 'jlm/util/Math.hpp'],
     [('BitValueRepresentation', 'jlm/rvsdg/bitstring/value-representation.hpp'),
      ('to_uint, to_int', 'jlm/rvsdg/bitstring/value-representation.cpp'),
      ('reduce_constants of the bit operations', 'jlm/rvsdg/bitstring/arithmetic-impl.hpp'),
      ('numeric helpers', 'jlm/util/Math.hpp')],
     technique='abstract interpretation of every function with all operand bits unknown: scalars are functions of the input bits, '
               'branches are explored under the inputs that reach them, and the resulting function is compared with the specified one',
     note='Unknown operand bits up to a width of 4 (conversions and shifts: 7); larger widths with operands at the borders of their '
          'ranges. Division by zero is left open.')

FAMILY = ('abstract interpretation of the source of the pass over a deterministic family of abstract graphs: operations are '
          'uninterpreted, what the exports denote before and after is compared as hash-consed terms, for every way the branches can go')
FAMILY_NOTE = ('A fixed family of generated graph shapes (nested gammas, thetas, lambdas, phis; memory and I/O states), not all graphs; '
               'loops up to 3 iterations, recursion to depth 4. Operations without a role in the pass are opaque terms.')
FAMILY_WHY = ('A pass is right only if it is right for every combination of nesting, routing and state edges; the tests rewrite a handful '
              'of hand-written graphs and mostly compare node counts.')

prop('C13', 'Dead node elimination keeps every needed value and removes the rest',
     'Whatever the module, dead node elimination leaves what every exported function and variable computes unchanged, for all '
     'operations the nodes may stand for and whatever way branches and loops go: no node, loop variable, branch entry or exit '
     'variable, function or data dependency, or recursion variable that a result depends on is removed or connected to something '
     'else, and the graph stays well formed. What no export depends on is removed.',
     ['inputs'],
     'All modules; decided for a family of graph shapes with opaque operations.', FAMILY_WHY,
     ['jlm/llvm/opt/DeadNodeElimination.cpp', 'jlm/rvsdg/gamma.cpp', 'jlm/rvsdg/theta.cpp', 'jlm/rvsdg/lambda.cpp', 'jlm/rvsdg/Phi.cpp'],
     [('mark and sweep', 'jlm/llvm/opt/DeadNodeElimination.cpp'), ('removal of variables', 'jlm/rvsdg/gamma.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

prop('C14', 'Common node elimination merges equal nodes only, and all of them',
     'Whatever the module, common node elimination leaves what every exported function and variable computes unchanged, for all '
     'operations the nodes may stand for and whatever way branches and loops go: two values are merged only if they are equal in '
     'every iteration of every loop and every branch they are used in, distinct storage is never merged, and the graph stays well '
     'formed. Afterwards no region has two nodes with the same operation and the same operands. The common node elimination of the '
     'hardware back end changes no value either.',
     ['inputs'],
     'All modules; decided for a family of graph shapes with opaque operations.', FAMILY_WHY,
     ['jlm/llvm/opt/CommonNodeElimination.cpp', 'jlm/hls/opt/cne.cpp'],
     [('partition and divert', 'jlm/llvm/opt/CommonNodeElimination.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

prop('C15', 'Invariant value redirection replaces a value only by one equal to it',
     'Whatever the module, invariant value redirection leaves what every exported function and variable computes unchanged: an '
     'output of a branch, loop or call is replaced by the value that goes in only if it has that value whatever way branches and '
     'loops go, also where the predicates of a branch and a loop are correlated, and the graph stays well formed.',
     ['inputs'],
     'All modules; decided for a family of graph shapes with opaque operations, matches and constants.', FAMILY_WHY,
     ['jlm/llvm/opt/InvariantValueRedirection.cpp', 'jlm/llvm/opt/PredicateCorrelation.cpp', 'jlm/rvsdg/theta.cpp', 'jlm/rvsdg/gamma.cpp'],
     [('redirect outputs', 'jlm/llvm/opt/InvariantValueRedirection.cpp'),
      ('roles of branches', 'jlm/llvm/opt/PredicateCorrelation.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

prop('C16', 'Moving nodes out of and into regions keeps what they compute',
     'Whatever the module, hoisting nodes out of branches and loops and sinking them into branches leaves what every exported '
     'function and variable computes unchanged: a node is moved out of a loop only if its operands, including memory states, are the '
     'same in every iteration, storage allocated per iteration is not shared between iterations, the moved node has the '
     'operands it had, every use is connected to it, and the graph stays well formed.',
     ['inputs'],
     'All modules; decided for a family of graph shapes with opaque operations, loads, stores and storage.', FAMILY_WHY,
     ['jlm/llvm/opt/push.cpp', 'jlm/llvm/opt/pull.cpp'],
     [('NodeHoisting', 'jlm/llvm/opt/push.cpp'), ('NodeSinking', 'jlm/llvm/opt/pull.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

prop('C17', 'If-conversion, predicate correlation and unswitching keep all values',
     'Whatever the module, if-conversion, predicate correlation and loop unswitching leave what every exported function and variable '
     'computes unchanged: a select picks the value of the branch that would have been taken, whatever the mapping of the match; '
     'predicates are replaced only by predicates that go the same way; an unswitched loop runs its body as often as before, with the '
     'same values in every iteration; and the graph stays well formed.',
     ['inputs'],
     'All modules; decided for a family of graph shapes with opaque operations, matches and constants.', FAMILY_WHY,
     ['jlm/llvm/opt/IfConversion.cpp', 'jlm/llvm/opt/PredicateCorrelation.cpp', 'jlm/llvm/opt/LoopUnswitching.cpp'],
     [('IfConversion', 'jlm/llvm/opt/IfConversion.cpp'), ('PredicateCorrelation', 'jlm/llvm/opt/PredicateCorrelation.cpp'),
      ('LoopUnswitching', 'jlm/llvm/opt/LoopUnswitching.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

prop('C18', 'Inlining a call computes what the call computes',
     'Whatever the module, function inlining leaves what every exported function and variable computes unchanged: the copied body '
     'gets the arguments, states and context variables of the call, the results replace the results of the call, storage of '
     'the function is allocated once per call that was inlined, functions that are recursive or whose dependencies are not available '
     'at the call are left alone, and the graph stays well formed.',
     ['inputs'],
     'All modules; decided for a family of graph shapes with several functions, recursion and nested calls.', FAMILY_WHY,
     ['jlm/llvm/opt/inlining.cpp', 'jlm/llvm/ir/CallSummary.cpp', 'jlm/llvm/ir/operators/call.cpp'],
     [('inlineCall', 'jlm/llvm/opt/inlining.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

prop('C19', 'Modules become regions and nodes that compute what they computed',
     'Whatever the module of control flow graphs in SSA form, with arbitrary edges - irreducible loops, loops with several entries, exits and '
     'repetitions, switches, endless loops, unreachable blocks -, the conversion to regions and nodes completes, produces a well-formed '
     'graph with the same exported functions and variables, linkages, attributes and constants, and every exported function and variable '
     'computes what it computed: the same values and the same sequence of effects under the same decisions.',
     ['inputs'],
     'All modules; decided for an enumerated and generated family of control flow graphs and modules.', FAMILY_WHY,
     ['jlm/llvm/frontend/InterProceduralGraphConversion.cpp', 'jlm/llvm/frontend/ControlFlowRestructuring.cpp', 'jlm/llvm/ir/ssa.cpp',
      'jlm/llvm/ir/aggregation.cpp', 'jlm/llvm/ir/Annotation.cpp', 'jlm/llvm/ir/cfg-structure.cpp'],
     [('ConvertInterProceduralGraphModule', 'jlm/llvm/frontend/InterProceduralGraphConversion.cpp'),
      ('RestructureControlFlow', 'jlm/llvm/frontend/ControlFlowRestructuring.cpp'),
      ('Annotate', 'jlm/llvm/ir/Annotation.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

prop('C20', 'Regions and nodes become control flow that computes what they compute',
     'Whatever the graph of regions and nodes, the conversion to control flow graphs in SSA form completes, every phi has one incoming '
     'value per predecessor block, the exported functions and variables keep their names, linkages, attributes, sections, alignments and '
     'constants, and every one of them computes what it computes in the graph: the same values and the same sequence of effects '
     'under the same decisions.',
     ['inputs'],
     'All graphs; decided for a family of graph shapes, and for the graphs of a family of control flow graphs.', FAMILY_WHY,
     ['jlm/llvm/backend/RvsdgToIpGraphConverter.cpp', 'jlm/llvm/ir/cfg-structure.cpp', 'jlm/llvm/ir/ipgraph.cpp'],
     [('CreateModule', 'jlm/llvm/backend/RvsdgToIpGraphConverter.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

prop('C21', 'Types are laid out, and constant addresses computed, as LLVM does',
     'The store size, the allocation size and the alignment the compiler assumes for a type, and the offset of every field of a '
     'structure, are those of the target (x86-64), however types are nested in each other; and following a chain of constant address '
     'computations back to its origin finds the origin LLVM finds, and the offset in bytes LLVM computes.',
     ['inputs'],
     'All types made of integers, floating point numbers, pointers, arrays, structures (packed or not) and vectors, and all chains of '
     'constant address computations; decided for a family of types and chains.',
     'Alias analysis and the reductions of memory accesses rely on sizes and offsets of whatever types a program has; tests ask for a '
     'few of them.',
     ['jlm/llvm/ir/types.cpp', 'jlm/llvm/ir/operators/GetElementPtr.cpp', 'jlm/llvm/ir/Trace.cpp'],
     [('GetTypeStoreSize', 'jlm/llvm/ir/types.cpp'), ('getOffsetInBytes', 'jlm/llvm/ir/operators/GetElementPtr.cpp'),
      ('TracePointerOriginPrecise', 'jlm/llvm/ir/Trace.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

prop('C22', 'Separating loads keeps every access to memory behind those it has to come after',
     'Taking loads out of chains of memory states changes nothing but the order of loads among each other: every load still comes '
     'after the same stores and calls, and every store, call, loop and result still comes after the same loads and stores.',
     ['inputs'],
     'All graphs in which a loop hands every memory state on as the same state; decided for a family of graph shapes.', FAMILY_WHY,
     ['jlm/llvm/opt/LoadChainSeparation.cpp'],
     [('LoadChainSeparation::Run', 'jlm/llvm/opt/LoadChainSeparation.cpp')],
     technique=FAMILY, note=FAMILY_NOTE)

# ---------------------------------------------------------------------------------------------------------------
prop('N01', 'Compilation preserves the observable behaviour of programs',
     'For every LLVM module accepted as input and every sequence of optimizations, the emitted module behaves like '
     'the input module: same outputs, same volatile accesses, same termination.',
     ['programs', 'configurations'],
     'All input modules, all optimization pipelines.',
     'Tests run fixed programs through fixed pipelines.',
     ['jlm/llvm', 'tools/jlm-opt/jlm-opt.cpp'],
     [('whole pipeline', 'tools/jlm-opt/jlm-opt.cpp')],
     na='quantifies over the run-time behaviour of whole programs; no static argument over the compiler sources in '
        'reach bounds it. The clauses with a structural counterpart are claimed separately (C01 and following).')

prop('N02', 'Every optimization terminates on every module',
     'Each transformation reaches its fixed point after finitely many steps on every input module.',
     ['programs'], 'All input modules.', 'Tests cover small graphs only.',
     ['jlm/llvm/opt'], [('fixed-point loops', 'jlm/llvm/opt/reduction.cpp, jlm/llvm/opt/inversion.cpp')],
     na='needs a ranking argument over run-time graphs for each fixed-point loop; reductions are not monotone in a '
        'measure visible in the code, so no sound static argument is in reach.')

prop('N03', 'Points-to results over-approximate every execution',
     'Whenever a pointer may refer to a memory object in some execution, the alias analysis reports that it may.',
     ['programs', 'configurations'], 'All modules and all solver configurations.',
     'Tests check a few hand-written graphs.',
     ['jlm/llvm/opt/alias-analyses'], [('constraint solver', 'jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp')],
     na='soundness of the constraint solver relates run-time sets across solver configurations; the structural '
        'clause (every operation kind generates its constraints) is claimed separately.')
