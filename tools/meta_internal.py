INT_NOTE = 'Symbolic execution of the compiled function over its whole input space within the stated sizes; the solver decides every branch and assertion.'
def I(id, title, statement, over, text, why, files, mech, **k):
    P(id, title, statement, over, text, why, files, mech, INT_NOTE, SYMI, hook='cfg(regalloc2_verif) re-export', **k)
WHYI = 'Unit tests fix a few concrete inputs; the claim is over every input and every sequence of operations, and an error shows only as a rare miscompilation.'

I('M01', 'Parallel moves become a sequence with the same effect',
  'For every set of parallel moves with distinct destinations, executing the resolved moves one after the other leaves in every location what the parallel moves leave there, nothing else is changed except the scratch place, each move keeps the label of the value it carries, and a scratch place is asked for only when values go round in a circle.',
  ['inputs'], 'all sets of moves, insertion orders and scratch places', WHYI, ['src/moves.rs'],
  [('ordering and cycle breaking', 'src/moves.rs: ParallelMoves::resolve'), ('scratch substitution', 'src/moves.rs: MoveVecWithScratch')])
I('M02', 'No stack-to-stack moves remain and the borrowed register is restored',
  'For every resolved move list and any number of free registers, the final list has no move between two stack places, no open scratch place, the effect of the parallel moves in every location including the borrowed register, and truthful labels.',
  ['inputs'], 'all sets of moves between register and stack places, numbers of free registers and borrowed registers', WHYI, ['src/moves.rs', 'src/ion/moves.rs'],
  [('two-step expansion with save and restore', 'src/moves.rs: MoveAndScratchResolver::compute')])
I('M03', 'A move is dropped as redundant only when its effect is already in place',
  'After any sequence of moves, overwritten locations and state resets reported to the redundant-move tracker, a move it elides would copy a value to a location that already holds that value.',
  ['histories', 'inputs'], 'all sequences of moves, clobbers and resets and all values', WHYI, ['src/ion/redundant_moves.rs', 'src/ion/moves.rs'],
  [('copy tracking and invalidation', 'src/ion/redundant_moves.rs: process_move, clear_alloc')],
  state=[('allocs / reverse_allocs', 'which location is a copy of which', 'src/ion/redundant_moves.rs')])
I('G01', 'The dominator tree answers dominance exactly',
  'For every control-flow graph, one reachable block is reported to dominate another exactly when every path from the entry to the second passes through the first, including graphs with loops that have several entries and with unreachable blocks.',
  ['inputs'], 'all control-flow graphs', WHYI, ['src/domtree.rs', 'src/cfg.rs'], [('iterative dominator computation', 'src/domtree.rs: calculate, merge_sets')])
I('G02', 'Postorder lists exactly the reachable blocks, each after what it leads to',
  'For every control-flow graph the postorder contains each reachable block once and nothing else, ends with the entry, places a block before its predecessors except along edges that close a cycle, and reports an error exactly when a reachable edge leads to a block that does not exist.',
  ['inputs'], 'all control-flow graphs', WHYI, ['src/postorder.rs', 'src/cfg.rs'], [('explicit-stack depth-first search', 'src/postorder.rs: calculate')])
P('D01', 'Register sets behave as sets',
  'Adding, removing, union, intersection, complement, the lower-range addition, counting, emptiness per class, largest member and iteration of physical register sets agree with set theory for every register and class; adding a range keeps the members already present.',
  ['inputs'], 'all registers and sets built from them', WHYI, ['src/lib.rs'], [('bit words per class', 'src/lib.rs: PRegSet')], INT_NOTE, SYMI)
P('D02', 'Packed encodings round-trip',
  'Registers, virtual registers, spill slots, allocations, operands (every constraint, kind and position), program points and instruction ranges return exactly what they were built from, equal encodings mean equal contents, raw bits convert back, program points are ordered by instruction and then before/after, and each named operand constructor has the documented constraint, kind and position.',
  ['inputs'], 'every value in the documented ranges', WHYI, ['src/lib.rs', 'src/index.rs'], [('bit fields', 'src/lib.rs: Operand, Allocation, PReg, VReg, ProgPoint'), ('instruction ranges', 'src/index.rs: InstRange')], INT_NOTE, SYMI)
I('D03', 'Sparse index sets behave as sets in both representations',
  'After any sequence of insertions, removals, unions and assignments an index set contains exactly the indices it should, union reports a change exactly when one happened, iteration yields every member once, and this also holds across the switch from the small to the hashed representation and when emptied words are reused.',
  ['histories', 'inputs'], 'all operation sequences and indices', WHYI, ['src/indexset.rs', 'src/ion/liveranges.rs'],
  [('small array with slot reuse, hash map beyond', 'src/indexset.rs: AdaptiveMap')], state=[('keys / values', '64-index words', 'src/indexset.rs')])
I('D04', 'Register traversal offers every admissible register once',
  'For every machine environment, hint, limit and starting offset, the order in which registers are tried contains each allocatable register of the class below the limit exactly once, the hint first, preferred registers before the others, nothing outside the class or limit, and just the fixed register when there is one.',
  ['inputs', 'configurations'], 'all register sets, hints, limits, offsets and fixed registers', WHYI, ['src/ion/reg_traversal.rs', 'src/ion/process.rs'], [('offset cursor over preferred and other registers', 'src/ion/reg_traversal.rs')])
I('D05', 'Merged requirements admit exactly the places both sides admit',
  'Combining two placement requirements yields one that admits precisely the registers and stack places admitted by both, and fails exactly when there is no such place.',
  ['inputs'], 'all pairs of requirements', WHYI, ['src/ion/requirement.rs'], [('requirement lattice', 'src/ion/requirement.rs: Requirement::merge')])
I('D06', 'Eviction order is least recently used',
  'After any sequence of uses, the register proposed for eviction, overall or from a subset, is one not used since the start or else the one whose last use is the oldest, and nothing is proposed only when the subset is empty.',
  ['histories', 'inputs'], 'all register sets, use sequences and subsets', WHYI, ['src/fastalloc/lru.rs', 'src/fastalloc/mod.rs'], [('circular linked list', 'src/fastalloc/lru.rs: Lru')], state=[('head, prev, next', 'recency order', 'src/fastalloc/lru.rs')])
I('D07', 'The live-value set holds exactly what was inserted and not removed',
  'After any sequence of insertions and removals, iterating the single-pass allocator\'s set of live values yields each present value once and no other, and emptiness is reported correctly.',
  ['histories'], 'all insertion and removal sequences', WHYI, ['src/fastalloc/vregset.rs', 'src/fastalloc/mod.rs'], [('linked list in a vector', 'src/fastalloc/vregset.rs: VRegSet')])
I('I01', 'Malformed control flow is rejected, well-formed control flow analysed',
  'Control-flow analysis fails exactly when an edge is critical or a branch to a join has operands, names a real offender when it fails, and otherwise gives the right block of each instruction, entry and exit points, dominance and set of reachable blocks.',
  ['programs'], 'all control-flow graphs and operand placements', WHYI, ['src/cfg.rs'], [('critical-edge and branch-operand checks, block tables', 'src/cfg.rs: CFGInfo::init')])
I('I02', 'SSA validation accepts exactly the valid programs',
  'Validation succeeds exactly when every value has one definition with a number in range, each use and branch argument is preceded by that definition in its block or dominated by the defining block, branch argument counts match block parameters, every block ends in its only branch or return, and the entry has no parameters; otherwise it returns an error without panicking.',
  ['programs'], 'all operand lists, block parameters, branch arguments and terminator placements', WHYI, ['src/ssa.rs', 'src/cfg.rs'], [('definition table and dominance queries', 'src/ssa.rs: validate_ssa')])

P('C01', 'The built-in checker accepts no wrong allocation',
  'Whenever the checker accepts an allocation result, every use reads the value of its virtual register on every path, every operand satisfies its constraint (register, stack, fixed, limit, reuse), and no move goes from stack to stack. This holds for arbitrary results, wrong ones included, in which the operands of each instruction are kept apart.',
  ['programs', 'inputs'], 'all programs and all results, right or wrong', 'The tests and fuzz targets only run the checker on results of the allocator, which are right; what it fails to notice is never seen.', ['src/checker.rs'],
  [('forward dataflow of value sets', 'src/checker.rs: analyze, CheckerState::update'), ('constraint checks', 'src/checker.rs: check, check_constraint')],
  'Symbolic execution of the compiled checker on small functions with every result in the stated bounds; locations and moves are case-split (they are hash keys), an independent oracle decides what is right.', SYMI, state=[('bb_in', 'values known per location at block entry', 'src/checker.rs')])
P('C02', 'The built-in checker accepts every right allocation',
  'The checker reports no error for any result of either allocator on a valid program, whatever the block order and including unreachable code, nor for any other result in which every use reads its value, every constraint holds and no move goes from stack to stack.',
  ['programs', 'inputs', 'configurations'], 'all valid programs and all right results', 'Tests run a handful of programs, laid out in topological order; a false alarm shows on programs of another shape.', ['src/checker.rs'],
  [('forward dataflow of value sets', 'src/checker.rs: analyze, merge_map'), ('parallel moves on edges', 'src/checker.rs: update')],
  'Symbolic execution of allocator and checker on program skeletons, and of the checker on small functions with every result in the stated bounds.', SYMI)

P('A10', 'A reused context gives what a fresh one gives',
  'Allocating with a context that was used before, for other functions or with the other algorithm, whether those runs succeeded or failed, gives exactly the operand locations, moves, slot count and debug locations that a fresh context gives, and repeating a run gives the same result again.',
  ['histories', 'programs', 'configurations'], 'all sequences of functions and algorithms run on one context', 'Tests use each context once; the fuzz target reuses one but only checks each result for correctness, not against a fresh run.', ['src/lib.rs', 'src/ion/mod.rs', 'src/ion/data_structures.rs', 'src/fastalloc/mod.rs', 'src/cfg.rs', 'src/indexset.rs'],
  [('clearing of the allocator state', 'src/ion/mod.rs: run, src/ion/data_structures.rs: Ctx'), ('pooled live sets and vectors', 'src/lib.rs: Ctx')],
  'Symbolic execution of one to two earlier allocations and the one compared with a fresh run, on program skeletons whose open choices are solver variables.', SYM, state=[('Ctx', 'buffers kept between runs', 'src/ion/data_structures.rs')], observe='Output of run_with_ctx()')
P('I03', 'Values used before they are given are reported',
  'Without validation the backtracking allocator reports EntryLivein exactly when some value is live into the entry block, and with validation both algorithms refuse such a program as invalid SSA; neither ever allocates it.',
  ['programs'], 'all programs with uses of undefined values', 'Tests contain no such program.', ['src/ion/liveranges.rs', 'src/ssa.rs', 'src/lib.rs'],
  [('backward liveness to the entry', 'src/ion/liveranges.rs: compute_liveness'), ('validation', 'src/ssa.rs')],
  'Symbolic execution of the whole allocator on program skeletons whose uses may name any of several values; an independent liveness analysis decides.', SYM)
P('S01', 'A captured or serialized function answers every query as the original',
  'A SerializableFunction built from any function gives the same answer as that function to every query the allocator makes, keeps the machine environment unchanged, and still does after being written out and read back; an allocation result read back equals the one written.',
  ['inputs', 'programs', 'configurations'], 'all functions, machine environments and results', 'No test serializes anything; a wrong field shows only when a captured function is replayed and behaves differently.', ['src/serialize.rs', 'src/lib.rs', 'src/index.rs'],
  [('capture of every query', 'src/serialize.rs: SerializableFunction::new'), ('answers', 'src/serialize.rs: impl Function'), ('serde derives', 'src/lib.rs')],
  'Symbolic execution of capture, bincode writing and reading on functions of fixed shape with arbitrary contents.', SYMI, observe='impl Function for SerializableFunction')
