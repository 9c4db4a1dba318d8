#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (development tool; outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
L = []
def P(id, title, statement, over, text, why, files, mech, level_note, technique, state=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = [observe]
    if hook: a['hook_needed'] = hook
    L.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a), level_note, technique))

SYM = 'bounded symbolic execution of the compiled allocator (rustc LLVM IR) with Z3, oracle assertions, native replay'
SYMI = 'bounded symbolic execution of the compiled function (rustc LLVM IR) with Z3 against a specification oracle, native replay'
ALLOC_NOTE = 'Symbolic execution of the whole allocator on program skeletons: block structure is fixed per skeleton, the choices left open in it (constraints, positions, vregs, fixed registers, clobbers, branch arguments) are solver variables; the solver decides every branch feasible under them, so all completions of a skeleton are covered. Nothing is claimed for programs outside the skeletons (at most 10 blocks, about 40 instructions, 32 values).'
PROG = ['programs', 'inputs', 'configurations']
ION = ['src/ion/mod.rs', 'src/ion/liveranges.rs', 'src/ion/merge.rs', 'src/ion/process.rs', 'src/ion/spill.rs', 'src/ion/moves.rs', 'src/ion/requirement.rs', 'src/ion/redundant_moves.rs', 'src/moves.rs']
FAST = ['src/fastalloc/mod.rs', 'src/fastalloc/iter.rs', 'src/fastalloc/lru.rs', 'src/moves.rs']
WHYA = 'Existing tests run a handful of hand-written functions (and a fuzz target that samples); the claim is over every program, operand constraint and machine environment.'

P('A01', 'Ion: every use reads the value of its virtual register',
  'After backtracking allocation succeeds, executing the program with the assigned locations and the inserted moves delivers to every operand use, on every control-flow path, the value most recently given to that virtual register (by its defining instruction or as a block parameter). This holds for every block layout, operand constraint, clobber set and spill slot size.',
  PROG, 'all valid SSA programs and machine environments', WHYA, ION,
  [('liveness and live ranges', 'src/ion/liveranges.rs'), ('bundle merging', 'src/ion/merge.rs'), ('splitting and eviction', 'src/ion/process.rs'), ('move insertion at range ends and edges', 'src/ion/moves.rs'), ('reloads and spill ranges', 'src/ion/spill.rs')],
  ALLOC_NOTE, SYM, observe='Output.allocs and Output.edits of run()')
P('A02', 'Single-pass allocator: every use reads the value of its virtual register',
  'After single-pass allocation succeeds, executing the program with the assigned locations and the inserted moves delivers to every operand use, on every control-flow path, the value most recently given to that virtual register. This holds for every block layout, supported operand constraint, clobber set and spill slot size.',
  PROG, 'all valid SSA programs within the documented limits of the single-pass allocator, and all machine environments', WHYA, FAST,
  [('reverse instruction walk', 'src/fastalloc/mod.rs: alloc_block, alloc_inst'), ('eviction to spill slots', 'src/fastalloc/mod.rs: evict_vreg_in_preg'), ('block parameter and livein reloads', 'src/fastalloc/mod.rs: reload_at_begin')],
  ALLOC_NOTE, SYM, observe='Output.allocs and Output.edits of run()')
P('A03', 'Every operand is placed where its constraint says',
  'In a successful allocation of either algorithm every operand location satisfies the operand\'s constraint: a register of its class where a register is required, the named register, a stack slot, a register below the stated limit, or the very location of the reused input. Only registers of the machine environment are used.',
  PROG, 'all valid programs and machine environments, both algorithms', WHYA, ION + FAST,
  [('requirement computation', 'src/ion/requirement.rs'), ('several fixed constraints on one value', 'src/ion/liveranges.rs: fixup_multi_fixed_vregs'), ('reused inputs', 'src/ion/moves.rs'), ('operand allocation', 'src/fastalloc/mod.rs: process_operand_allocation')],
  ALLOC_NOTE, SYM)
P('A04', 'Simultaneously live operands, clobbers and scratch never share a location',
  'Within one instruction of a successful allocation, two different values that are live at the same point (before or after) never get the same register or overlapping stack storage, no value defined by or used late in the instruction sits in a register the instruction clobbers, and fixed non-allocatable operands are reported as given.',
  PROG, 'all valid programs and machine environments, both algorithms', WHYA, ION + FAST,
  [('allocation maps per physical register', 'src/ion/process.rs'), ('early/late liveness of operands', 'src/ion/liveranges.rs'), ('available-register sets', 'src/fastalloc/mod.rs')],
  ALLOC_NOTE, SYM)
P('A05', 'Inserted moves are well formed and placed where they take effect',
  'The move list of a successful allocation is sorted by program point and every move lies inside the program, is executed (never after a block\'s terminator), connects two real locations of one register class, never moves stack to stack, and never writes a register that a caller did not offer.',
  PROG, 'all valid programs and machine environments, both algorithms', WHYA, ['src/ion/moves.rs', 'src/moves.rs', 'src/fastalloc/mod.rs', 'src/lib.rs'],
  [('move resolution and ordering', 'src/ion/moves.rs: resolve_inserted_moves'), ('edge moves', 'src/fastalloc/mod.rs: process_branch')],
  ALLOC_NOTE, SYM)
P('A06', 'Spill slots are in range, aligned and of the size of their class',
  'Every stack slot used by an operand or move of a successful allocation lies within the reported number of slots, together with all the units its register class occupies, and multi-slot values are aligned to their size under both numbering conventions.',
  PROG, 'all valid programs, slot sizes per class and numbering conventions, both algorithms', WHYA, ['src/ion/spill.rs', 'src/fastalloc/mod.rs', 'src/lib.rs'],
  [('slot allocation', 'src/ion/spill.rs: allocate_spillslot'), ('slot allocation', 'src/fastalloc/mod.rs: allocstack')],
  ALLOC_NOTE, SYM)
P('A07', 'Debug locations name a place that holds the labelled value',
  'Each reported debug location range holds, at every point of the range, the value of the labelled virtual register in the reported place; the list is sorted and ranges are not inverted. The backtracking allocator additionally keeps the ranges of a label disjoint and inside the requested range.',
  PROG, 'all valid programs with debug labels, both algorithms', WHYA, ['src/ion/moves.rs', 'src/fastalloc/mod.rs', 'src/lib.rs'],
  [('label intersection with live ranges', 'src/ion/moves.rs'), ('live range summary', 'src/fastalloc/mod.rs: build_debug_info')],
  ALLOC_NOTE + ' For the single-pass allocator a label may be reported over the whole live range of its value (as its tests expect).', SYM)
P('A08', 'Result tables are complete and iterate in program order',
  'A successful allocation reports exactly one location per operand of every instruction, and iterating a block of the result yields all its instructions in order, with every move of the block exactly once and at its place, before or after its instruction.',
  PROG, 'all valid programs, both algorithms', WHYA, ['src/lib.rs', 'src/ion/moves.rs', 'src/fastalloc/mod.rs'],
  [('location table and offsets', 'src/lib.rs: Output::inst_allocs'), ('merged iteration', 'src/lib.rs: OutputIter')],
  ALLOC_NOTE, SYM)
P('A09', 'Allocation neither crashes nor gives up while registers suffice',
  'On every valid program allocation terminates without panicking, and reports failure only as "too many live registers"; it does succeed whenever at every instruction the registers suffice, before and after it, for one per operand that needs one there (other inputs of an instruction with a reused input, and inputs with a register limit, last throughout; the single-pass allocator wants one per operand, plus a spare when no scratch register is given).',
  PROG, 'all valid programs and machine environments, both algorithms', WHYA, ION + FAST,
  [('conflict resolution and splitting', 'src/ion/process.rs'), ('register demand accounting', 'src/fastalloc/mod.rs')],
  ALLOC_NOTE, SYM)
exec(open(os.path.join(V, 'tools/meta_internal.py')).read())

NA = []
if __name__ == '__main__':
    L = [x for x in L if x[0]['id'] in props.PROPS]
    open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(x[0]) + '\n' for x in L))
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
         'hooks': {'guard': 'cfg(regalloc2_verif)', 'enable': 'RUSTFLAGS="--cfg regalloc2_verif"', 'source_commits': props.HOOK_COMMITS},
         'checks': [{'property': x[0]['id'], 'quick_cmd': 'python3 check.py %s quick' % x[0]['id'], 'thorough_cmd': 'python3 check.py %s thorough' % x[0]['id'],
                     'technique': x[2], 'level': 'model_checking', 'level_note': x[1]} for x in L],
         'not_applicable': NA,
         'notes': 'Engine: symex/ (symbolic executor for rustc LLVM IR over libz3). Harnesses: harness/. Driver: check.py. Known and repaired defects: known-findings.json. See DESIGN.md.'}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    miss = [k for k in props.PROPS if k not in [x[0]['id'] for x in L]]
    print(len(L), 'properties', 'without text: %s' % miss if miss else '')
