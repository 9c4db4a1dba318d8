"""What each check executes: harnesses, bounds, goals. See DESIGN.md."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))

FLOW, CONSTR, INTERF, EDITS, SLOT, DEBUG, SHAPE, LOOSE, ERR, OVER = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512

ASSUMPTIONS = [
    'rustc\'s LLVM IR (opt-level 2, debug assertions and overflow checks on) has the meaning of the source; the executor models that IR, and sampled paths and every reported violation are replayed on a native build',
    'allocation never fails; single thread; 64-bit little-endian target',
]

MEANING = {
    1: 'value flow', 2: 'operand constraint', 3: 'interference', 4: 'edit placement', 5: 'spill slot', 6: 'debug location', 7: 'output tables', 8: 'spurious failure',
}
def meaning(entry, msg):
    import re
    m = re.match(r'check (\d+) failed', msg)
    if not m: return 'panic, overflow, invalid memory access or non-termination'
    if entry in ('h_alloc',): return MEANING.get(int(m.group(1)) // 100, '')
    return CODES.get((entry, int(m.group(1))), '')
CODES = {}
for i, t in {1: 'number of slots', 2: 'operand table', 3: 'operand table', 4: 'operand location', 5: 'moves', 6: 'moves', 7: 'moves', 8: 'debug locations', 9: 'debug locations', 10: 'second run failed', 11: 'error', 12: 'only one of the runs failed'}.items(): CODES['h_alloc_reuse', i] = 'used context differs from a fresh one: ' + t
CODES.update({('h_alloc_undefined', 1): 'EntryLivein exactly when a value is used undefined', ('h_alloc_undefined', 2): 'validation missed an undefined value'})

def read(name):
    return [l.rstrip('\n') for l in open(os.path.join(V, 'suites', name)) if l.strip() and not l.startswith('#')]

def suite(u, tier):
    """[(name, skeleton)] of a unit"""
    r = []
    for name, step in u['suite']:
        if name == 'hand.txt':
            for i, l in enumerate(read(name)):
                if l.startswith('@'):
                    if int(l[1]) != u['alg']: continue
                    l = l[2:].strip()
                r.append(('hand:%d' % i, l))
        else:
            for i, l in enumerate(read(name)):
                if i % step == 0: r.append(('%s:%d' % (name, i), l))
    if tier == 'thorough':
        seed = int(os.environ.get('VERIF_SEED', '1'))
        for mode in u.get('modes', ('inst', 'press', 'cfg', 'perm')):
            n = u.get('fresh', 4000)
            p = subprocess.run([sys.executable, os.path.join(V, 'tools/gen.py'), str(1000 + seed), str(n), str(u['alg']), mode], capture_output=True, text=True)
            for i, l in enumerate(p.stdout.splitlines()):
                if l.strip(): r.append(('fresh-%s:%d' % (mode, i), l))
    return r

def alloc(alg, mask, step=1, covers=(1, 2, 3)):
    who = 'ion' if alg == 0 else 'fastalloc'
    return dict(group='g_pub', entry='h_alloc', alg=alg, mask=mask, time=60, ttime=60, cap=True, covers=list(covers), enough=3,
                suite=[('hand.txt', 1)] + [('%s%d.txt' % (m, alg), step) for m in ('inst', 'press', 'cfg', 'perm')],
                bounds='%s on program skeletons of suites/ (hand-written, dense instructions, register pressure, control flow, arbitrary block order with unreachable blocks; at most 10 blocks, 40 instructions, 32 vregs, 12 operands), every combination of the operand constraints, positions, vregs, registers and clobbers each leaves open' % who)

def tight(alg, mask, step=1):
    """few registers; the programs may ask for more than there are"""
    u = alloc(alg, mask | OVER, covers=(1, 2, 3, 4))
    u.update(suite=[('tight%d.txt' % alg, step)], modes=('tight',))
    u['bounds'] = u['bounds'].replace('hand-written, dense instructions, register pressure, control flow, arbitrary block order with unreachable blocks', 'up to three classes of 0 to 3 registers, instructions that may ask for more registers than there are')
    return u

def unit(entry, bounds, params=((),), deep=(), covers=(1,), codes=None, **k):
    """an internal interface; entry h_GROUP_NAME; params: one symbolic execution each"""
    for c, t in (codes or {}).items(): CODES[entry, c] = t
    d = dict(group='g_' + entry.split('_')[1], entry=entry, bounds=bounds, params=[list(p) for p in params], deep=[list(p) for p in deep],
             covers=list(covers), time=240, ttime=800, wide=True)
    d.update(k)
    return d

def checker(kind, dir):
    """lines of suites/chk.txt"""
    def jobs(tier):
        r = []
        for i, l in enumerate(read('chk.txt')):
            h, _, t = l.partition('|')
            h = h.split(); t = t.strip()
            if h[0] != kind or ('+' in h and tier == 'quick'): continue
            a, b = int(h[1]), int(h[2])
            p = [a, b + 8 * dir] if kind == 'J' else [a + 2 * b, 8 * dir]
            r.append({'params': p + words(t), 'name': 'chk:%d' % i, 'text': l})
        return r
    return jobs
def words(t):
    b = t.encode(); return [len(b)] + [int.from_bytes(b[i:i + 8], 'little') for i in range(0, len(b), 8)]

def chk(dir):
    return [unit('h_chk_judge', 'functions of one class and 1 to 4 blocks (suites/chk.txt): every output with the stated number of spill slots and up to that many moves: any place for every operand, any moves between any places at any points',
                 jobs=checker('J', dir), covers=(1, 2, 3, 4, 5)),
            unit('h_chk_mutant', 'the output of either allocator on functions of one class (suites/chk.txt), with one change (thorough: two): an operand elsewhere, a move removed, redirected, inserted anywhere, exchanged with the next',
                 jobs=checker('M', dir), covers=(1, 2, 3, 4))]
for e in ('h_chk_judge', 'h_chk_mutant', 'h_chk_accept'):
    CODES[e, 1] = 'allocator output rejected'; CODES[e, 2] = 'wrong output accepted'; CODES[e, 3] = 'right output rejected'
def accept(alg, step=4):
    u = alloc(alg, 0, step, (1, 2))
    u.update(group='g_chk', entry='h_chk_accept')
    u['bounds'] = u['bounds'].replace('on program', 'followed by the checker, on program')
    return u

NAME = ['the backtracking allocator', 'the single-pass allocator']
def choices(t):
    """upper bound on the number of completions of a skeleton"""
    import re
    n = 1
    for st in t.split(';'):
        st = st.strip()
        if st[:1] == 'b':
            for a in re.findall(r'[\d|]+', st): n *= a.count('|') + 1
        elif st[:1] == 'l' or st[:1] in 'it' and st[1:2] in ('', ' '):
            for o in st.split()[1:]:
                if o.startswith('c?'): n *= 2 ** bin(int(o[2:], 16)).count('1'); continue
                if o.startswith('?'): a, b = o[1:].split('-'); n *= int(b) - int(a) + 1; continue
                m = re.match(r'[ud](\?)?([\d|~]+):(.*)', o)
                if not m: continue
                k = 0; v = m.group(2).count('|') + 1
                for x in re.findall(r'~(\d+)', m.group(2)): v += 3
                for c in re.findall(r'F[0-9a-f]+|L\d+|=\d+|[ARS]', m.group(3)): k += bin(int(c[1:], 16)).count('1') if c[0] == 'F' else 1
                if 'x' in m.group(3): k *= 2
                n *= max(v * k, 1) + bool(m.group(1))
    return n
def pairs(algs, n, step):
    """earlier programs for a context, then the one that counts"""
    a0, a1 = algs
    def jobs(tier):
        def lines(alg): return suite({'suite': [('hand.txt', 1)] + [('%s%d.txt' % (m, alg), 1) for m in ('inst', 'press', 'cfg')], 'alg': alg}, 'quick')
        first = [x for x in lines(a0) if choices(x[1]) <= 4]; last = [x for x in lines(a1) if choices(x[1]) <= 32]
        r = []
        for i in range(0, len(last), step if tier == 'quick' else 1):
            ts = [first[(i * 7 + k * 131) % len(first)] for k in range(n)] + [last[i]]
            r.append({'params': [a0 + 2 * a1, n] + sum((words(t) for _, t in ts), []), 'name': ' then '.join(k for k, _ in ts), 'text': [t for _, t in ts]})
        return r
    return jobs
def undefined(tier):
    return [{'params': [alg, val] + words(t), 'name': 'undef:%d' % i, 'text': t} for i, t in enumerate(read('undef.txt')) for alg, val in ((0, 0), (0, 1), (1, 1))]

PROPS = {
    'A01': dict(units=[alloc(0, FLOW), tight(0, FLOW)]),
    'A02': dict(units=[alloc(1, FLOW), tight(1, FLOW)]),
    'A03': dict(units=[alloc(0, CONSTR, 2), alloc(1, CONSTR, 2), tight(0, CONSTR), tight(1, CONSTR)]),
    'A04': dict(units=[alloc(0, INTERF, 2), alloc(1, INTERF, 2), tight(0, INTERF), tight(1, INTERF)]),
    'A05': dict(units=[alloc(0, EDITS, 2), alloc(1, EDITS, 2), tight(0, EDITS), tight(1, EDITS)]),
    'A06': dict(units=[alloc(0, SLOT, 2), alloc(1, SLOT, 2), tight(0, SLOT), tight(1, SLOT)]),
    'A07': dict(units=[alloc(0, DEBUG, 2), alloc(1, DEBUG | LOOSE, 2)]),
    'A08': dict(units=[alloc(0, SHAPE, 2), alloc(1, SHAPE, 2),
                       unit('h_ser_walk', 'any result: blocks of 1 to 3 instructions at any place in up to 5 (thorough: 6), up to 4 (thorough: 6) moves at any sorted points, 0 to 2 operands per instruction',
                            [(0, 1, 1, 2), (0, 3, 3, 4), (2, 1, 4, 4), (1, 2, 4, 3), (3, 2, 5, 3)], [(1, 3, 5, 5), (2, 2, 6, 4), (0, 2, 2, 6)], (1, 2),
                            {1: 'walk too long', 2: 'order of instructions', 3: 'unknown move', 4: 'order of moves', 5: 'move at the wrong instruction', 6: 'instruction left out', 7: 'move left out', 11: 'locations of an instruction', 12: 'locations of an instruction'})]),
    'A09': dict(units=[alloc(0, ERR, 2), alloc(1, ERR, 2), tight(0, ERR), tight(1, ERR)]),
    'M01': dict(units=[unit('h_moves_resolve',
        'up to 4 parallel moves (thorough: 5) with every choice of ends among 8 places (3 moves: among 5 mixed register and stack places), every order of distinct destinations (4 and more moves: one order of insertion), labels, one scratch place',
        [(0, 0, 3, 0), (1, 0, 3, 0), (2, 0, 3, 0), (2, 0, 0, 1), (3, 0, 3, 0), (4, 1, 3, 0), (4, 1, 3, 1)], [(3, 0, 0, 0), (4, 0, 3, 0), (5, 1, 3, 0)], (1, 2),
        {1: 'parallel effect, scratch open', 2: 'scratch to scratch', 3: 'scratch used although not asked for', 4: 'label of a move', 5: 'parallel effect, scratch given', 6: 'place left open', 7: 'without_scratch', 8: 'parallel effect', 9: 'scratch asked for without a cycle'})]),
    'M02': dict(units=[unit('h_moves_scratch',
        'up to 3 parallel moves (thorough: 4) among 8 places of which half are stack places (2 moves: 5 mixed places); 0 to 2 free registers, a borrowed register that is or is not an end of a move',
        [(1, 0, 2), (2, 0, 0), (2, 1, 0), (3, 0, 2), (3, 1, 2), (3, 2, 2)], [(3, 0, 0), (3, 1, 0), (4, 0, 2), (4, 1, 2)], (1, 2),
        {1: 'value of a place after the moves', 2: 'stack-to-stack move', 3: 'place left open', 4: 'label of a move'})]),
    'M03': dict(units=[unit('h_red_elide',
        'sequences of 3 (thorough: 4) events among 3 places (2 registers and 1 slot, 3 registers, 1 register and 2 slots), values arbitrary',
        [(3, 2, 1), (3, 3, 0), (3, 1, 2), (4, 1, 1)], [(4, 2, 1), (4, 3, 0), (5, 2, 0)], (1, 2), {1: 'elided move not in effect'})]),
    'G01': dict(units=[unit('h_graph_dom',
        'graphs of 4 blocks with up to 2 successors each, and of 5 and 6 blocks with the stated numbers of successors, any targets',
        [(4, 0, a, b, c, d) for a in (1, 2) for b in (0, 1, 2) for c in (1, 2) for d in (0, 1, 2)] + [(5, 0, 2, 2, 1, 1, 1), (5, 0, 2, 1, 2, 1, 0), (5, 0, 1, 2, 2, 1, 0), (3, 1, 2, 2, 2)],
        [(5, 0, 2, 2, 2, 1, 1), (5, 0, 2, 2, 2, 2, 1), (6, 0, 2, 1, 2, 1, 1, 1), (6, 0, 2, 2, 1, 1, 1, 0), (7, 0, 2, 1, 1, 1, 1, 1, 0), (4, 1, 3, 2, 2, 1)], (1, 2),
        {2: 'dominates() against removal of the block'})]),
    'G02': dict(units=[unit('h_graph_post',
        'graphs of 3 and 4 blocks (thorough: 5) with the stated numbers of successors in any order, any targets including repeated and out-of-range ones',
        [(3, 1, 2, 2, 1), (4, 1, 2, 2, 1, 1), (4, 0, 2, 2, 2, 1), (4, 0, 3, 1, 1, 1), (2, 1, 3, 2)], [(5, 0, 2, 2, 1, 2, 1), (5, 1, 2, 1, 2, 1, 1), (4, 1, 2, 2, 2, 2)], (1, 2),
        {1: 'error exactly when a target is out of range', 2: 'error value', 3: 'block repeated', 4: 'exactly the reachable blocks', 5: 'entry last', 6: 'forward edge against the order'})]),
    'D01': dict(units=[unit('h_enc_set', 'sets of up to 3 and 2 arbitrary registers (thorough: 4 and 3), observed at an arbitrary register', [(0, 1), (2, 1), (3, 2)], [(4, 3)]),
                       unit('h_enc_set_iter', 'sets of 2 arbitrary registers, and of 3 (thorough: 4) registers out of 12 at the ends and middle of the classes', [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 1), (3, 1, 1)], [(2, 1, 0), (4, 0, 1)])]),
    'D02': dict(units=[unit('h_enc_regs', 'every register, virtual register and stack slot number'),
                       unit('h_enc_operand', 'every virtual register, class, kind, position and constraint', [(i,) for i in range(6)]),
                       unit('h_enc_points', 'every instruction number below 2^30; ranges of up to 5 instructions', covers=(1, 2))]),
    'D03': dict(units=[unit('h_ix_ops', 'sets with 0 to 14 words present, up to 2 of them emptied again, then 2 or 3 arbitrary insertions or removals in old, emptied and new words; arbitrary bits',
                            [(0, 0, 3, 0), (2, 0, 2, 1), (11, 0, 2, 0), (11, 2, 3, 0), (12, 0, 2, 0), (12, 2, 2, 0), (12, 1, 2, 1), (13, 1, 2, 0), (14, 0, 2, 0), (14, 1, 1, 1)],
                            [(0, 0, 4, 0), (12, 2, 4, 0), (11, 1, 4, 0), (13, 0, 4, 0), (12, 3, 3, 1)]),
                       unit('h_ix_union', 'unions of sets of up to 14 words, overlapping, arbitrary bits', [(0, 2, 1, 0), (11, 3, 1, 0), (12, 2, 1, 2), (3, 12, 0, 1), (13, 13, 0, 0), (2, 2, 2, 0)], [(12, 3, 3, 2), (5, 13, 2, 1)],
                            codes={10: 'change reported by union', 11: 'union', 12: 'argument of union', 13: 'assigned set', 14: 'copy independent'})]),
    'D04': dict(units=[unit('h_ion_traverse', '3 (thorough: 5) registers per class, each preferred, not preferred or not allocatable; every hint, limit and starting offset; fixed register or not',
                            [(3, 0, 0), (3, 1, 0), (3, 2, 0), (3, 1, 1)], [(4, 1, 0), (5, 0, 0)], (1, 2, 3))]),
    'D05': dict(units=[unit('h_ion_merge', 'every pair of requirements and every place of one class', covers=(1, 2))]),
    'D06': dict(units=[unit('h_fast_lru', 'up to 4 registers and 4 uses (thorough: 5 and 5), every class, subset asked for', [(0, 0, 0), (1, 2, 0), (2, 3, 1), (3, 4, 2), (4, 4, 0)], [(4, 5, 1), (5, 4, 0)])]),
    'D07': dict(units=[unit('h_fast_vset', 'up to 4 values and 6 changes (thorough: 5 and 7)', [(1, 3), (3, 5), (4, 6)], [(5, 7)])]),
    'I01': dict(units=[unit('h_cfg_edges', 'graphs of 3 to 5 blocks with the stated numbers of successors, any targets, repeated ones as well; entry first or elsewhere; operands on any instruction or not',
                            [(3, 0, 0, 2, 2, 1), (3, 1, 1, 2, 2, 1), (4, 0, 0, 2, 1, 1, 1), (4, 0, 1, 2, 1, 1, 1), (4, 1, 0, 2, 2, 1, 1), (4, 0, 0, 1, 2, 2, 0), (5, 0, 0, 2, 1, 2, 1, 1), (5, 2, 0, 1, 1, 2, 1, 2), (5, 0, 0, 1, 2, 2, 1, 0)],
                            [(5, 0, 0, 2, 2, 2, 1, 1), (6, 0, 0, 2, 1, 2, 1, 1, 0), (5, 0, 1, 2, 2, 1, 1, 1)], (1, 2, 3),
                            {1: 'critical edge accepted', 2: 'branch operand accepted', 10: 'critical edge reported where there is none', 13: 'branch operand reported where there is none'})]),
    'I02': dict(units=[unit('h_cfg_ssa', 'seven control-flow graphs of 1 to 4 blocks (straight, diamond, loop, unreachable code); 1 or 2 operands per instruction, each any use or definition of 1 or 2 values, of a value that does not exist, or a fixed register; any block parameters and branch arguments; any placement of branch and return flags',
                            [(0, 2, 0, 2, 2), (0, 2, 0, 1, 3), (1, 1, 0, 2, 1, 1), (1, 2, 0, 1, 2, 2), (1, 1, 1, 1, 1, 1), (2, 1, 0, 1, 1, 2, 1, 1), (2, 2, 0, 1, 1, 2, 1, 1), (2, 1, 1, 0, 1, 1, 1, 1), (2, 2, 1, 0, 1, 1, 1, 1), (3, 1, 0, 1, 2, 1, 2, 1), (3, 1, 1, 0, 1, 1, 1, 1),
                             (4, 1, 0, 1, 1, 1, 1), (4, 1, 1, 0, 1, 1, 1), (5, 2, 0, 1, 1, 1, 2), (5, 1, 1, 1, 1, 1, 1), (6, 2, 0, 1, 1, 2, 2), (0, 1, 2, 0, 3), (1, 1, 2, 0, 2, 1), (1, 1, 2, 0, 1, 2), (5, 1, 2, 0, 1, 1, 1), (6, 1, 2, 0, 1, 1, 1)],
                            [(0, 2, 0, 2, 3), (1, 2, 0, 2, 1, 2), (2, 2, 0, 1, 2, 2, 1, 1), (2, 1, 1, 1, 1, 1, 1, 1), (3, 2, 0, 1, 1, 1, 2, 2), (3, 2, 1, 0, 1, 1, 1, 1)], (1, 2),
                            {1: 'accepted exactly when valid'})]),
    'A10': dict(units=[dict(group='g_pub', entry='h_alloc_reuse', time=60, ttime=60, cap=True, covers=[1, 2, 3, 4], wide=False, jobs=pairs(a, n, step),
                            bounds='%d earlier program(s) allocated by %s with one context, then another by %s; programs as for A01 and A02, each with its own environment, with every completion of those with few open choices' % (n, NAME[a[0]], NAME[a[1]]))
                       for a, n, step in (((0, 0), 1, 12), ((1, 0), 1, 60), ((0, 0), 2, 60), ((0, 1), 1, 60), ((1, 1), 1, 60))]),
    'I03': dict(units=[dict(group='g_pub', entry='h_alloc_undefined', time=100, ttime=400, covers=[1, 2], wide=False, jobs=undefined,
                            bounds='functions of 1 to 6 blocks (suites/undef.txt) with uses and branch arguments chosen freely among values defined there, elsewhere or later; backtracking with and without validation, single-pass with validation')]),
    'S01': dict(units=[unit('h_ser_function', 'functions of up to 4 blocks, 8 instructions, 2 operands each of every form; all numbers, registers, sets, targets, flags, sizes and labels arbitrary',
                            [(f, nb, *x) for f in range(7) for nb, x in ((1, (0, 0, 2)), (2, (1, 1, 2, 1, 2, 1)), (3, (0, 2, 2, 1, 1, 3, 1, 0, 2)), (4, (0, 2, 3, 1, 1, 3, 1, 1, 2, 2, 0, 4)))],
                            [(f, 5, 0, 2, 3, 1, 1, 3, 1, 1, 2, 2, 0, 4, 2, 2, 3) for f in range(7)], (1,),
                            {**{k + d: '%s: %s' % (w, t) for k, w in ((1, 'captured function'), (31, 'function read back')) for d, t in enumerate(('numbers of instructions and blocks', 'entry', 'branch and return flags', 'clobbers', 'operands', 'instructions of a block', 'predecessors or successors', 'block parameters or branch arguments', 'number of vregs', 'labels', 'spill slot size', 'slot numbering convention', 'multiple definitions allowed'))},
                             **{k: 'machine environment' for k in (20, 21, 22, 23, 50, 51, 52, 53)}, 60: 'not written', 61: 'not read back'}),
                       unit('h_ser_output', 'results with up to 3 operands, moves and debug locations, all contents arbitrary', [(0, 0, 0), (3, 2, 1), (1, 3, 3)])]),
    'C01': dict(units=chk(0)),
    'C02': dict(units=chk(1) + [accept(0), accept(1)]),
}

HOOK_COMMITS = ['04dfc0aa25572d280cec7afac1f4837e1b63705c', 'b7d77828477d1feb28ab0f5334f4f2e2a31cff5e']
