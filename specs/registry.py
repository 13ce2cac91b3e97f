"""Which specification units (spec file, configuration, harnesses) decide which property."""
def U(spec, hs, defs=(), **k): return dict(spec=spec, harness=hs.split() if isinstance(hs, str) else list(hs), defs=list(defs), **k)
TRUSTED = ['clang 18 front end and opt-18 passes sroa, loop-simplify (C++ to LLVM IR)', 'vc/llvmir.py, vc/symex.py (verification-condition generator)', 'z3 5.3.2, cvc5 1.1.2',
           'vc/lia.py (back end z3-lia: decides bit-vector goals through linear integers; differentially fuzzed by tools/lia_fuzz.py)', 'libstdc++ header code is executed symbolically as compiled']
ASSUME = ['x86-64 data layout; -O0 code generation is semantics preserving', 'template parameters (buffer sizes, ranges, element types) are the listed instances; run-time values are unbounded',
          'KTL_ASSERT is disabled (as in the tested configuration)', 'heap addresses lie in [4096, 2^46), local objects elsewhere; sums of two heap addresses do not wrap', 'machine arithmetic is bit precise (nothing is treated as mathematical integers)']
OPQ = 'parts and underlying allocators are opaque: each call may succeed or fail arbitrarily, a served block is fresh, max_align_t-aligned and as large as asked for; their objects are reached only through the allocator interface'
CONT = 'a request of a container for at least one element is met by its allocator (containers have no way to report that it is not)'
ASSUME_P = {
 'A03': [OPQ], 'A05': [OPQ], 'A06': [OPQ, 'Max of a freelist is at least the size of a link'], 'A07': [OPQ, 'instances own exactly the blocks they handed out and not yet took back'],
 'A08': [OPQ, 'the stream is observed as the phrases and values written to it'], 'A09': [OPQ, 'the byte and construction balances stay below 2^61 in magnitude'],
 'A10': [OPQ, 'interference by other threads on the atomic count is rely/guarantee: others only add or drop handles of their own; atomics are sequentially consistent per location (fences are checked only where release of the last handle needs acquire)'],
 'A11': [OPQ, 'pthread mutex operations behave as specified by POSIX'], 'A12': [OPQ], 'A04': [OPQ], 'A13': [OPQ],
 'C01': [CONT], 'C02': [CONT], 'C03': [CONT], 'C05': [CONT, 'the comparison is a strict weak ordering of the values and does not change its arguments'], 'C06': [CONT], 'C07': [CONT],
}
HEAP = ['lemma: h_root proves the induction step "no element precedes the first"; peek and pop use the conclusion for all positions (induction over the position is done by hand)', 'the elements in distinct slots are distinct and each is one put in: that nothing is missing follows by counting', 'list constructors: insert is represented by its contract (insert_contract in specs/heap.cpp), whose statement insert_copy_room and insert_move_room establish for its body', 'the comparison is a strict weak ordering: it compares an arbitrary key of the value']
for _p in ('C05', 'C06', 'C02', 'C07'): ASSUME_P[_p] = [a for a in ASSUME_P[_p] if 'strict weak' not in a] + HEAP
def sizes(names, ns): return ' '.join('%s_%s' % (a, n) for n in ns for a in names.split())
QN = (1, 16, 20, 1024, 4096); TN = (64, 1000, 8191, 65536)
def bump(names): return [U('bump', sizes(names, QN)), U('bump', sizes(names, TN), tier='thorough')]
FLR = ((0, 64), (16, 32), (0, 8), (64, 4096), (7, 9))
def FL(hs): return [U('freelist', hs, ['MIN=%d' % a, 'MAX=%d' % b], cost=12) for a, b in FLR]
def routing(two, multi, mq=('2', '4'), fb=('2', '3', '9'), sg=('2', '3', '8')):
    q = ' '.join('fb%s_%s_%s' % (m, k, n) for m in ('min', 'max') for k in multi.split() for n in fb) + ' ' + ' '.join('sg%s_%s_%s' % (m, k, n) for m in ('min', 'max') for k in multi.split() for n in sg)
    t = ' '.join('fb%s_%s_%s' % (m, k, n) for m in ('min', 'max') for k in multi.split() for n in '45678') + ' ' + ' '.join('sg%s_%s_%s' % (m, k, n) for m in ('min', 'max') for k in multi.split() for n in '4567')
    return [U('routing', two + ' ' + q, cost=3), U('routing', t, cost=3, tier='thorough')]
OV = lambda hs: U('overflow', hs, cost=15)
CA = lambda hs: U('cascading', hs, cost=20)
def SH(hs): return [U('shared', hs, ['ATOMIC=%d' % a], flags=['-Wno-invalid-offsetof'], cost=4) for a in (0, 1)]
def WR(hs, szs=(12,), tier='quick'): return [U('wrappers', hs, ['SZ=%d' % z], tier=tier) for z in szs]
TYSZ = (1, 3, 8, 12, 4096)
def UT(hs, cfgs=(0, 1, 2, 3, 4)):
    return [U('utils', hs, ['CFG=%d' % c, 'ALIGN=16']) for c in cfgs] 
def UTX(hs): return [U('utils', hs, ['CFG=%d' % c, 'ALIGN=%d' % a]) for c in (1, 2, 3, 4) for a in (8, 32, 256)]
VALL = ('v_ctor v_ctor_default v_ctor_n v_ctor_fill v_ctor_list v_ctor_range v_access v_push v_push_own v_push_move v_push_move_own v_emplace_back v_emplace_back_own v_push_range v_push_range_own v_emplace v_emplace_own '
        'v_erase v_erase_range v_pop v_clear v_resize v_reserve v_dtor v_copy v_copy_alloc v_move v_move_alloc v_copy_assign v_move_assign v_copy_self v_move_self v_reuse')
VC7 = 'v_copy v_copy_alloc v_move v_move_alloc v_copy_assign v_move_assign v_copy_self v_move_self v_reuse'
AALL = 'a_ctor a_ctor_default a_ctor_n a_ctor_fill a_ctor_list a_ctor_range a_access a_resize a_assign a_assign_own a_dtor a_copy a_copy_alloc a_move a_move_alloc a_copy_assign a_move_assign a_copy_self a_move_self a_swap a_reuse'
AC7 = 'a_copy a_copy_alloc a_move a_move_alloc a_copy_assign a_move_assign a_copy_self a_move_self a_swap a_reuse'
BALL = 'b_access b_fill b_list b_range b_assign b_copy b_move b_copy_assign b_move_assign b_self'
def EL(spec, hs, szs=(1, 8, 12), cost=8): return [U(spec, hs, ['SZ=%d' % z], cost=cost) for z in szs]
def HP(*groups): return [U('heap', hs, cost=c) for hs, c in groups]
H_INS = [('insert_copy_full insert_move_full insert_own_full', 110), ('insert_copy_room insert_copy_first insert_move_room insert_move_first insert_own_room', 30)]
H_COPY = [('copy_assign_full', 90), ('copy_assign_source', 50), ('copy copy_alloc move_alloc copy_assign_target copy_assign_none move_assign copy_self move_self', 20), ('move reuse', 5)]
H_REST = [('pop_many', 55), ('reserve_more', 20), ('dtor clear pop_last reserve_room reserve_first', 10), ('ctor_default ctor_comp ctor_alloc ctor_n ctor_n_alloc', 2), ('ctor_list ctor_list_alloc', 15)]
H_LOOK = [('root peek find', 10)]
def hn(gs): return [(' '.join('h_' + x for x in a.split()), c) for a, c in gs]
PROPS = {
 'A01': bump('lin_alloc lin_dealloc stk_alloc stk_dealloc') + UT('al_round', (0,)),
 'A02': bump('lin_dealloc lin_fresh lin_move lin_move_assign stk_dealloc stk_fresh stk_share'),
 'A03': bump('lin_alloc stk_alloc') + FL('fl_alloc') + routing('fb_alloc sg_alloc_16 sg_alloc_0 sg_alloc_4096 sg_alloc_max', 'alloc') + [OV('ov_alloc'), CA('ca_alloc ca_alloc_nomax')] + SH('sh_create sh_create_args sh_use')
        + WR('ty_alloc', TYSZ) + WR('re_alloc gl_alloc th_alloc nu_all ma_all') + UT('al_malloc al_new'),
 'A04': bump('lin_owns stk_owns lin_alloc stk_alloc') + routing('fb_owns sg_owns', 'owns') + [CA('ca_owns ca_owns_mine'), OV('ov_owns')] + SH('sh_owns') + WR('ty_owns re_owns gl_owns th_owns fl_owns nu_all'),
 'A05': routing('fb_alloc fb_dealloc fb_cons_pf fb_cons_p fb_cons_f sg_alloc_16 sg_alloc_0 sg_alloc_4096 sg_alloc_max sg_dealloc_16 sg_dealloc_0 sg_dealloc_4096 sg_cons_pf sg_cons_p sg_cons_f ctor_args', 'alloc dealloc cons'),
 'A06': FL('fl_alloc fl_dealloc fl_destroy fl_move fl_move_assign'),
 'A07': [CA('ca_alloc ca_alloc_nomax ca_dealloc ca_cons ca_dest ca_owns ca_release ca_move ca_move_assign ca_max')],
 'A08': [OV('ov_alloc ov_dealloc')],
 'A09': [OV('ov_alloc ov_dealloc ov_dtor ov_fresh ov_move ov_cons ov_cons_self')],
 'A10': SH('sh_create sh_create_args sh_copy sh_move sh_drop sh_drop_empty sh_drop_two sh_copy_assign sh_copy_assign_same sh_copy_assign_self sh_move_assign sh_move_assign_same sh_move_assign_self sh_use'),
 'A11': WR('th_alloc th_dealloc th_two'),
 'A12': SH('sh_create_args sh_use sh_cons sh_owns') + WR('ty_alloc ty_dealloc ty_roundtrip ty_cons ty_owns', TYSZ) + WR('re_alloc re_dealloc re_cons re_owns re_copies re_refs gl_alloc gl_dealloc gl_cons gl_owns gl_copies th_alloc th_dealloc th_cons th_owns th_two th_args fl_cons fl_owns nu_all ma_all')
        + [OV('ov_cons ov_cons_self ov_owns'), CA('ca_cons ca_dest ca_owns ca_max')] + routing('ctor_args', 'cons', fb=('2',), sg=('2',)),
 'A13': bump('lin_eq lin_owns stk_owns lin_fresh stk_fresh stk_share') + [U('routing', 'route_eq'), OV('ov_eq'), CA('ca_eq')] + SH('sh_eq') + WR('ty_eq fl_eq re_copies gl_copies th_two nu_all ma_all re_refs ty_cons'),
 'C01': EL('vector', VALL),
 'C02': EL('vector', VALL) + EL('array', AALL) + HP(*hn([('insert_copy_full', 110), ('pop_many', 55), ('insert_copy_room insert_copy_first', 30), ('copy_assign_source', 50), ('copy copy_alloc move_alloc copy_assign_target copy_assign_none move_assign copy_self move_self', 20), ('move reuse', 5)] + H_REST[1:])),
 'C03': EL('array', AALL),
 'C04': EL('buffer', sizes(BALL, (1, 2, 3, 8, 100)), (1, 8), cost=4) + EL('buffer', sizes(BALL, (1, 2, 3, 8, 20)), (12,), cost=9),
 'C05': HP(*hn(H_INS + H_REST + H_LOOK + H_COPY)),
 'C06': HP(*hn(H_INS + H_REST + H_LOOK + H_COPY)),
 'C07': EL('vector', VC7) + EL('array', AC7) + HP(*hn(H_COPY)),
 'C08': [U('packed', ' '.join('pk_%s_%s' % (a, n) for a in 'abcdefghijklmnopq' for n in ('8', '16', '32', '64', 'b')))],
 'U01': UT('al_malloc al_null al_new al_round al_log2') + UTX('al_malloc al_null al_new') + WR('ma_all nu_all'),
}
DRIVERS = {'U01': [dict(defs=['CFG=%d' % c]) for c in range(5)], 'A10': [dict(), dict(san='tsan')], 'A11': [dict(), dict(san='tsan')]}
NOTE = {}
