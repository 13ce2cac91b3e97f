#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so that ids/titles/anchors are edited in one place).
import json,os
P=[]
AL='include/ktl/allocators/'; CO='include/ktl/containers/'; UT='include/ktl/utility/'
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('A01','Bump allocators hand out aligned, in-bounds, pairwise disjoint blocks',
 'Every non-null block a linear or stack allocator returns is max_align_t-aligned, lies with all the bytes asked for inside the allocator\'s own buffer, and overlaps no block that is still live. Handing out, returning or failing to hand out a block never disturbs another live block.',
 ['inputs','histories'],'every buffer size, every reachable allocator state (any interleaving of allocate/deallocate in any order) and every request size from 0 to SIZE_MAX',
 'Tests take a handful of small fixed sizes in one order; overlap or overrun needs particular sizes (near the end of the buffer, near SIZE_MAX) in a particular state.',
 [AL+'linear_allocator.h',AL+'stack_allocator.h',UT+'alignment.h'],
 [('linear_allocator::allocate/deallocate',AL+'linear_allocator.h'),('stack_allocator::allocate/deallocate',AL+'stack_allocator.h'),('align_to_architecture',UT+'alignment.h')],
 [('free pointer','start of the unused suffix of the buffer',AL+'linear_allocator.h'),('object count','bytes (rounded) currently handed out',AL+'linear_allocator.h')],
 ['return value of allocate','owns'])
p('A02','Bump allocators give their space back (LIFO, and in full when empty)',
 'Returning the most recently allocated block of a linear or stack allocator makes exactly its space available again, and once every block has been returned, in whatever order, the whole buffer is available again; space is never released while a live block occupies it. A moved-to or freshly constructed allocator starts with its whole buffer available.',
 ['histories','inputs'],'every sequence of allocations and deallocations, of any sizes and in any order, including after moves',
 'Unit tests return a few equally sized blocks in one order; a stale counter or rounding mismatch appears only after particular histories.',
 [AL+'linear_allocator.h',AL+'stack_allocator.h'],
 [('deallocate',AL+'linear_allocator.h'),('deallocate',AL+'stack_allocator.h'),('move construction/assignment',AL+'linear_allocator.h')],
 [('free pointer','start of the unused suffix',AL+'linear_allocator.h'),('object count','bytes currently handed out',AL+'linear_allocator.h')],['allocate succeeding again'])
p('A03','A request that cannot be met yields null and leaves everything unchanged',
 'Every allocator returns null for a request it cannot satisfy (too large, exhausted, outside its accepted range, sub-allocator out of memory, or so large that the byte count is not representable), never a block smaller than requested. A refused request leaves the allocator usable exactly as before it.',
 ['inputs','fault_sequences','histories'],'every request size in [0,SIZE_MAX], every element size, every allocator state and every choice of which underlying allocation fails',
 'Tests ask for at most one slightly-too-big size and never make an underlying allocation fail; wrap-around sizes and failing sub-allocators are never reached.',
 [AL+'linear_allocator.h',AL+'stack_allocator.h',AL+'type_allocator.h',AL+'overflow.h',AL+'cascading.h',AL+'freelist.h',AL+'fallback.h',AL+'segragator.h',AL+'null_allocator.h',AL+'mallocator.h'],
 [('allocate of every allocator',AL)],(),['return value of allocate','later allocations'])
p('A04','owns() answers exactly for the memory the allocator is responsible for',
 'owns(p) is true precisely for addresses inside the buffer of a linear or stack allocator, for addresses owned by one of a cascading allocator\'s instances, and for addresses either part of a fallback or segregator owns; all wrappers answer exactly as the allocator they wrap. Asking never changes anything, and every live non-empty block of an allocator that can answer is owned by it.',
 ['inputs','histories'],'every address (inside, one past the end, just before, null, other allocators\' blocks) and every allocator state',
 'Tests ask about one owned block; boundary addresses and chains of instances are not sampled.',
 [AL+'linear_allocator.h',AL+'stack_allocator.h',AL+'cascading.h',AL+'fallback.h',AL+'segragator.h',AL+'freelist.h',AL+'reference.h',AL+'shared.h',AL+'global.h',AL+'threaded.h',AL+'type_allocator.h',AL+'null_allocator.h'],
 [('owns of every allocator',AL)],(),['owns'])
p('A05','Composite allocators return each block to the part that supplied it',
 'For fallback and segregator allocators, and for the multi-way ones the builders nest out of them, an allocation is served by the documented part (the first in order that can, or the one whose size range holds the request) and deallocation hands the block back to exactly that part with the size it was allocated with. No other part is told of the block, and objects are constructed and destroyed exactly once, by the part that owns the memory.',
 ['inputs','histories','configurations'],'every request size including each threshold boundary, every nesting built by the builders, every behaviour of the parts consistent with the allocator interface, every order of deallocation',
 'Tests use two concrete parts with one or two sizes each; they do not see which part a block went back to, nor with what size.',
 [AL+'fallback.h',AL+'segragator.h',AL+'fallback_fwd.h',AL+'segragator_fwd.h',UT+'builder.h'],
 [('fallback::allocate/deallocate',AL+'fallback.h'),('segragator::allocate/deallocate',AL+'segragator.h'),('segragator_builder/fallback_builder',AL+'segragator_fwd.h')],(),['calls received by the parts'])
p('A06','A freelist never gives out a block in use and returns every block it took',
 'A freelist accepts exactly the sizes in its range (Min,Max], gives out blocks of at least Max usable bytes that are not in use, and prefers recycling a block handed back earlier over asking for a new one. Destroying or assigning over it returns each recycled block to the underlying allocator exactly once with the size it was obtained with, and moving transfers the recycled blocks without loss or duplication.',
 ['histories','inputs'],'every sequence of allocate/deallocate/move/destroy, every chain length, every request size, and every underlying allocator behaviour including failure',
 'Tests recycle one or two blocks; the chain of arbitrary length and the exact give-back at destruction are never observed.',
 [AL+'freelist.h'],[('allocate/deallocate/release, move',AL+'freelist.h')],
 [('free chain','singly linked list threaded through the recycled blocks',AL+'freelist.h')],['calls received by the underlying allocator'])
p('A07','Cascading allocators keep each block with its instance and free empty ones',
 'A cascading allocator serves each request from one of its instances, creating a new one only when the current one cannot serve it; each block is returned to the instance that owns it. An instance other than the current one is destroyed exactly when its last block is returned, never while it still has live blocks, and destroying or assigning over the allocator destroys every remaining instance exactly once.',
 ['histories','inputs'],'every sequence of allocate/deallocate/move/destroy, any number of instances, every deallocation order, every sub-allocator behaviour',
 'Tests create two or three instances and deallocate in one order; unlinking the wrong instance needs a longer chain and a specific order.',
 [AL+'cascading.h',UT+'aligned_malloc.h'],[('allocate/deallocate/release/owns/construct/destroy',AL+'cascading.h')],
 [('instance list','singly linked list of instances with live-block counts',AL+'cascading.h')],['calls received by the instances','instances destroyed'])
p('A08','Overflow detection reports exactly the corruption next to a block',
 'When a block is returned to an overflow-checking allocator, a corruption report is written if and only if some byte in the 64 bytes before or the 64 bytes after it was changed since allocation, and it states the correct extents, address and size. The block the user gets is exactly the size asked for between the guards, the guards lie inside the memory obtained from the underlying allocator, and that memory goes back with the size it was obtained with.',
 ['inputs','histories'],'every block size, every guard byte position and every value written there',
 'Tests corrupt one or two chosen bytes of one block; 128 positions times 255 wrong values times all sizes are not enumerated.',
 [AL+'overflow.h'],[('allocate (guards written) and deallocate (guards compared)',AL+'overflow.h')],
 [('guard zones','64 pattern bytes each side of a block',AL+'overflow.h')],['text written to the stream','calls received by the underlying allocator'])
p('A09','Leak and construct/destroy imbalance are reported exactly',
 'When an overflow-checking allocator is destroyed it reports a leak if and only if the bytes successfully allocated and the bytes returned differ, and a constructor/destructor imbalance if and only if those calls differ in number, with the right direction and amount. A balanced history, including one in which some allocations failed, is silent.',
 ['histories','inputs','fault_sequences'],'every history of allocate/deallocate/construct/destroy with any sizes and any allocation failures',
 'Tests look at one leak of one size; failures of the underlying allocator and mixed histories are not covered.',
 [AL+'overflow.h'],[('counters and destructor',AL+'overflow.h')],
 [('allocated bytes / constructs','signed balances',AL+'overflow.h')],['text written to the stream'])
p('A10','A shared allocator lives exactly as long as some handle refers to it',
 'All copies of a shared allocator refer to the same underlying allocator, which stays alive while any handle refers to it and is destroyed and its memory released exactly once, when the last handle is destroyed or reassigned. Copying, moving and assigning (also to itself) keep the count exact, also when other threads copy and drop their own handles at the same time with the atomic variant.',
 ['histories','schedules'],'every sequence of copy/move/assign/self-assign/destroy on any number of handles; for the atomic variant any interference by other threads between two atomic steps',
 'Tests copy a handle once or twice; self-assignment, moved-from handles and interference between the atomic steps are not exercised.',
 [AL+'shared.h',UT+'aligned_malloc.h'],[('increment/decrement, copy/move',AL+'shared.h'),('notomic',AL+'shared.h')],
 [('use count','number of handles referring to the block',AL+'shared.h')],['destruction of the underlying allocator','memory release'])
p('A11','A threaded allocator reaches its inner allocator only under its lock',
 'Every allocation and deallocation through a threaded allocator takes the allocator\'s own lock before touching the wrapped allocator, holds it for the whole operation, and has released it when the call returns, whatever the outcome. The result and effect are exactly those of the wrapped allocator.',
 ['schedules','inputs'],'every interleaving of threads (reduced to the lock discipline), every request size and every outcome of the wrapped allocator',
 'Tests call it from one thread, or a few threads on one schedule; a missing or early-released lock is invisible there.',
 [AL+'threaded.h'],[('lock_guard in allocate/deallocate',AL+'threaded.h')],[('lock','mutex per allocator',AL+'threaded.h')],['lock state when the wrapped allocator is called'])
p('A12','Thin wrappers forward every request to the same allocator unchanged',
 'Typed, reference, global, shared, threaded and freelist/overflow-passthrough operations reach exactly the wrapped allocator, once, with the arguments unchanged (typed: scaled to bytes by the element size) and return its result unchanged; construct and destroy reach it exactly once per object. Copies of a wrapper refer to the allocator its documentation says (the same one for reference and shared, a copy for typed, the static one for global).',
 ['inputs','programs'],'every argument value, every element type size, every wrapped allocator behaviour',
 'Tests only observe that something was allocated; a scaled-twice size, a dropped call or a call to another instance is not visible.',
 [AL+'type_allocator.h',AL+'reference.h',AL+'global.h',AL+'shared.h',AL+'threaded.h',AL+'freelist.h',AL+'overflow.h'],
 [('forwarding members',AL)],(),['calls received by the wrapped allocator'])
p('A13','Allocator equality is coherent with which memory they can free',
 'For every allocator, a != b is the negation of a == b, equality is reflexive and symmetric, and copies of an allocator that share storage compare equal. Two allocators compare equal only if a block from one can be returned through the other.',
 ['inputs','configurations'],'every pair of allocator states of each allocator type',
 'Tests compare one equal pair with ==; != and unequal pairs are mostly untested.',
 [AL+'linear_allocator.h',AL+'stack_allocator.h',AL+'type_allocator.h',AL+'reference.h',AL+'global.h',AL+'shared.h',AL+'threaded.h',AL+'freelist.h',AL+'cascading.h',AL+'fallback.h',AL+'segragator.h',AL+'overflow.h',AL+'mallocator.h',AL+'null_allocator.h'],
 [('operator==/!=',AL)],(),['==','!='])
p('C01','A trivial vector holds exactly the sequence its operations describe',
 'After any construction, push, emplace, insert, erase, pop, resize, reserve or clear, a trivial vector\'s size and elements are those of the mathematical sequence the operation describes, with all other elements unchanged and in order, and returned iterators point at the documented element. This holds also when the operation reallocates and when an argument refers to an element of the vector itself.',
 ['inputs','histories'],'every length, capacity, position, count and element value, for trivially copyable types of any size',
 'Tests use a few short vectors; off-by-one moves, growth boundaries and aliasing arguments need specific lengths and capacities.',
 [CO+'trivial_vector.h'],[('all members',CO+'trivial_vector.h')],[('begin/end/capacity end','storage and extent',CO+'trivial_vector.h')],['size','operator[]','iteration'])
p('C02','Containers never leave their storage and return it correctly',
 'Vector, array and heap access only storage they obtained from their allocator and only within its extent, never after returning it, and return every storage block exactly once, to the allocator it came from, with the element count it was obtained with. Capacity always is at least the size, and no operation leaks a block.',
 ['histories','inputs','fault_sequences'],'every sequence of operations on any number of containers, every length and capacity',
 'Tests use std::allocator-like sub-allocators that ignore the size argument and short lengths; wrong counts and one-past accesses pass unnoticed.',
 [CO+'trivial_vector.h',CO+'trivial_array.h',CO+'binary_heap.h'],[('constructors, assignment, growth, destructor',CO)],(),['allocate/deallocate calls'])
p('C03','A trivial array holds exactly its elements through resize, assign and copy',
 'After construction, resize, assign, copy, move or swap of contents, a trivial array has the size asked for and each element is the source element at the same position; resizing keeps the common prefix. Empty and default-constructed arrays behave like arrays of length zero.',
 ['inputs','histories'],'every length, every element value and every element size',
 'Tests use fixed short arrays; shrinking, empty and different-size assignment boundaries are not enumerated.',
 [CO+'trivial_array.h'],[('all members',CO+'trivial_array.h')],(),['size','operator[]','iteration'])
p('C04','A trivial buffer stores Size elements faithfully, copies and iterates',
 'A trivial buffer constructed from a value, list, range or other buffer reads back exactly those elements through every accessor (index, at, data, iterators in both directions), elements are correctly aligned and independent of each other, and copies are independent. Indexes are taken modulo its size and no access leaves the buffer.',
 ['inputs','configurations'],'every element type size, buffer size, index and value',
 'Tests read a few indexes of one small buffer of one type; other types do not even instantiate some members.',
 [CO+'trivial_buffer.h'],[('all members',CO+'trivial_buffer.h')],(),['operator[]','at','data','begin/end'])
p('C05','A binary heap always yields the best element and loses or invents none',
 'At every point the element a binary heap offers or removes is one that no other element should precede under its comparison, and the multiset of elements is exactly those inserted and not yet removed. Insert returns the position of the inserted element; find returns a matching element if and only if there is one.',
 ['inputs','histories'],'every heap size, every insertion/removal history and every strict weak ordering, including many equal elements',
 'Tests insert a handful of distinct integers; duplicates, two-children choices and deep percolation are sampled sparsely.',
 [CO+'binary_heap.h'],[('insert/pop with percolation up and down',CO+'binary_heap.h')],[('element array','implicit binary tree, parent not after child',CO+'binary_heap.h')],['peek','pop','find','iteration'])
p('C06','Heap elements are constructed, moved and destroyed exactly once each',
 'Every element a binary heap holds is alive, every object it constructs is destroyed exactly once, and it never reads, assigns to or destroys an object that is not alive. This holds through insert, pop down to empty, growth, reserve, clear, copy, move and destruction.',
 ['histories','inputs'],'every heap size and history, for any element type with its own resources',
 'Tests mostly use trivial elements, for which lifetime errors have no visible effect.',
 [CO+'binary_heap.h'],[('insert/pop/set_size/copy/move/destructor',CO+'binary_heap.h')],(),['constructor/destructor calls of the element type'])
p('C07','Copies of containers are equal and independent; moves transfer',
 'Copying a vector, array, or heap (construct or assign, also with another allocator, also self-assignment) leaves the source unchanged and gives an equal, independent container; moving gives the destination exactly the former contents and leaves the source empty and reusable. Self-assignment leaves the container unchanged.',
 ['inputs','histories'],'every length and capacity of source and destination, equal or different allocators, self-assignment',
 'Tests copy small non-empty containers once; empty, self and different-allocator cases are mostly absent.',
 [CO+'trivial_vector.h',CO+'trivial_array.h',CO+'binary_heap.h'],[('copy/move constructors and assignments',CO)],(),['contents of source and destination'])
p('C08','A packed pointer keeps pointer and integer independent and exact',
 'For every suitably aligned pointer and every integer that fits the declared number of bits, a packed pointer returns exactly the pointer and integer last stored, and setting one never changes the other; integers too large are reduced to the declared bits without touching the pointer. It converts to false only when both are zero.',
 ['inputs','configurations'],'every aligned 64-bit pointer, every integer of every unsigned type, every alignment and bit count',
 'Tests store a few values; a wrong mask shows only for particular bits.',
 [CO+'packed_ptr.h',UT+'bits.h'],[('pack/unpack masks',CO+'packed_ptr.h'),('log2',UT+'bits.h')],[('value','pointer bits and integer bits in one word',CO+'packed_ptr.h')],['get_ptr','get_int'])
p('U01','Size rounding, log2 and aligned allocation helpers are exact',
 'Rounding a size up gives the least multiple of the maximum alignment not below it, log2 is the exact floor logarithm for every non-zero value. The system allocator wrapper returns, on each of its portable configurations, null or a block of at least the size asked for with the alignment asked for, which its matching release function gives back to the system exactly once.',
 ['inputs','configurations'],'all 2^64 sizes and values; each portable branch of the aligned allocation helper',
 'Tests evaluate a few constants and only the one branch this platform selects.',
 [UT+'alignment.h',UT+'bits.h',UT+'aligned_malloc.h',UT+'meta.h',AL+'mallocator.h'],[('align_to_architecture',UT+'alignment.h'),('log2',UT+'bits.h'),('aligned_malloc/aligned_free/aligned_new/aligned_delete',UT+'aligned_malloc.h')],(),['return values','malloc/free calls'])
p('X01','Concurrent histories on threaded and shared allocators are linearizable',
 'When several threads use one threaded allocator, or copies of one atomically shared allocator wrapping a thread-safe one, every history of their results is one that some sequential order of the same calls could have produced. No data race occurs under the C++ memory model.',
 ['schedules','histories'],'every schedule of any number of threads under the C++ memory model',
 'Tests run one thread or a fixed small schedule.',
 [AL+'threaded.h',AL+'shared.h'],[('mutex',AL+'threaded.h'),('atomic reference count',AL+'shared.h')],(),['results of concurrent calls'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
