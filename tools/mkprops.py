import json
SW='tpp/detail/swiss_table.hpp'; DE='tpp/detail/dense_table.hpp'; TC='tpp/detail/table_common.hpp'; UT='tpp/detail/utility.hpp'
SETS=['tpp/sparse_set.hpp','tpp/stable_set.hpp','tpp/dense_set.hpp']; MAPS=['tpp/sparse_map.hpp','tpp/stable_map.hpp','tpp/dense_map.hpp']; MULTI=['tpp/dense_multiset.hpp','tpp/dense_multimap.hpp']
def P(id,title,st,over,q,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files))]))
    d['anchors'].update(kw); return d
L=[
P('P01','Single-key containers implement the abstract set or map',
 'After any sequence of operations on a single-key set or map, every lookup, membership test, element access, insertion, assignment and erasure returns what the same sequence on an abstract set or map of unique keys returns, for every hash function and key equality that are consistent with each other. An insertion whose key is equal to a stored one changes nothing (the stored key included) and reports the stored element; assigning forms replace only the mapped value; element access by key creates a default value or throws as documented.',
 ['histories','inputs'],'All operation histories over all twelve single-key containers, all key populations and all consistent hash/equality pairs, including constant, clustered, and partial-hash-colliding ones, through growth, tombstones, in-place reclamation and shrinking/rehash requests.',
 'The unit tests run one fixed insert/find/erase script with about a thousand std::string keys under std::hash; colliding hashes, long churn, and most overloads (hinted, assigning, replacing, heterogeneous) are never run.',
 [SW,DE]+SETS+MAPS,'Probing over 16-byte (or 8-byte) metadata groups with h1/h2 split, mirrored tail bytes, deleted markers and in-place reclamation; bucket chains threaded through a dense array with swap-with-last erasure.',
 state=[dict(name='control bytes',meaning='per-slot empty/deleted/partial hash, mirrored at the tail'),dict(name='bucket chains',meaning='index lists from buckets into the dense array')]),
P('P02','Traversal visits each element exactly once and erase returns the successor',
 'At every point of every history a full forward traversal (and a backward one, where offered) visits each stored element exactly once and nothing else, and agrees with the reported size and emptiness; bucket traversals of a table with buckets partition the same elements by bucket. Erasing by position, range or predicate removes exactly the designated elements, and the returned position continues the traversal so that a loop that erases while iterating visits every remaining element exactly once.',
 ['histories','inputs'],'All histories and all containers with iterators, at every state, and all erase-while-iterating loops with arbitrary predicates and ranges.',
 'Tests compare iteration with a source list for one insertion-only state and never erase by range, by predicate or inside a loop, nor use bucket iterators or compound iterator arithmetic.',
 [SW,DE,TC]+SETS+MAPS+MULTI,'Metadata-driven slot iterator with a sentinel; pointer iterator over the dense array; offset-linked list iterator; erase returns the following node, adjusted for the relocated last element.'),
P('P03','Ordered containers preserve the insertion order',
 'Traversal of an ordered container yields the elements in the order in which they were first inserted, with hinted insertions placed immediately after the element designated by the hint (at the front for the end position), and first and last element accessors agree with it. The order is unaffected by rejected insertions, assignments of mapped values, growth, rehashing and erasure of other elements, and it is carried over by copy, move, assignment, swap, merge and node re-insertion.',
 ['histories','inputs'],'All histories of hinted and unhinted insertions, erasures, rehashes and whole-container transfers on the six ordered containers.',
 'Tests check the order once, after a straight sequence of back insertions; hints, rehash in the middle of hinted insertion, erasure, copies and swaps with empty containers are never ordered-checked.',
 [TC,SW,DE],'Self-relative byte-offset doubly linked list through the nodes with the table header as the end; links re-derived whenever a node or the header moves.',
 state=[dict(name='node link',meaning='byte offsets to the next and previous node')]),
P('P04','Multi-key entries are reachable through all of their keys or none',
 'In a multi-key container an entry found through any one of its keys is found through each of its other keys as well, an insertion succeeds exactly when none of its keys is taken in its own key position and otherwise changes nothing, and erasing an entry through any key or position removes it under all of its keys. Equal key values in different key positions never interfere with each other.',
 ['histories','inputs'],'All histories on multi-key sets and maps with one to four keys of equal and different types, all hash functions.',
 'The unit tests insert entries and look each key up with two fixed key types; erase through the n-th key, relocation of the last entry that shares chains, conflicts on later keys and colliding hashes are not reached.',
 [DE]+MULTI+['tpp/detail/multikey.hpp'],'One chain index and one cached hash per key position and entry; erase must fix every chain, including those of the relocated last entry.'),
P('P05','Copy, move, assignment and swap transfer the whole value',
 'A copy equals its source and the two are independent afterwards; a move or swap transfers exactly the elements, functors and settings of the source; a moved-from container is valid and empty and can be used again. This holds for every pair of states of source and destination: empty, unallocated, tombstoned, full, reserved, larger, smaller, and for self-assignment.',
 ['histories','inputs'],'All pairs of reachable source and destination states, all special members, allocator-extended forms and free swap, on all fourteen containers.',
 'Tests copy and move one freshly filled container into a new or equal-state one; assigning over larger, smaller, tombstoned or empty destinations and continuing to use both sides is not reached.',
 [SW,DE,TC]+SETS+MAPS+MULTI,'Buffer stealing or element-wise re-insertion, header link fix-up, reset of metadata and buckets of both sides.'),
P('P06','Each element is constructed once, destroyed once and never used outside its life',
 'Over any history, each key and mapped object a container creates is destroyed exactly once, no object is read, hashed, compared, moved or assigned before construction, after destruction or after having been moved from, and the number of live objects always equals what the current contents require. An insertion that does not take place leaves its rvalue arguments unmoved where the documented form promises so (try-emplace and value insertion). An argument that is passed as an rvalue and stored is moved (or converted as an rvalue), not copied, and an lvalue argument is left as it was.',
 ['histories','inputs'],'All histories of all containers with non-trivial keys and mapped objects, including growth, in-place reclamation, relocation upon erase, replacement and node extraction.',
 'Tests use std::string and int, for which a missed destructor, a double move or a bitwise relocation is not observable without instrumentation.',
 [TC,SW,DE,UT],'Manual construct/destroy/relocate of nodes in raw buffers.'),
P('P07','Memory comes from and returns to the container\'s allocator only',
 'Every block a container obtains from its allocator is returned exactly once, with the same size, through an allocator that compares equal to the one that provided it, and nothing is left when the container is gone; elements are created and destroyed through that allocator, if it does so itself. The allocator a container reports after construction, copy, move, assignment and swap is the one prescribed by its propagation traits, and a transfer between containers whose unequal allocators do not propagate still yields the full contents.',
 ['histories','inputs','configurations'],'All histories on all containers for all combinations of propagation traits, equal and unequal allocator instances and allocator-extended constructors.',
 'Only std::allocator is ever used by the tests; it is stateless, always equal and ignores the size it is given.',
 [SW,DE,TC,UT],'Metadata and node buffers (separate or combined), dense and bucket buffers, and individually allocated stable nodes.'),
P('P08','Addresses and positions that are promised to be stable stay valid',
 'A reference to an element of a stable container remains valid and denotes the same element until that element is erased or replaced by node assignment, through insertion, growth, rehash, erasure of others, move, swap, merge and extraction with re-insertion. In every container, lookups, traversal, assignment of mapped values and rejected insertions invalidate no reference or iterator, and insertions that fit the reserved capacity invalidate no reference.',
 ['histories','inputs'],'All histories with references taken at arbitrary points, on all containers.',
 'Tests never keep a reference or iterator across a later operation.',
 [SW,DE,TC]+SETS+MAPS,'Heap-allocated nodes referenced from the slots; growth and reclamation decided only when an element is actually added.'),
P('P09','Node handles and merge conserve elements',
 'Extracting an element removes exactly it and hands over ownership of it unchanged; re-inserting a handle either adds precisely that element or returns the handle still owning it, and a handle that is dropped destroys its element once. Merging moves exactly the elements whose keys are absent from the destination, leaves all others in the source, and never loses an element, nor copies or creates one if the allocators are equal, for any functors of the two sides.',
 ['histories','inputs'],'All histories of extraction, handle move/swap/assignment, re-insertion with and without hint, node assignment and merge among the four stable containers, handles possibly outliving the container.',
 'Tests extract and merge a handful of elements once; handle assignment, rejected handles, empty handles, hinted and assigning node insertion, and merge with overlapping keys or different functors are not reached.',
 [TC,SW,'tpp/stable_set.hpp','tpp/stable_map.hpp','tpp/detail/stable_traits.hpp'],'Extraction moves the node pointer out of the slot into a handle with an allocator copy.'),
P('P10','A failing operation leaves the containers intact',
 'If an allocation, a constructor, a copy, a hash or a comparison throws during any operation (on elements whose moves and swaps do not throw), the exception reaches the caller, nothing leaks, and all containers remain valid and usable. A failed insertion of one element, growth request or lookup leaves the contents as before; a failed whole-container copy leaves the source unchanged, and a failed bulk operation leaves a subset of the elements that the complete operation would have produced.',
 ['fault_sequences','histories'],'Every fault point (n-th allocation, construction, copy, hash call or comparison) of every operation, from all reachable states, with moves and swaps of elements non-throwing.',
 'No test throws from an allocator, element or functor.',
 [SW,DE,TC,UT],'Allocate-before-release, construct-before-commit, guards for temporaries.'),
P('P11','Capacity and load factor keep their contracts',
 'After reserving room for n elements, insertions up to n elements in total cause no growth, and after a rehash request the bucket count is at least the requested one; the size never exceeds the capacity, nor the dense tables\' load factor their maximum, after an insertion. Neither reserving, rehashing nor changing the maximum load factor alters the contents, and a history whose size stays bounded keeps the bucket count bounded. Requests that no memory could satisfy are refused by an exception and change nothing.',
 ['histories','inputs'],'All histories with arbitrary reserve/rehash/load-factor requests and bucket-count constructor arguments, including zero, tiny, non-power-of-two and impossibly large ones, and any positive maximum load factor.',
 'Tests call reserve/rehash on no or one state and check only a few values; churn at a constant size and odd bucket counts are never run.',
 [SW,DE],'Capacities of the form 2^k-1 with 7/8 occupancy, in-place reclamation of deleted entries; ceil(n / max load factor) buckets for dense tables.'),
P('P12','All build configurations compute the same results',
 'The same history of operations gives the same observable results (values, sizes, return values, membership, ordered traversal) whether the library is built with vector instructions, with wider vector extensions or with the portable fallback, with or without assertions, for either language standard and by either compiler. No internal assertion fails in a build that has them.',
 ['configurations','histories','inputs'],'All histories, across the matrix {SSE2, SSSE3, portable} x {assertions on, off} x {C++17, C++20} x {gcc, clang}.',
 'The tests are built in one configuration (gcc, SSE2, assertions off) and compare nothing across builds.',
 [SW,'tpp/detail/arch.hpp','tpp/detail/define.hpp',UT],'Alternative metadata-group matchers and bit-scan primitives, separate versus combined buffers, assume versus trap.'),
P('P13','Concurrent read-only use is free of data races',
 'Any number of threads may call the const operations of the same container at the same time (lookup, membership, traversal, copy construction from it, comparison, size and capacity queries) without any data race, and each of them observes the same, unchanged contents.',
 ['schedules','histories'],'All interleavings of const operations by several threads on containers in any reachable state.',
 'All tests are single-threaded.',
 [SW,DE,TC]+SETS+MAPS+MULTI,'Const operations must not write to metadata, nodes, links or caches.'),
P('P14','No operation on valid arguments has undefined behaviour',
 'No operation whose preconditions are met reads or writes outside live storage, uses uninitialised or misaligned data, overflows, dereferences null or depends on any other undefined behaviour, for elements of any size and alignment. This includes arguments that refer to elements of the container itself, such as inserting, assigning or erasing by a stored key or value, also when the operation grows the container.',
 ['inputs','histories','configurations'],'All histories, element sizes from one byte to over-aligned and large, empty and unallocated containers, and self-referential arguments, in all SIMD/portable builds.',
 'Tests run without sanitizers and with two element types; reads past a buffer or of stale memory that happen to return plausible data pass unnoticed.',
 [SW,DE,TC,UT],'Group loads that run past the last slot into mirrored bytes, raw node storage, offset arithmetic between nodes, combined metadata/node allocation.'),
P('P15','Equality is the equality of contents',
 'Two containers of the same type compare equal exactly when they hold the same elements (and, for maps, equal mapped values), whatever their histories, bucket counts, hash functor states and internal arrangement; inequality is the negation. Equality is reflexive, symmetric and transitive, and is unaffected by const operations and rehashing.',
 ['inputs','histories'],'All pairs of containers over all reachable arrangements of the same or slightly different contents.',
 'Tests compare a container with one copy of itself and with one other.',
 SETS+MAPS+MULTI,'Permutation comparison of the two traversals.'),
P('P16','Functors are honoured, carried along, and lookups by equivalent keys agree',
 'Every operation decides by the hash and equality functor instances the container reports, which are those given at construction and carried by copy, move, assignment and swap, but left alone by merge. With transparent functors, looking up, accessing, erasing, extracting and inserting by any key of an equivalent type gives the same result as with a key object, and the keyed insertions of maps convert to a key only when an element is actually added.',
 ['inputs','histories'],'All histories with stateful functors whose instances disagree with each other, and transparent functors with several comparable key types, all containers.',
 'Tests use stateless std::hash and std::equal_to, and exercise a heterogeneous lookup for a single type.',
 [SW,DE]+SETS+MAPS+MULTI,'Functor storage with empty-base optimisation; hash caching in the nodes; overloads enabled by transparency.'),
P('P17','Operations terminate within amortised constant work',
 'Every operation terminates, and with a well-distributed hash and a table filled to a constant fraction, lookups, insertions and erasures by key take amortised constant work: a lookup compares a constant expected number of keys, and insertions relocate, hash and allocate a constant amortised number of times, whether elements come singly, in ranges or by merges. This remains true after arbitrarily long churn of insertions and erasures, for hits and for misses.',
 ['histories','inputs'],'All histories, in particular long churn at high occupancy, in which deleted entries accumulate, and sizes around growth boundaries.',
 'Tests check no cost and do no churn; a table that degenerates to linear probing, or loops when no empty slot is left, still passes them.',
 [SW,DE],'Occupancy accounting of empty entries, in-place reclamation, doubling growth, partial-hash filtering, cached hashes.'),
P('P18','Bulk operations equal the sequence of single ones',
 'Constructing, assigning or inserting from an iterator range or an initialiser list, with or without a bucket count, functors and allocator, has the same result as inserting the elements one by one in order, for every iterator category and element order, with the first of several equal keys winning. Assignment discards all previous contents.',
 ['inputs','histories'],'All ranges (empty, duplicate-laden, single-pass, large) and all destination states and constructor forms of all fourteen containers.',
 'Tests build from one initialiser list or vector without duplicates into an empty container.',
 [SW,DE]+SETS+MAPS+MULTI,'Distance-based pre-reservation for random access ranges, then element-wise insertion.'),
]
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'properties.jsonl'),'w') as f:
    for d in L: f.write(json.dumps(d,ensure_ascii=False)+'\n')
