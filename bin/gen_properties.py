import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
I="include/boost/intrusive/"
p("L01","Doubly linked list keeps exactly the promised sequence, linked both ways",
 "After every operation of the doubly linked list (insertion, erasure, splice, swap, shift, reverse, remove, unique, merge, clone, move, clear), walking the list forwards visits exactly the elements the operation's documentation promises, in the promised order, and walking it backwards visits the same elements in reverse. Returned iterators designate the promised element, and a second list taking part in the operation keeps exactly its own remaining elements.",
 ["inputs","histories"],"every list length and position, including empty ranges, neighbouring positions and both arguments denoting the same list; every outcome of user predicates",
 "Tests use lists of about five elements and fixed positions; the guarantee must hold for every length and every aliasing of positions, and many corrupted back links stay invisible to a forward walk.",
 [I+"list.hpp",I+"circular_list_algorithms.hpp",I+"detail/algorithm.hpp",I+"detail/list_iterator.hpp"],
 [("ring of next/previous links through the header",I+"circular_list_algorithms.hpp"),("container operations",I+"list.hpp")])
p("L02","Singly linked list keeps exactly the promised sequence in every configuration",
 "After every operation of the singly linked list, for circular and linear lists, with and without a remembered last element, walking the list from its beginning visits exactly the elements the operation's documentation promises, in order, and then reaches the end. When the last element is remembered, it is always the true last element (or the before-begin position of an empty list), and returned iterators designate the promised element.",
 ["inputs","histories","configurations"],"every list length, position and aliasing of positions; circular/linear x remembered-last x constant-time size",
 "Existing tests sample short lists and a few configurations; a stale remembered-last element only shows up in a later operation.",
 [I+"slist.hpp",I+"circular_slist_algorithms.hpp",I+"linear_slist_algorithms.hpp",I+"detail/common_slist_algorithms.hpp",I+"detail/slist_iterator.hpp"],
 [("next links and header",I+"circular_slist_algorithms.hpp, "+I+"linear_slist_algorithms.hpp"),("remembered last node",I+"slist.hpp set_last_node/get_last_node")])
p("L03","Merging and sorting lists yields a stable sorted sequence",
 "Merging two sorted lists leaves the destination sorted with respect to the comparison used, containing all elements of both, with elements of the destination preceding equivalent elements of the source; the source becomes empty. Merging neither invents nor loses elements even when the inputs are not sorted.",
 ["inputs"],"all pairs of sorted lists of any length, any comparison that is a strict weak ordering",
 "Tests merge a few fixed lists; stability and order must hold for every interleaving of equivalent keys.",
 [I+"list.hpp",I+"slist.hpp"],[("merge loops",I+"list.hpp merge, "+I+"slist.hpp merge")])
p("S01","size() always equals the number of linked elements",
 "For every container that remembers its size, size() equals the number of elements actually linked after every operation, including multi-container operations (splice, swap, merge, move) and operations on ranges; containers that do not remember it count them. An operation abandoned by an exception of a user functor also leaves the remembered size exact.",
 ["inputs","histories","fault_sequences"],"every operation of every container with constant-time size enabled, any contents and positions",
 "Tests check size after sampled operations; a miscount depends on range lengths, self-splices or exceptions at arbitrary positions.",
 [I+"list.hpp",I+"slist.hpp",I+"bstree.hpp",I+"hashtable.hpp",I+"detail/size_holder.hpp"],
 [("size bookkeeping",I+"detail/size_holder.hpp and callers")])
p("T01","Search trees stay well formed: exact in-order sequence, consistent links",
 "After every insertion, erasure, node replacement, swap, move, clear or rebalance (the helper unlink_leftmost_without_rebalance excepted, which deliberately leaves the tree unusable for anything but its repetition) on any tree container (plain, red-black, AVL, splay, treap, scapegoat), the in-order sequence is exactly the previous one with the inserted element at its place or the erased element gone. Every parent link agrees with the corresponding child link and no element is lost, duplicated or reachable twice.",
 ["inputs","histories"],"every tree shape and size, every position of the affected element",
 "Tests insert a few dozen elements in a few orders; rotations and two-children erasure have many shape-dependent branches, and broken parent links stay latent until a later operation.",
 [I+"bstree_algorithms.hpp",I+"rbtree_algorithms.hpp",I+"avltree_algorithms.hpp",I+"splaytree_algorithms.hpp",I+"treap_algorithms.hpp",I+"sgtree_algorithms.hpp",I+"bstree.hpp"],
 [("linking and erasing",I+"bstree_algorithms.hpp insert_commit, erase, rotate_*"),("rebalancing",I+"rbtree_algorithms.hpp, "+I+"avltree_algorithms.hpp, "+I+"treap_algorithms.hpp, "+I+"splaytree_algorithms.hpp, "+I+"sgtree_algorithms.hpp")])
p("T02","Tree containers always know their first and last element",
 "In every tree container, the constant-time begin() and the element before end() are the first and last element of the in-order sequence after every operation; both coincide with end() exactly when the container is empty.",
 ["inputs","histories"],"every tree shape, every operation that can change an extreme element",
 "Stale extremes appear only when an extreme element with a particular child configuration is touched.",
 [I+"bstree_algorithms.hpp",I+"bstree.hpp"],[("header left/right links",I+"bstree_algorithms.hpp insert_commit, erase, swap_tree, swap_nodes, replace_node")])
p("T03","Red-black trees stay balanced",
 "After every insertion, erasure or replacement in a red-black based set, the root is black, no red element has a red child and all paths from an element down to missing children contain the same number of black elements, so that height stays logarithmic.",
 ["inputs","histories"],"every red-black tree and every inserted or erased position",
 "Rebalancing has shape- and colour-dependent cases that propagate to the root; unit tests only check order, not colours for all shapes.",
 [I+"rbtree_algorithms.hpp",I+"rbtree.hpp",I+"set.hpp"],[("rebalance after insertion and erasure",I+"rbtree_algorithms.hpp rebalance_after_insertion, rebalance_after_erasure")])
p("T04","AVL trees stay balanced",
 "After every insertion, erasure or replacement in an AVL based set, the heights of the two subtrees of every element differ by at most one and the balance recorded in each element is the true difference.",
 ["inputs","histories"],"every AVL tree and every inserted or erased position",
 "Double rotations have nine balance combinations; tests reach few of them at few depths.",
 [I+"avltree_algorithms.hpp",I+"avltree.hpp",I+"avl_set.hpp"],[("rebalance after insertion and erasure",I+"avltree_algorithms.hpp rebalance_after_insertion, rebalance_after_erasure")])
p("T05","Treaps stay heap ordered by priority",
 "After every insertion, erasure or replacement in a treap, no element has a priority that should place it above its parent, for any priority comparison that is a strict weak ordering; the element of highest priority is therefore always the root.",
 ["inputs","histories"],"every treap, every inserted or erased element, any priorities including equal ones",
 "Depends on priorities along a path of arbitrary length.",
 [I+"treap_algorithms.hpp",I+"treap.hpp",I+"treap_set.hpp"],[("rotations on insertion and erasure",I+"treap_algorithms.hpp")])
p("T06","Splaying never changes the order of a splay tree",
 "Every operation of a splay tree that restructures it, including lookups, leaves the in-order sequence unchanged apart from the element inserted or erased, and keeps all links consistent; a successful search by key leaves the found element reachable at the root.",
 ["inputs","histories"],"every splay tree shape, every key, present or absent",
 "Top-down splaying re-links an unbounded path; only sampled paths are tested, and lookups that corrupt an unrelated link go unnoticed.",
 [I+"splaytree_algorithms.hpp",I+"splaytree.hpp",I+"splay_set.hpp"],[("top-down and bottom-up splay",I+"splaytree_algorithms.hpp priv_splay_down, priv_splay_up")])
p("T07","Scapegoat trees stay within their weight balance after every operation",
 "After every insertion and erasure in a scapegoat tree, its height stays within the logarithmic bound that its balance factor promises for its current size.",
 ["inputs","histories"],"every history of insertions and erasures, any balance factor",
 "A bound over unbounded histories; tests never measure height.",
 [I+"sgtree_algorithms.hpp",I+"sgtree.hpp"],[("scapegoat detection and rebuild",I+"sgtree_algorithms.hpp rebalance_after_insertion")])
p("T08","Ordered lookups return the right element or range for every key",
 "In every ordered container, lower_bound, upper_bound, equal_range, bounded_range and find return, for any key and any number of equivalent elements, the first element not less, the first greater, the exact run of equivalents, the exact range and the first equivalent (or end). count equals the length of the run of equivalents.",
 ["inputs"],"every sorted content with any multiplicity of equivalent elements, every key, every tree shape",
 "Tests query small sets; off-by-one choices on equivalents depend on tree shape.",
 [I+"bstree_algorithms.hpp",I+"bstree.hpp",I+"splaytree_algorithms.hpp"],[("binary searches",I+"bstree_algorithms.hpp lower_bound_loop, upper_bound_loop, equal_range, bounded_range, find")])
p("T09","Ordered insertion keeps order and uniqueness",
 "Inserting into an ordered container leaves it sorted: with equivalents allowed the new element goes after all equivalents (or as close as possible before the hint); with unique keys an insertion succeeds exactly when no equivalent is present and otherwise leaves the container untouched and reports the blocking element. A hint, right or wrong, never affects correctness.",
 ["inputs"],"every sorted content, every key, every hint position",
 "Wrong-hint cases and runs of equivalents of arbitrary length are only sampled.",
 [I+"bstree_algorithms.hpp",I+"bstree.hpp",I+"treap_algorithms.hpp",I+"sgtree_algorithms.hpp"],[("insert checks",I+"bstree_algorithms.hpp insert_unique_check, insert_equal_*_check")])
p("T10","Tree iteration visits every element once, in order, from any element",
 "Incrementing an iterator of any tree container moves to the in-order successor and decrementing it to the predecessor, for every element of every tree shape, reaching end() after the last element; iterators can be obtained from an element, and the container can be found from end().",
 ["inputs"],"every tree shape and element, including the header position",
 "The climb over ancestors depends on shape and on the header being distinguishable from the root.",
 [I+"detail/bstree_algorithms_base.hpp",I+"detail/tree_iterator.hpp",I+"bstree_algorithms.hpp"],[("next_node/prev_node",I+"detail/bstree_algorithms_base.hpp")])
p("H01","Safe links: removed elements are unlinked, linked ones cannot be misused",
 "With safe links, every element removed from any container, by whichever operation, is left in the unlinked state, so that it can be inserted again or destroyed; inserting an element that is still linked and destroying a linked element or such a hook are detected by the assertion.",
 ["inputs","histories"],"every removing operation of every container, every position; every inserting operation",
 "A forgotten reset on one path is only noticed when that element is later reused or destroyed.",
 [I+"link_mode.hpp",I+"detail/generic_hook.hpp",I+"list.hpp",I+"slist.hpp",I+"bstree.hpp",I+"hashtable.hpp"],[("init on removal, assertion on insertion",I+"list.hpp, "+I+"slist.hpp, "+I+"bstree.hpp, "+I+"hashtable.hpp"),("hook destruction",I+"detail/generic_hook.hpp")])
p("H02","Auto-unlink hooks leave their container on destruction",
 "Destroying or unlinking an auto-unlink hook removes exactly that element from whichever container holds it and leaves the container valid, whatever the element's position; unlinking an element that is not linked does nothing. Swapping two hooks exchanges the positions of the elements.",
 ["inputs","histories"],"every container size, every position of the element, linked or not",
 "Depends on the element's position and on the shape of the container.",
 [I+"detail/generic_hook.hpp",I+"list_hook.hpp",I+"slist_hook.hpp",I+"set_hook.hpp",I+"bs_set_hook.hpp",I+"avl_set_hook.hpp",I+"unordered_set_hook.hpp"],[("hook destructor and unlink",I+"detail/generic_hook.hpp")])
p("H03","Element and hook addresses convert back and forth exactly",
 "For every way of attaching a hook (base class, member, function, custom traits, any-hook), converting an element to its hook and back yields the same element; compact nodes that pack colour or balance bits into a pointer keep pointer and bits independent.",
 ["programs","configurations","inputs"],"every element layout and hook kind; every pointer and bit value",
 "Depends on class layout and on alignment bits; tests use a few classes.",
 [I+"detail/hook_traits.hpp",I+"detail/parent_from_member.hpp",I+"pointer_plus_bits.hpp",I+"detail/rbtree_node.hpp",I+"detail/avltree_node.hpp",I+"detail/any_node_and_algorithms.hpp",I+"derivation_value_traits.hpp",I+"member_value_traits.hpp"],[("conversions",I+"detail/hook_traits.hpp"),("pointer tagging",I+"pointer_plus_bits.hpp")])
p("D01","Disposers run exactly once per removed element, after it is detached",
 "Every operation that disposes elements calls the disposer exactly once for each element it removes and for no other element, and only when the element is already detached and no longer needed, so the disposer may free it.",
 ["inputs","histories","fault_sequences"],"every disposing operation of every container, every contents, every outcome of predicates",
 "A use of an element after its disposal is silent in tests unless memory is poisoned; double or missed disposal depends on range lengths.",
 [I+"list.hpp",I+"slist.hpp",I+"bstree.hpp",I+"bstree_algorithms.hpp",I+"hashtable.hpp",I+"detail/exception_disposer.hpp",I+"detail/algorithm.hpp"],[("disposing loops",I+"list.hpp, "+I+"slist.hpp, "+I+"bstree_algorithms.hpp clear_and_dispose, "+I+"hashtable.hpp")])
p("E01","Exceptions from user functors leave containers valid and lose nothing",
 "When a user predicate, comparison, hash or cloner throws in the middle of an operation, the exception reaches the caller, every container involved is still well formed with an exact size, and no element is lost or duplicated; operations that promise more (cloning, insertion) also roll back.",
 ["fault_sequences","inputs"],"an exception at any call of any user functor within any operation that may throw",
 "Tests practically never throw from functors; each call site of a functor inside a loop is a different crash point.",
 [I+"list.hpp",I+"slist.hpp",I+"detail/common_slist_algorithms.hpp",I+"bstree_algorithms.hpp",I+"splaytree_algorithms.hpp",I+"treap_algorithms.hpp",I+"hashtable.hpp",I+"detail/exception_disposer.hpp",I+"detail/tree_value_compare.hpp"],[("rollback objects and commit-after-check structure",I+"detail/exception_disposer.hpp and the listed containers")])
p("U01","Unordered containers keep every element in its bucket, linked consistently",
 "After every operation of an unordered container, walking it visits every inserted element exactly once and nothing else; each element sits in the bucket that its hash selects and equivalent elements are adjacent.",
 ["inputs","histories","configurations"],"every contents, hash value and bucket count; stored-hash, group-optimised, cached-begin and incremental configurations",
 "Link corruption depends on bucket occupancy and on position inside a group of equivalents.",
 [I+"hashtable.hpp",I+"detail/hashtable_node.hpp",I+"unordered_set.hpp",I+"linear_slist_algorithms.hpp",I+"circular_slist_algorithms.hpp"],[("bucket chains and groups",I+"hashtable.hpp")])
p("U02","Rehashing preserves the contents of unordered containers",
 "Rehashing, full or incremental, to any other bucket array keeps exactly the same elements, puts each in the bucket selected by its hash, keeps groups of equivalents together, and leaves the abandoned bucket array empty; an exception from the hash function loses no element silently.",
 ["inputs","fault_sequences","configurations"],"every contents, old and new bucket counts",
 "Quantifies over all contents and bucket counts.",
 [I+"hashtable.hpp"],[("rehash_impl, incremental_rehash",I+"hashtable.hpp")])
p("U03","Unordered lookups find exactly the equivalent elements",
 "find, count and equal_range of an unordered container return exactly the elements equivalent to the key, and a unique insertion succeeds exactly when no equivalent element is present.",
 ["inputs","configurations"],"every contents, key and collision pattern",
 "Quantifies over collision patterns and group sizes.",
 [I+"hashtable.hpp"],[("priv_find, priv_local_equal_range, insert_unique_check",I+"hashtable.hpp")])
p("X01","The library never allocates, copies or constructs user elements",
 "No operation of the library allocates or frees memory, and none copies, moves, assigns, constructs or destroys a user element; elements are created and destroyed only by user-supplied functors.",
 ["programs","inputs"],"every operation of every container",
 "A test cannot show the absence of an allocation or copy on paths it does not take.",
 [I+"list.hpp",I+"slist.hpp",I+"bstree.hpp",I+"hashtable.hpp",I+"treap.hpp",I+"splaytree.hpp",I+"sgtree.hpp"],[("all container code operates on hooks in place",I)])
p("X02","Read-only operations never write to containers or elements",
 "Operations of a container declared read-only (const lookups, iteration, size, comparison, observers) write to no container, bucket or element memory, so concurrent readers are safe; the documented exception is lookups of splay trees through non-const access.",
 ["schedules","inputs"],"every read-only operation of every container under any number of concurrent readers",
 "Single-threaded tests cannot see a write that restores the same value or only races.",
 [I+"list.hpp",I+"slist.hpp",I+"bstree.hpp",I+"splaytree.hpp",I+"hashtable.hpp",I+"bstree_algorithms.hpp"],[("const member functions",I)])
p("X03","Operations that promise not to throw call no throwing user code",
 "In release builds (precondition assertions that call the comparison excluded), operations documented as never throwing call no user code that may throw, so they can neither fail half-way nor terminate the program because of a user functor.",
 ["fault_sequences","programs"],"every operation declared non-throwing, any user functor",
 "Tests with non-throwing functors cannot observe a termination on throw.",
 [I+"list.hpp",I+"slist.hpp",I+"bstree.hpp",I+"hashtable.hpp",I+"rbtree_algorithms.hpp",I+"avltree_algorithms.hpp",I+"treap_algorithms.hpp"],[("noexcept specifications",I)])
p("X04","Operations promised constant time do not loop",
 "Operations documented as constant time (push and pop at the ends, erasing or inserting one element by position in lists, swap, iterator construction from an element, size when remembered, whole-list splice) execute no loop and no recursion over elements.",
 ["inputs","configurations"],"every constant-time operation in every configuration for which it is documented constant",
 "Tests do not measure complexity.",
 [I+"list.hpp",I+"slist.hpp",I+"circular_list_algorithms.hpp",I+"bstree.hpp",I+"hashtable.hpp"],[("documented complexity",I)])
p("X05","No operation uses recursion: stack use is bounded",
 "No operation of any container recurses (the debugging helpers check() and verify() excepted), so stack use does not grow with the number of elements or the depth of a tree, even for degenerate trees.",
 ["inputs","programs"],"every operation, every size and shape",
 "Degenerate trees of millions of elements are not tested.",
 [I+"bstree_algorithms.hpp",I+"list.hpp",I+"slist.hpp",I+"hashtable.hpp",I+"sgtree_algorithms.hpp"],[("iterative traversals",I)])
p("X06","Invalid combinations of options and hooks are rejected when compiling",
 "A program that combines incompatible options (constant-time size with auto-unlink hooks, remembered last element with auto-unlink hooks, linear lists with auto-unlink hooks, an unordered hook lacking what the container needs, copying a container or dereferencing through a const iterator to modify) does not compile, while every documented valid combination and every documented member function does.",
 ["programs","configurations"],"every documented option combination and member function",
 "The test-suite only contains programs that must compile, and instantiates only some member functions.",
 [I+"list.hpp",I+"slist.hpp",I+"bstree.hpp",I+"hashtable.hpp",I+"pack_options.hpp",I+"options.hpp"],[("static assertions and type computations",I)])
p("X07","Operations touch only hook bytes of elements",
 "No operation writes to any byte of a user element outside the hook the container was told to use; other members and other hooks of the same element are never modified, so an element can live in several containers at once.",
 ["inputs","programs"],"every operation, every element layout",
 "Tests check some values but not padding, neighbouring hooks, or all paths.",
 [I+"list.hpp",I+"slist.hpp",I+"bstree.hpp",I+"hashtable.hpp",I+"detail/hook_traits.hpp"],[("node traits write only hook fields",I+"detail/*_node.hpp")])
p("C01","Container comparison agrees with the contents",
 "Comparing two containers with == (and the ordering operators) gives true exactly when both hold equal elements in the same order (unordered containers: the same groups of equivalent elements), whatever their sizes and options.",
 ["inputs","configurations"],"every pair of contents",
 "Quantifies over pairs of sequences, including proper prefixes and subsets.",
 [I+"list.hpp",I+"slist.hpp",I+"bstree.hpp",I+"hashtable.hpp",I+"detail/algorithm.hpp"],[("operator==, algo_equal, algo_lexicographical_compare",I+"detail/algorithm.hpp, "+I+"hashtable.hpp")])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc)
print(len(P))
