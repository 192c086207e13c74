"""Which obligations decide which property."""
TRUSTED = ["clang 18 (C++ front end, SROA/mem2reg/inlining)", "analyzer/ (abstract interpreter of LLVM IR, this repository)", "drivers/*.cpp (specifications)"]
ASSUMPTIONS = ["single thread; user functors do not themselves touch the containers under analysis", "raw pointers as pointer type unless stated", "preconditions documented by the library hold at the call"]
STRUCT = {"struct", "content", "cache", "balance", "mem", "assert", "terminate", "order"}
def shape(driver, specs, cats, min, **kw): return dict(type="shape", driver=driver, specs=specs, cats=cats, min=min, **kw)
SH = "Every operation is analysed on a heap of symbolic list segments / subtrees of unknown length and content; at every loop head states are summarised and the fixed point is computed, so the verdict holds for every size, position and outcome of user functors; at the end the structure is re-read and compared with the promised sequence. "
THROW = "throw"
PLAN = {
 "L01": dict(level="proof", rule=SH + "Violation: the list's ring is broken in either direction, the sequence or a returned iterator differs from the promised one, or memory outside live elements is accessed.",
   jobs=[shape("list", r"spec_list_(?!.*throw).*", STRUCT, 230)]),
 "L02": dict(level="proof", rule=SH + "Violation: the chain from before_begin() is not the promised sequence, does not end, the remembered last element is not the last one, or a returned iterator is wrong.",
   jobs=[shape("slist", r"spec_slist_(?!.*throw).*", STRUCT, 350)]),
 "S01": dict(level="proof", rule=SH + "Violation: the remembered size differs from the length of the structure after the operation.",
   jobs=[shape("list", r"spec_list_(safe|norm)_.*", {"size"}, 120), shape("slist", r"spec_slist_(safe|last)_.*", {"size"}, 150)]),
 "D01": dict(level="proof", rule=SH + "The disposer of the specification consumes elements from the expected multiset and kills them; violation: an element disposed twice, a wrong one, one not disposed, one still linked, or any access to an element after it was disposed.",
   jobs=[shape("list", r"spec_list_.*(_d|clone|clone_rv|dispose_and_assign)(_throw)?", {"dispose", "mem", "detach"}, 40), shape("slist", r"spec_slist_.*(_d|clone|clone_rv|dispose_and_assign)(_throw)?", {"dispose", "mem", "detach"}, 50)]),
 "E01": dict(level="proof", rule=SH + "Every call of a user functor forks a path on which it throws; violation: the containers are not well formed, the size is wrong, an element is lost or duplicated, or the exception does not leave the operation.",
   jobs=[shape("list", r"spec_list_.*throw.*", None, 20), shape("slist", r"spec_slist_.*throw.*", None, 25)]),
 "X07": dict(level="proof", rule=SH + "Every store into a user element is checked against the byte range of the hook in use; violation: a store outside it.",
   jobs=[shape("list", r"spec_list_.*", {"payload"}, 270), shape("slist", r"spec_slist_.*", {"payload"}, 410)]),
}
TREE_HEAVY = r"spec_tree_(avl|avln|avla)_(erase1|erase1_d|insert_before)|spec_tree_rb.?_(erase1|erase1_r|erase1_d|remove_node)"
TK = dict(secs=300, maxstates=9000000, heavy=TREE_HEAVY)
NOTSUP = r"(?!avla_remove_node|.*unlink_leftmost|.*_throw)"
PLAN["T01"] = dict(level="proof", rule=SH + "Violation: after the operation the in-order sequence is not the promised one, a parent link disagrees with a child link, an element is reachable twice, or memory outside live elements is accessed.",
   jobs=[shape("tree", r"spec_tree_" + NOTSUP + r"(?!.*_(next|prev|prev_end|iter_from|from_end)$).*", {"struct", "content", "mem", "assert", "terminate"}, 150, **TK)])
PLAN["T02"] = dict(level="proof", rule=SH + "Violation: after the operation the header's leftmost/rightmost link is not the first/last element of the in-order sequence (or the header itself when empty), or begin()/end() disagree.",
   jobs=[shape("tree", r"spec_tree_" + NOTSUP + r".*", {"cache"}, 180, **TK)])
PLAN["T03"] = dict(level="proof", rule=SH + "Colours and black heights are part of the abstract subtree (symbolic black height, possible root colours); violation: the root is red, a red element has a red child, or two subtrees of one element have different black heights after the operation.",
   jobs=[shape("tree", r"spec_tree_(?=(rb|rbn|rba)_)" + NOTSUP + r"(rb|rbn|rba)_(?!next|prev|prev_end|iter_from|from_end|observers|size|empty).*", {"balance"}, 40, **TK)])
PLAN["T04"] = dict(level="proof", rule=SH + "Heights are part of the abstract subtree (symbolic height); violation: a recorded balance differs from the true difference of the heights, or a difference exceeds one, after the operation.",
   jobs=[shape("tree", r"spec_tree_(?=(avl|avln|avla)_)" + NOTSUP + r"(avl|avln|avla)_(?!next|prev|prev_end|iter_from|from_end|observers|size|empty).*", {"balance"}, 40, **TK)])
PLAN["T05"] = dict(level="proof", rule=SH + "Priorities are relations between elements, subtree roots and path ends; violation: after the operation an element with a possibly greater priority than its parent.",
   jobs=[shape("tree", r"spec_tree_tr_(?!next|prev|prev_end|iter_from|from_end|observers|size|empty).*", {"balance"}, 9, **TK)])
PLAN["T10"] = dict(level="proof", rule=SH + "Violation: an incremented/decremented iterator is not the in-order neighbour (or end() at the borders), iterator_to/container_from_end_iterator give the wrong object.",
   jobs=[shape("tree", r"spec_tree_.*_(next|prev|prev_end|iter_from|from_end|observers)", {"struct", "content", "mem", "assert", "terminate", "cache"}, 50, **TK)])
PLAN["S01"]["jobs"].append(shape("tree", r"spec_tree_(bs|rb)_" + NOTSUP + r".*", {"size"}, 35, **TK))
PLAN["D01"]["jobs"].append(shape("tree", r"spec_tree_(bs|bsn|bsa|rb|rbn|rba)_.*_d", {"dispose", "mem", "detach"}, 12, **TK))
PLAN["X07"]["jobs"].append(shape("tree", r"spec_tree_(bs|bsa|rb)_" + NOTSUP + r".*", {"payload"}, 60, **TK))
ALLC = {"struct", "content", "mem", "assert", "terminate", "order"}
OK_HEAVY = r"spec_otree_(avl|aset|amset|rb|set|mset)_.*"
OT = dict(TK, heavy=OK_HEAVY)
LOOKUPS = r"(lower|upper|find|equal|lub|uequal|ucount|bounded)(_.*)?"
PLAN["T08"] = dict(level="proof", rule=SH + "Every element, subtree and path side carries the zone (less than, equivalent to, greater than the key) it may lie in; each comparison refines it and sortedness propagates it. Violation: an element before the returned position that may not be less (lower bound) / greater (upper bound) than the key, one after it that may be, an equivalent element missed, or a structure changed by the lookup.",
   jobs=[shape("otree", r"spec_otree_(?!(rb|avl)_equal|sp_(equal|find|lower|lub|upper)$)[a-z]+_" + LOOKUPS, ALLC | {"cache", "balance"}, 110, **OT)])
PLAN["T09"] = dict(level="proof", rule=SH + "The inserted element is the key; elements carry the zone (less, equivalent, greater) relative to it. Violation: after the insertion an element before (after) the new one may be ordered after (before) it, the other elements are not the previous ones in the previous order, a unique insertion succeeds although an equivalent element may exist, or a refused one changes anything or reports an element that is not equivalent.",
   jobs=[shape("otree", r"spec_otree_((bs|bset|bmset)_((ins|hint)_.*|[sm]_(ins|hint)(_ck)?)|(rb|avl|set|mset|aset|amset)_(ins_.*|[sm]_ins(_ck)?))", ALLC, 20, **OT)])
PLAN["T01"]["jobs"].append(shape("otree", r"spec_otree_((bs|bset|bmset)_((ins|hint)_.*|[sm]_(ins|hint)(_ck)?)|rb_ins_eq)", {"struct", "content", "mem", "assert", "terminate"}, 12, **OT))
PLAN["T02"]["jobs"].append(shape("otree", r"spec_otree_((bs|bset|bmset)_((ins|hint)_.*|[sm]_(ins|hint)(_ck)?)|rb_ins_eq)", {"cache"}, 12, **OT))
PLAN["S01"]["jobs"].append(shape("otree", r"spec_otree_((bs|bset|bmset)_((ins|hint)_.*|[sm]_(ins|hint)(_ck)?))", {"size"}, 12, **OT))
PLAN["T03"]["jobs"].append(shape("otree", r"spec_otree_(rb|set|mset)_(ins_.*|[sm]_ins(_ck)?)", {"balance"}, 5, **OT))
PLAN["T04"]["jobs"].append(shape("otree", r"spec_otree_(avl|aset|amset)_(ins_eq|[sm]_ins)", {"balance"}, 3, **OT))
TA = dict(TK, heavy=r"spec_talgo_(rb|avl)_(sw.*|unlink|erase)|spec_talgo_tr_t_unlink")
TALGO = r"spec_talgo_(?!(rb|avl)_(sw_pq|sw_qp|swh_pq|sw2|swh2))(?!avl_unlink)"
PLAN["T01"]["jobs"].append(shape("talgo", TALGO + r".*", {"struct", "content", "mem", "assert", "terminate"}, 55, **TA))
PLAN["T02"]["jobs"].append(shape("talgo", TALGO + r"(?!\w+_(size|queries|get_header|root)$).*", {"cache"}, 45, **TA))
PLAN["T03"]["jobs"].append(shape("talgo", TALGO + r"rb_(?!size|queries|get_header|root).*", {"balance"}, 10, **TA))
PLAN["T04"]["jobs"].append(shape("talgo", TALGO + r"avl_(?!size|queries|get_header|root).*", {"balance"}, 9, **TA))
PLAN["T05"]["jobs"].append(shape("talgo", TALGO + r"tr_.*", {"balance"}, 6, **TA))
PLAN["D01"]["jobs"].append(shape("talgo", r"spec_talgo_.*_clear_d", {"dispose", "mem"}, 5, **TA))
HB = "Buckets are a concrete small array (up to 8, old and new counts 1 to 8, stored-hash, linear, cached-begin, incremental and power-of-two configurations); every bucket holds a chain of symbolic segments of unknown length, elements carry the class of their hash value (three classes chosen to share or not share buckets) and whether they equal the key. "
HBN = "Static proof for unbounded bucket contents, bounded number of buckets and of hash classes; optimize_multikey groups are not covered. Trusts the analyzer, clang's IR and the specification drivers; an obligation that cannot be decided is listed as undecided and raises no alarm."
HSET = r"spec_hash_(set4?|mset|cb|inc|lin|icb|ich)_"
HRE = r"(rehash|full_rehash|inc|clone)_?.*"
HLOOK = r"(find_x|find_none|cfind|find_key|count|count_run|equal_range|cequal_range|equal_range_none|check_dup|check_commit|insert_dup|insert_new|bucket_obs)"
HK = dict(secs=60, maxstates=4000000, heavy=r".*_clone_big(_throw)?|.*_rehash_throw")
PLAN["U01"] = dict(level="other", note=HBN, rule=SH + HB + "Violation: a chain is broken, an element is lost or gained, sits in a bucket its hash does not select, is separated from its equivalents, has a stale stored hash, or begin() is not the first element of the first non-empty bucket.",
   jobs=[shape("hash", HSET + r"(?!inc_|rehash|full_rehash|clone)(?!.*throw).*", {"struct", "content", "mem", "assert", "terminate", "cache"}, 280, **HK)])
PLAN["U02"] = dict(level="other", note=HBN, rule=SH + HB + "Violation: after a (full, incremental) rehash or a clone the destination does not hold exactly the promised elements in the promised buckets, the source array is not empty, begin() or the split count is wrong.",
   jobs=[shape("hash", HSET + r"(?=rehash|full_rehash|inc_|clone)(?!.*throw).*", {"struct", "content", "mem", "assert", "terminate", "cache"}, 110, **HK)])
PLAN["U03"] = dict(level="other", note=HBN, rule=SH + HB + "Violation: find/count/equal_range miss an equivalent element, return another one, count wrongly, or a unique insertion succeeds (fails) although an equivalent element is (is not) present; an iterator they return does not continue with the iteration order.",
   jobs=[shape("hash", HSET + HLOOK, {"struct", "content", "mem", "assert", "terminate", "order"}, 90, **HK)])
PLAN["S01"]["jobs"].append(shape("hash", r"spec_hash_(set4?|mset|inc|lin|icb|ich)_(?!.*throw).*", {"size"}, 330, **HK))
PLAN["D01"]["jobs"].append(shape("hash", HSET + r"(.*_d|clone_(?!.*throw).*)", {"dispose", "mem", "detach"}, 60, **HK))
PLAN["E01"]["jobs"].append(shape("hash", HSET + r".*throw.*", None, 80, **HK))
PLAN["X07"]["jobs"].append(shape("hash", HSET + r".*", {"payload"}, 480, **HK))
def eff(mode, min, **kw): return dict(type="effects", mode=mode, min=min, **kw)
EFFT = ["clang 18 (C++ front end)", "LLVM 18 (inlining, SROA, nounwind inference, loop and scalar-evolution analysis)", "analyzer/eff.cpp", "drivers/ops.cpp (one entry per documented operation and configuration)"]
EFFN = "Static effect analysis over the compiler's intermediate representation of about 1,900 entries (one per documented operation and container configuration); holds for every argument value because no value is ever assumed."
E1 = "Every documented operation of every container, hook and node-algorithm class is compiled as an entry whose arguments are unknown; user functors are declared only. "
PLAN["X01"] = dict(level="proof", trusted=EFFT, note=EFFN, technique="type-level compile witness (element type with every special member deleted) and call-graph effect analysis on LLVM IR", rule=E1 + "Violation: an entry does not compile when the element's constructors, assignment and destructor are deleted but compiles when they exist; or an allocation function or an unexpected external function is reachable in the call graph.",
   jobs=[eff("calls", 1900, witness=True)])
PLAN["X02"] = dict(level="proof", trusted=EFFT, note=EFFN, technique="effect (write-set) analysis on flattened LLVM IR", rule=E1 + "Each read-only entry is flattened (everything inlined); violation: a store, atomic or memory intrinsic whose underlying object is not a local variable of the entry.",
   jobs=[eff("write", 850, flag="r")])
PLAN["X03"] = dict(level="proof", trusted=EFFT, note=EFFN, technique="exception-effect analysis on flattened LLVM IR", rule=E1 + "User functors may throw, disposers do not. Violation: std::terminate is reachable from a functor's exception in any entry (a noexcept boundary around throwing user code), or an entry documented as throwing nothing calls a functor that may throw. Compiled with NDEBUG: precondition assertions that call the comparison are not part of the promise.",
   jobs=[eff("throw", 1900, defs=["-DNDEBUG"])])
PLAN["X04"] = dict(level="proof", trusted=EFFT, note=EFFN, technique="loop analysis (LoopInfo, ScalarEvolution) on flattened LLVM IR", rule=E1 + "Each entry documented as constant time is flattened; violation: a loop without a constant trip count, an irreducible cycle, or recursion. Compiled with NDEBUG (invariant assertions may be linear).",
   jobs=[eff("loop", 600, flag="c", defs=["-DNDEBUG"])])
PLAN["X05"] = dict(level="proof", trusted=EFFT, note=EFFN, technique="call-graph recursion analysis (strongly connected components) on LLVM IR", rule=E1 + "Violation: a function reachable from an entry lies on a cycle of the call graph (before any inlining or tail-call elimination).",
   jobs=[eff("rec", 1900)])
PLAN["X06"] = dict(level="proof", trusted=["clang 18 (C++ front end)", "bin/witness.py (the rules and their twins)"], technique="compile-fail witnesses with accepted twins (type-level)", note="Each rule is decided by the compiler's type checker on a program that must be rejected and a twin differing only in the offending construct that must be accepted; the set of rules is enumerated by hand from the documentation.", rule="For every documented rule one program that breaks it and a twin that does not; violation: the breaking program compiles, or the twin (or any documented member function in a valid combination of options) does not.",
   jobs=[dict(type="witness", min=300)])
TECH = "abstract interpretation (shape analysis over LLVM IR)"
NOTE = "Sound-by-design static proof for unbounded structures within the listed operations and configurations; trusts the analyzer, clang's IR and the specification drivers; an obligation the analysis cannot decide is listed as undecided in the evidence and raises no alarm."
NA = {}
