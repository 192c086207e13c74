#include "ops/ops.h"
typedef constant_time_size<true> CT; typedef constant_time_size<false> NCT;
#define LM_(m) link_mode<m>
// lists
#define CFG list_safe
#define CTSIZE 1
namespace CFG { typedef list<El<list_base_hook<LM_(safe_link)> >, CT> L;
#include "ops/list.inc"
}
#undef CFG
#undef CTSIZE
#define CFG list_norm
#define CTSIZE 0
namespace CFG { typedef list<El<list_base_hook<LM_(normal_link)> >, NCT> L;
#include "ops/list.inc"
}
#undef CFG
#define CFG list_auto
namespace CFG { typedef list<El<list_base_hook<LM_(auto_unlink)> >, NCT> L;
#include "ops/list.inc"
}
#undef CFG
#define CFG list_any
namespace CFG { typedef list<El<any_base_hook<> >, any_to_list_hook<base_hook<any_base_hook<> > >, NCT> L;
#include "ops/list.inc"
}
#undef CFG
// singly linked lists
#define LINEAR 0
#define CLAST 1
#define CFG slist_safe
namespace CFG { typedef slist<El<slist_base_hook<LM_(safe_link)> >, NCT, cache_last<true> > L;
#include "ops/slist.inc"
}
#undef CFG
#undef CTSIZE
#undef CLAST
#define CTSIZE 1
#define CLAST 0
#define CFG slist_plain
namespace CFG { typedef slist<El<slist_base_hook<LM_(normal_link)> >, CT, cache_last<false> > L;
#include "ops/slist.inc"
}
#undef CFG
#undef LINEAR
#define LINEAR 1
#define CFG slist_lin
namespace CFG { typedef slist<El<slist_base_hook<LM_(normal_link)> >, CT, linear<true> > L;
#include "ops/slist.inc"
}
#undef CFG
#undef CLAST
#define CLAST 1
#define CFG slist_linlast
namespace CFG { typedef slist<El<slist_base_hook<LM_(safe_link)> >, CT, linear<true>, cache_last<true> > L;
#include "ops/slist.inc"
}
#undef CFG
// trees
#undef CTSIZE
#define TREAP 0
#define SPLAY 0
#define SGT 0
#define BST 0
#define CTSIZE 1
#define MULTI 0
#define CFG set_rb
namespace CFG { typedef set<El<set_base_hook<> >, CT> L; typedef multiset<El<set_base_hook<> >, CT> LM;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#define MULTI 1
#define CFG mset_rb
namespace CFG { typedef multiset<El<set_base_hook<optimize_size<true> > >, CT> L; typedef set<El<set_base_hook<optimize_size<true> > >, CT> LS;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#undef CTSIZE
#define MULTI 0
#define CTSIZE 0
#define CFG set_avl
namespace CFG { typedef avl_set<El<avl_set_base_hook<LM_(auto_unlink)> >, NCT> L; typedef avl_multiset<El<avl_set_base_hook<LM_(auto_unlink)> >, NCT> LM;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#define MULTI 1
#define CFG mset_avl
namespace CFG { typedef avl_multiset<El<avl_set_base_hook<> >, NCT> L; typedef avl_set<El<avl_set_base_hook<> >, NCT> LS;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#undef CTSIZE
#undef BST
#define BST 1
#define CTSIZE 1
#define MULTI 0
#define CFG set_bs
namespace CFG { typedef bs_set<El<bs_set_base_hook<> >, CT> L; typedef bs_multiset<El<bs_set_base_hook<> >, CT> LM;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#define MULTI 1
#define CFG mset_bs
namespace CFG { typedef bs_multiset<El<bs_set_base_hook<> >, CT> L; typedef bs_set<El<bs_set_base_hook<> >, CT> LS;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#undef SPLAY
#define SPLAY 1
#define MULTI 0
#define CFG set_splay
namespace CFG { typedef splay_set<El<bs_set_base_hook<> >, CT> L; typedef splay_multiset<El<bs_set_base_hook<> >, CT> LM;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#define MULTI 1
#define CFG mset_splay
namespace CFG { typedef splay_multiset<El<bs_set_base_hook<> >, CT> L; typedef splay_set<El<bs_set_base_hook<> >, CT> LS;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#undef SPLAY
#undef SGT
#define SPLAY 0
#define SGT 1
#define MULTI 0
#define CFG set_sg
namespace CFG { typedef sg_set<El<bs_set_base_hook<> > > L; typedef sg_multiset<El<bs_set_base_hook<> > > LM;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#define MULTI 1
#define CFG mset_sg
namespace CFG { typedef sg_multiset<El<bs_set_base_hook<> >, floating_point<false> > L; typedef sg_set<El<bs_set_base_hook<> >, floating_point<false> > LS;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#undef SGT
#undef TREAP
#define SGT 0
#define TREAP 1
#define MULTI 0
#define CFG set_treap
namespace CFG { typedef treap_set<El<bs_set_base_hook<> >, CT> L; typedef treap_multiset<El<bs_set_base_hook<> >, CT> LM;
#include "ops/tree.inc"
}
#undef CFG
#undef MULTI
#define MULTI 1
#define CFG mset_treap
namespace CFG { typedef treap_multiset<El<bs_set_base_hook<> >, CT> L; typedef treap_set<El<bs_set_base_hook<> >, CT> LS;
#include "ops/tree.inc"
}
#undef CFG
// unordered
#undef MULTI
#define MULTI 0
#define INCR 0
#define CFG uset
namespace CFG { typedef unordered_set<El<unordered_set_base_hook<> >, CT, hash<UHash>, equal<UEqual> > L;
#include "ops/hash.inc"
}
#undef CFG
#undef INCR
#define INCR 1
#define CFG uset_incr
namespace CFG { typedef unordered_set<El<unordered_set_base_hook<store_hash<true> > >, CT, hash<UHash>, equal<UEqual>, power_2_buckets<true>, incremental<true>, compare_hash<true> > L;
#include "ops/hash.inc"
}
#undef CFG
#undef MULTI
#undef INCR
#define INCR 0
#define MULTI 1
#define CFG umset
namespace CFG { typedef unordered_multiset<El<unordered_set_base_hook<> >, CT, hash<UHash>, equal<UEqual>, cache_begin<true> > L;
#include "ops/hash.inc"
}
#undef CFG
#undef INCR
#undef CTSIZE
#define CTSIZE 0
#define INCR 1
#define CFG umset_opt
namespace CFG { typedef unordered_multiset<El<unordered_set_base_hook<store_hash<true>, optimize_multikey<true> > >, NCT, hash<UHash>, equal<UEqual>, power_2_buckets<true>, incremental<true> > L;
#include "ops/hash.inc"
}
#undef CFG
#undef INCR
#undef CTSIZE
#define CTSIZE 1
#define INCR 0
#define CFG umset_lin
namespace CFG { typedef unordered_multiset<El<unordered_set_base_hook<> >, CT, hash<UHash>, equal<UEqual>, linear_buckets<true> > L;
#include "ops/hash.inc"
}
// hooks
#undef CFG
#define AUTOU 0
#define CFG h_list
namespace CFG { typedef list_base_hook<> H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_slist
namespace CFG { typedef slist_member_hook<> H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_set
namespace CFG { typedef set_member_hook<optimize_size<true> > H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_avl
namespace CFG { typedef avl_set_base_hook<> H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_uset
namespace CFG { typedef unordered_set_base_hook<> H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_any
namespace CFG { typedef any_base_hook<> H;
#include "ops/hook.inc"
}
#undef CFG
#undef AUTOU
#define AUTOU 1
#define CFG h_list_auto
namespace CFG { typedef list_member_hook<LM_(auto_unlink)> H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_set_auto
namespace CFG { typedef set_base_hook<LM_(auto_unlink)> H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_avl_auto
namespace CFG { typedef avl_set_base_hook<LM_(auto_unlink)> H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_bs_auto
namespace CFG { typedef bs_set_base_hook<LM_(auto_unlink)> H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_slist_auto
namespace CFG { typedef slist_base_hook<LM_(auto_unlink)> H;
#include "ops/hook.inc"
}
#undef CFG
#define CFG h_uset_auto
namespace CFG { typedef unordered_set_base_hook<LM_(auto_unlink)> H;
#include "ops/hook.inc"
}
// node algorithms
#undef CFG
#define DLIST 1
#define CFG alist
namespace CFG { typedef circular_list_algorithms<list_node_traits<void *> > A;
#include "ops/lalgo.inc"
}
#undef CFG
#undef DLIST
#define DLIST 0
#define CFG aslist
namespace CFG { typedef circular_slist_algorithms<slist_node_traits<void *> > A;
#include "ops/lalgo.inc"
}
#undef CFG
#define CFG alinear
namespace CFG { typedef linear_slist_algorithms<slist_node_traits<void *> > A;
#include "ops/lalgo.inc"
}
#undef CFG
#define CFG abst
namespace CFG { typedef bstree_algorithms<tree_node_traits<void *> > A;
#include "ops/talgo.inc"
}
#undef CFG
#define CFG arb
namespace CFG { typedef rbtree_algorithms<rbtree_node_traits<void *> > A;
#include "ops/talgo.inc"
}
#undef CFG
#define CFG aavl
namespace CFG { typedef avltree_algorithms<avltree_node_traits<void *> > A;
#include "ops/talgo.inc"
}
