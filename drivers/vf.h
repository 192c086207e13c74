// Specification builtins, interpreted by the analyzer (analyzer/builtins.inc). Nothing here is ever executed.
#ifndef VF_H
#define VF_H
#include <cstddef>
extern "C" {
void *vf_obj(long size, const char *name) noexcept;
int vf_kind_new(int type, long objSize, long nodeOff) noexcept;
void vf_kind_field(int kind, int which, long v) noexcept;
void vf_poison(const void *) noexcept;
long vf_probe_off(const void *) noexcept;
long vf_probe_off_i(long) noexcept;
void vf_store_at(const void *p, long off, long v, int size) noexcept;
void vf_store_ptr(const void *p, long off, const void *v) noexcept;
void *vf_node(int kind, const char *name) noexcept;
void vf_header(const void *nodeptr, int kind) noexcept;
int vf_ring(const void *hdr, int kind, int linear, const char *text) noexcept;
int vf_word(const char *text) noexcept;
int vf_bag(const char *text) noexcept;
int vf_wcopy(int w) noexcept;
int vf_wbag(int w) noexcept;
int vf_wcat(int a, int b) noexcept;
int vf_wmod(int w, int mod, int bag) noexcept;
int vf_wrev(int w) noexcept;
void vf_wdead(int w) noexcept;
void vf_wsorted(int w) noexcept;
void vf_werase(int w, const void *) noexcept;
void vf_winsert(int w, const void *v, const void *before) noexcept;
int vf_wsub(int w, const void *from, const void *to) noexcept;
long vf_len(int w) noexcept;
const void *vf_last(int w, const void *ifEmpty) noexcept;
void vf_expect_last(int w, const void *p, const void *ifEmpty, const char *cat) noexcept;
void vf_expect_ring(const void *hdr, int kind, int linear, int word, int bag) noexcept;
int vf_ring_word(const void *hdr, int kind, int linear) noexcept;
int vf_tree_word(const void *hdr, int kind) noexcept;
int vf_tree(const void *hdr, int kind, const void *p, const void *q) noexcept;
void vf_expect_tree(const void *hdr, int kind, int word, int bag, int cache) noexcept;
void vf_expect(bool c, const char *msg) noexcept;
void vf_expect_same(long a, long b, const char *msg) noexcept;
void vf_expect_samep(const void *a, const void *b, const char *msg) noexcept;
void vf_expect_bag_same(int, int, const char *) noexcept;
void vf_expect_bag_empty(int bag, const char *cat) noexcept;
void vf_bag_remove(int bag, const void *node, const char *cat) noexcept;
void vf_kill(const void *) noexcept;
int vf_choice(int n) noexcept;
void vf_assume(bool) noexcept;
long vf_nat(long lb) noexcept;
void vf_throws(int) noexcept;
void vf_allow_payload(int) noexcept;
void vf_expect_assert(int) noexcept;
[[noreturn]] void vf_unreachable(const char *cat, const char *msg) noexcept;
[[noreturn]] void vf_safe_assert(const char *) noexcept;
[[noreturn]] void vf_assert(const char *) noexcept;
[[noreturn]] void vf_end() noexcept;
int vf_key(const void *) noexcept;
void vf_zone(const void *node, int key, int lo, int hi) noexcept;
void vf_expect_bound(int word, const void *y, int key, int maxBefore, int minAfter, const char *cat) noexcept;
void vf_expect_all(int word, int key, int lo, int hi, const char *msg) noexcept;
void vf_expect_words(int expected, int got, const char *msg) noexcept;
void vf_expect_some(int word, int key, int zone, const char *msg) noexcept;
void vf_expect_none(int word, int key, int zone, const char *cat) noexcept;
void vf_zone_is(const void *node, int key, int lo, int hi, const char *cat) noexcept;
void vf_expect_adjacent(int word, const void *a, const void *b, const char *cat) noexcept;
void vf_zone_name(const char *name, int key, int lo, int hi) noexcept;
void vf_equals(const void *, const void *) noexcept;
void vf_expect_hash(int word) noexcept;
void vf_expect_contiguous(int word, int key, int zone, const char *msg) noexcept;
long vf_find_ptr(const void *obj, long size, const void *p) noexcept;
void vf_wminus(int, int) noexcept;
void vf_flag(int i, int v) noexcept;
int vf_flag_get(int i) noexcept;
void vf_dump(const char *) noexcept;
// user functors: may throw
bool vf_pred(const void *);
bool vf_bpred(const void *, const void *);
bool vf_less(const void *, const void *);
bool vf_prio(const void *, const void *);
bool vf_equal(const void *, const void *);
unsigned long vf_hash(const void *);
void *vf_clone_of(const void *);
void vf_user();
}
#include <new>
#define BOOST_ENABLE_ASSERT_HANDLER
namespace boost {
inline void assertion_failed(char const *expr, char const *, char const *, long) { vf_assert(expr); }
inline void assertion_failed_msg(char const *expr, char const *, char const *, char const *, long) { vf_assert(expr); }
}
#define VF_STR2(x) #x
#define BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(x) ((x) ? (void)0 : vf_safe_assert(#x))
#define BOOST_INTRUSIVE_SAFE_HOOK_DESTRUCTOR_ASSERT(x) ((x) ? (void)0 : vf_safe_assert(#x))

struct Pad { long pad0, pad1; };
inline long vf_diff(const void *a, const void *b) { return (const char *)a - (const char *)b; }
// ---- user functors
struct UPred { template<class T> bool operator()(const T &x) const { return vf_pred(&x); } };
struct UBPred { template<class T> bool operator()(const T &a, const T &b) const { return vf_bpred(&a, &b); } };
struct ULess { template<class T, class U> bool operator()(const T &a, const U &b) const { return vf_less(&a, &b); } };
struct UEq { template<class T, class U> bool operator()(const T &a, const U &b) const { return vf_equal(&a, &b); } };
struct UHash { template<class T> std::size_t operator()(const T &a) const { return vf_hash(&a); } };
struct UPrio { template<class T, class U> bool operator()(const T &a, const U &b) const { return vf_prio(&a, &b); } };
#endif
