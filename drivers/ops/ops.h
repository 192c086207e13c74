// Entry points for the effect analyses (X01..X05): every documented member function of every container, called on arguments of unknown value.
// User code is declared, never defined. Flags of an entry: r = read-only, n = documented as never throwing (or throwing only for user objects that are not involved), c = documented constant time.
#ifndef OPS_H
#define OPS_H
#include <new>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
using namespace boost::intrusive;
namespace vfu { // what the user supplies; may throw unless noexcept
template<class R> void use(const R &) noexcept;
bool less(const void *, const void *); bool equal(const void *, const void *); bool prio(const void *, const void *); std::size_t hash(const void *); bool pred(const void *); void *clone(const void *); void dispose(void *) noexcept;
struct Key { long v; };
}
template<class Hook> struct Mem { Hook hook_; };
template<class Hook> struct El : Hook {
  long value;
#ifndef VF_PERMISSIVE
  El() = delete; El(const El &) = delete; El &operator=(const El &) = delete; ~El() = delete;
#else
  El() {} El(const El &) : Hook() {} El &operator=(const El &) { return *this; } ~El() {}
#endif
  friend bool operator<(const El &a, const El &b) { return vfu::less(&a, &b); }
  friend bool operator==(const El &a, const El &b) { return vfu::equal(&a, &b); }
  friend bool priority_order(const El &a, const El &b) { return vfu::prio(&a, &b); }
};
struct ULess { typedef bool result_type; template<class A, class B> bool operator()(const A &a, const B &b) const { return vfu::less(&a, &b); } };
struct UEqual { template<class A, class B> bool operator()(const A &a, const B &b) const { return vfu::equal(&a, &b); } };
struct UPrio { template<class A, class B> bool operator()(const A &a, const B &b) const { return vfu::prio(&a, &b); } };
struct UHash { template<class A> std::size_t operator()(const A &a) const { return vfu::hash(&a); } };
struct UPred { template<class A> bool operator()(const A &a) const { return vfu::pred(&a); } };
struct UDisp { template<class A> void operator()(A *a) const noexcept { vfu::dispose(a); } };
struct UClone { template<class A> A *operator()(const A &a) const { return static_cast<A *>(vfu::clone(&a)); } };
struct UCloneMv { template<class A> A *operator()(A &a) const { return static_cast<A *>(vfu::clone(&a)); } };
#define CAT_(a, b, c) op_##a##__##b##__##c
#define CAT(a, b, c) CAT_(a, b, c)
#define OP(name, flags, params, ...) extern "C" void CAT(flags, CFG, name) params noexcept(false) __VA_ARGS__
#endif
