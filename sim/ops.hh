// Container operations: each is a real call and the same call on the reference tree.
#pragma once
#include "model.hh"
namespace sim {
struct Reject {};
struct Op {
  string name;                                  // with arguments, for traces
  bool ro = false;                              // must not change the container even when it succeeds
  std::function<string(GC&)>  real;             // returns the observed result
  std::function<string(Val&)> model;            // returns the expected result or throws Reject
};
struct OpGen { char const* name; std::function<Op(Val const&)> make; };
std::vector<OpGen> const& op_table();
Op gen_op(Val const& target);                   // random operation for a node holding `target`
Op gen_key_op(Val const& target);               // random operation that reads below a map by key or by a path of keys
Val gen_keyed();                                // a small map whose values, some one level down, are of every type
Val gen_typed(int t, Gen const& g);             // value of exactly that type
Val gen_any(Gen const& g);                      // all types equally likely
Val elem(Val const& v, size_t k); void append_elem(Val& v, Val const& e); void resize_arr(Val& v, size_t n);
double m_number(Val const& v); cplx m_cnumber(Val const& v);                    // throw Reject
bool promote(Val& v, int target);               // false: rejected, v unchanged
template <class F> decltype(auto) LIBF(F f) { Lib l; return f(); }
#define LIB(...) (::sim::LIBF([&]() -> decltype(auto) { return (__VA_ARGS__); }))

// a node inside a tree
struct Path { vector<std::pair<int, string>> steps; string str() const; };   // (index,"") or (-1,key)
Path random_path(Val const& root, int maxdepth = 4);
Val& at(Val& root, Path const& p);
GC&  at(GC& root, Path const& p);
}
