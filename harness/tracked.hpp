// Element types whose every construction and destruction is checked.
#pragma once
#include "common.hpp"
#include <set>
#include <stdexcept>

struct boom { };
inline int g_armed = 0;                 // the g_armed-th throwing operation throws
inline std::set<const void*> g_live;
inline std::string g_errors;
inline void fault(const char* what)
{
  if (g_errors.size() < 200) g_errors += std::string("!") + what;
}
inline void maybe_throw()
{
  if (g_armed > 0 && --g_armed == 0) throw boom {};
}
struct nt_t { };

template <int Tag, bool NothrowMove, bool Copyable = true>
struct tracked {
  int n = 0;
  tracked() : n(0) { born(); }
  tracked(int v) : n((maybe_throw(), v)) { born(); }
  tracked(nt_t, int v) noexcept : n(v) { born(); }
  tracked(const tracked& o) requires(Copyable) : n((o.check(), maybe_throw(), o.n)) { born(); }
  tracked(tracked&& o) noexcept(NothrowMove) : n((o.check(), NothrowMove ? void() : maybe_throw(), o.n))
  {
    o.n = -1;
    born();
  }
  tracked& operator=(const tracked& o) requires(Copyable)
  {
    check(); o.check(); maybe_throw();
    n = o.n;
    return *this;
  }
  tracked& operator=(tracked&& o) noexcept(NothrowMove)
  {
    check(); o.check();
    if (!NothrowMove) maybe_throw();
    if (this != &o) { n = o.n; o.n = -1; }
    return *this;
  }
  tracked& operator=(int v)
  {
    check(); maybe_throw();
    n = v;
    return *this;
  }
  ~tracked()
  {
    if (!g_live.erase(this)) fault("destroyed-twice");
    n = -77;
  }
  friend bool operator==(const tracked& a, const tracked& b) { a.check(); b.check(); return a.n == b.n; }
  friend auto operator<=>(const tracked& a, const tracked& b) { a.check(); b.check(); return a.n <=> b.n; }
  friend void swap(tracked& a, tracked& b) noexcept(NothrowMove)
  {
    a.check(); b.check();
    if (!NothrowMove) maybe_throw();
    std::swap(a.n, b.n);
  }
  void check() const { if (!g_live.count(this)) fault("dead-object"); }
  void born() { if (!g_live.insert(this).second) fault("constructed-over-live"); }
};
template <class T> int num(const T& t) { if constexpr (std::is_same_v<T, int>) return t; else { t.check(); return t.n; } }
