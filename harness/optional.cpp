#include "tracked.hpp"
#include <fitoria/core/optional.hpp>
using namespace fitoria;

using C0 = tracked<0, true>;
using M0 = tracked<2, false>;
using O0 = tracked<4, true, false>;
struct D0 : C0 { using C0::C0; };      // derived, for optional<C0&> from optional<D0&>

static D0* refs_c(int i) { static D0* r[3] = { new D0(0), new D0(1), new D0(2) }; return r[i]; }

template <class T>
struct rig {
  using Ex = optional<T>;
  static constexpr bool is_void = std::is_void_v<T>;
  static constexpr bool is_ref = std::is_reference_v<T>;
  static constexpr bool is_int = std::is_same_v<T, int>;
  using TV = std::remove_reference_t<T>;
  static constexpr bool copyT = is_void || is_ref || std::is_copy_constructible_v<TV>;
  std::unique_ptr<Ex> x, y;

  static decltype(auto) tv(int a)
  {
    if constexpr (is_ref) return static_cast<C0&>(*refs_c(a));
    else return TV(a);
  }
  template <class Q> static int take(Q&& q)
  {
    using D = std::remove_cvref_t<Q>;
    if constexpr (!std::is_lvalue_reference_v<Q> && !std::is_const_v<std::remove_reference_t<Q>>) {
      D d(std::forward<Q>(q));
      return num(d);
    } else
      return num(q);
  }
  static std::unique_ptr<Ex> make(const std::string& s)
  {
    int n = std::stoi(s.substr(1));
    if (s[0] == 'e') return std::make_unique<Ex>();
    if constexpr (is_void) return std::make_unique<Ex>(std::in_place);
    else if constexpr (is_ref) return std::make_unique<Ex>(tv(n));
    else {
      auto p = std::make_unique<Ex>(std::in_place, tv(n < 0 ? 1 : n));
      if constexpr (std::is_class_v<TV>) if (n < 0) { TV t(std::move(**p)); }
      return p;
    }
  }
  template <class X> static std::string showr(const X& e)
  {
    if (!e.has_value()) return "e0";
    if constexpr (std::is_void_v<typename X::value_type>) return "v0";
    else return "v" + std::to_string(num(*e));
  }
  static std::string show(const Ex& e)
  {
    if (e.has_value() != static_cast<bool>(e)) fault("bool");
    if constexpr (!is_void) if (e) {
      if (&*e != e.operator->()) fault("arrow");
      if constexpr (is_ref) if (&*e != refs_c(num(*e))) fault("other-referent");
    }
    return showr(e);
  }
  template <class X> std::string obs(const std::string& o, X&& q, int a)
  {
    auto nn = [](int n) { return "n" + std::to_string(n); };
    constexpr bool rv = !std::is_lvalue_reference_v<X> && !std::is_const_v<std::remove_reference_t<X>>;
    if (o == "val") {
      try {
        if constexpr (is_void) { q.value(); return nn(0); }
        else return nn(take(std::forward<X>(q).value()));
      } catch (const bad_optional_access&) { return "t0"; }
    }
    if (o == "der") { if constexpr (is_void) { *q; return nn(0); } else return nn(take(*std::forward<X>(q))); }
    if (o == "vor") { if constexpr (!is_void && (copyT || rv)) return nn(num(std::forward<X>(q).value_or(a))); }
    if (o == "at") {
      if constexpr (is_void) return showr(std::forward<X>(q).and_then([] { return optional<int>(10); }));
      else return showr(std::forward<X>(q).and_then([](auto&& v) {
        int n = take(std::forward<decltype(v)>(v));
        return n == 1 ? optional<int>() : optional<int>(n + 10);
      }));
    }
    if (o == "oe") {
      if constexpr (copyT || rv) return showr(std::forward<X>(q).or_else([] {
        if constexpr (is_void) return Ex(std::in_place); else return Ex(tv(2));
      }));
    }
    if (o == "tr") {
      if constexpr (is_void) return showr(q.transform([] {}));
      else return showr(std::forward<X>(q).transform([](auto&& v) { return take(std::forward<decltype(v)>(v)) + 20; }));
    }
    return "unsupported";
  }
  std::string step(const std::string& o, int c, int a)
  {
    using UI = std::conditional_t<is_ref, D0&, std::conditional_t<is_int, short, int>>;
    using Cx = optional<UI>;
    auto cx = [&]() -> Cx {
      if constexpr (is_void) return Cx();
      else {
        if (!*y) return Cx();
        if constexpr (is_ref) return Cx(static_cast<D0&>(**y));
        else return Cx(std::in_place, static_cast<UI>(num(**y)));
      }
    };
    auto b = [](bool v) { return v ? std::string("b1") : std::string("b0"); };
    auto sg = [](auto v) { return v < 0 ? "n-1" : v > 0 ? "n1" : "n0"; };
    if (o == "dc") { x.reset(new Ex()); return "-0"; }
    if (o == "nc") { x.reset(new Ex(nullopt)); return "-0"; }
    if (o == "cc") { if constexpr (copyT) x.reset(new Ex(std::as_const(*y))); return "-0"; }
    if (o == "cm") { x.reset(new Ex(std::move(*y))); return "-0"; }
    if (o == "kc") { const auto t = cx(); if constexpr (copyT && !is_void) x.reset(new Ex(t)); return "-0"; }
    if (o == "km") { auto t = cx(); if constexpr (!is_void) x.reset(new Ex(std::move(t))); return "-0"; }
    if (o == "cv") { if constexpr (is_ref) x.reset(new Ex(tv(a))); else if constexpr (!is_void) x.reset(a == 1 ? new Ex(a) : new Ex(tv(a))); return "-0"; }
    if (o == "ci") { if constexpr (is_void) x.reset(new Ex(std::in_place)); else if constexpr (!is_ref) x.reset(new Ex(std::in_place, tv(a))); return "-0"; }
    if (o == "mk") { if constexpr (!is_void && !is_ref) { if (a == 1) x.reset(new Ex(make_optional(tv(a)))); else x.reset(new Ex(make_optional<T>(a))); } return "-0"; }
    if (o == "ac") { if constexpr (copyT) *x = std::as_const(*y); return "-0"; }
    if (o == "am") { *x = std::move(*y); return "-0"; }
    if (o == "ka") { const auto t = cx(); if constexpr (!is_void && copyT) *x = t; return "-0"; }
    if (o == "kb") { auto t = cx(); if constexpr (!is_void) *x = std::move(t); return "-0"; }
    if (o == "an") { *x = nullopt; return "-0"; }
    if (o == "sc") { if constexpr (copyT) { auto& r = *x; *x = std::as_const(r); } return "-0"; }
    if (o == "sm") { auto& r = *x; *x = std::move(r); return "-0"; }
    if (o == "av") { if constexpr (is_ref) *x = tv(a); else if constexpr (!is_void) { if (a == 1) *x = a; else *x = tv(a); } return "-0"; }
    if (o == "em") {
      if constexpr (is_void) x->emplace();
      else if constexpr (is_ref) { if (&x->emplace(tv(a)) != refs_c(a)) fault("emplace"); }
      else { if (&x->emplace(a) != &**x) fault("emplace"); }
      return "-0";
    }
    if (o == "sw") { x->swap(*y); return "-0"; }
    if (o == "fs") { using std::swap; if constexpr (is_ref) x->swap(*y); else swap(*x, *y); return "-0"; }
    if (o == "rs") { x->reset(); return "-0"; }
    if (o == "bo") return b(x->has_value());
    if (o == "eqn") { bool e = *x == nullopt, n = *x != nullopt; if (e == n || (nullopt == *x) != e) fault("nullopt-eq"); return b(e); }
    if (o == "ssn") return sg(*x <=> nullopt);
    if (o == "eq") return b(*x == *y);
    if (o == "ne") return b(*x != *y);
    if (o == "lt") return b(*x < *y);
    if (o == "le") return b(*x <= *y);
    if (o == "gt") return b(*x > *y);
    if (o == "ge") return b(*x >= *y);
    if constexpr (!is_void) {
      if (o == "ss") return sg(*x <=> *y);
      auto&& v = tv(a ? a : 1);
      if (o == "veq") return b(*x == v);
      if (o == "vne") return b(*x != v);
      if (o == "vlt") return b(*x < v);
      if (o == "vle") return b(*x <= v);
      if (o == "vgt") return b(*x > v);
      if (o == "vge") return b(*x >= v);
      if (o == "weq") return b(v == *x);
      if (o == "wne") return b(v != *x);
      if (o == "wlt") return b(v < *x);
      if (o == "wle") return b(v <= *x);
      if (o == "wgt") return b(v > *x);
      if (o == "wge") return b(v >= *x);
    }
    if (c == 0) return obs(o, *x, a);
    if (c == 1) return obs(o, std::as_const(*x), a);
    if (c == 2) return obs(o, std::move(*x), a);
    return obs(o, std::move(std::as_const(*x)), a);
  }
  static std::string run(const std::vector<std::string>& t)
  {
    if constexpr (is_ref) refs_c(0);
    std::size_t base = g_live.size();
    std::string out;
    {
      rig r;
      r.x = make(t[1]);
      r.y = make(t[2]);
      auto expected_live = [&] {
        std::size_t n = base;
        for (auto* p : { r.x.get(), r.y.get() })
          if (p->has_value()) n += !is_void && !is_ref && std::is_class_v<TV>;
        return n;
      };
      for (std::size_t i = 3; i + 3 < t.size(); i += 4) {
        std::string res;
        g_armed = std::stoi(t[i + 3]);
        try {
          res = r.step(t[i], std::stoi(t[i + 1]), std::stoi(t[i + 2]));
        } catch (const boom&) {
          res = "X0";
        } catch (const std::exception& e) {
          res = "unexpected-exception";
        }
        g_armed = 0;
        if (g_live.size() != expected_live()) fault("live-count");
        out += show(*r.x) + " " + show(*r.y) + " " + res + " ";
      }
    }
    if (g_live.size() != base) fault("leak");
    if (!g_errors.empty()) { out += g_errors; g_errors.clear(); }
    return out;
  }
};

int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    auto& k = t[0];
    if (k == "c") return rig<C0>::run(t);
    if (k == "m") return rig<M0>::run(t);
    if (k == "i") return rig<int>::run(t);
    if (k == "o") return rig<O0>::run(t);
    if (k == "v") return rig<void>::run(t);
    if (k == "r") return rig<C0&>::run(t);
    return "unknown";
  });
}
