#include "tracked.hpp"
#include <fitoria/core/expected.hpp>
using namespace fitoria;

using C0 = tracked<0, true>;           // nothrow move
using C1 = tracked<1, true>;
using M0 = tracked<2, false>;          // throwing move
using M1 = tracked<3, false>;
using O0 = tracked<4, true, false>;    // move only

template <class T> struct referents { };
static C0* refs_c(int i) { static C0* r[3] = { new C0(0), new C0(1), new C0(2) }; return r[i]; }

template <class T, class E>
struct rig {
  using Ex = expected<T, E>;
  static constexpr bool is_void = std::is_void_v<T>;
  static constexpr bool is_ref = std::is_reference_v<T>;
  using TV = std::remove_reference_t<T>;
  std::unique_ptr<Ex> x, y;

  static decltype(auto) tv(int a)
  {
    if constexpr (is_ref) return (*refs_c(a));
    else return TV(a);
  }
  template <class Q> static int take(Q&& q)     // moves out of rvalues
  {
    using D = std::remove_cvref_t<Q>;
    if constexpr (!std::is_lvalue_reference_v<Q> && !std::is_const_v<std::remove_reference_t<Q>>) {
      D d(std::forward<Q>(q));
      return num(d);
    } else
      return num(q);
  }
  static std::unique_ptr<Ex> make(const std::string& s)
  {
    int n = std::stoi(s.substr(1));
    if (s[0] == 'v') {
      if constexpr (is_void) return std::make_unique<Ex>();
      else {
        auto p = std::make_unique<Ex>(std::in_place, tv(n < 0 ? 1 : n));
        if constexpr (!is_ref && std::is_class_v<TV>) if (n < 0) { TV t(std::move(**p)); }
        return p;
      }
    }
    auto p = std::make_unique<Ex>(unexpect, n < 0 ? 1 : n);
    if constexpr (std::is_class_v<E>) if (n < 0) { E t(std::move(p->error())); }
    return p;
  }
  static std::string show(const Ex& e)
  {
    if (e.has_value() != static_cast<bool>(e)) fault("bool");
    if (e.has_value()) {
      if constexpr (is_void) return "v0";
      else {
        if (&*e != e.operator->()) fault("arrow");
        if constexpr (is_ref) if (&*e != refs_c(num(*e))) fault("other-referent");
        return "v" + std::to_string(num(*e));
      }
    }
    return "e" + std::to_string(num(e.error()));
  }
  template <class X> static std::string showr(const X& e)
  {
    if (e.has_value()) {
      if constexpr (std::is_void_v<typename X::value_type>) return "v0";
      else return "v" + std::to_string(num(*e));
    }
    return "e" + std::to_string(num(e.error()));
  }
  template <class X> std::string obs(const std::string& o, X&& q, int a, int c)
  {
    auto nn = [](int n) { return "n" + std::to_string(n); };
    constexpr bool rv = !std::is_lvalue_reference_v<X> && !std::is_const_v<std::remove_reference_t<X>>;
    constexpr bool copyT = is_void || is_ref || std::is_copy_constructible_v<TV>;
    if (o == "val") {
      try {
        if constexpr (is_void) { std::forward<X>(q).value(); return nn(0); }
        else return nn(take(std::forward<X>(q).value()));
      } catch (bad_expected_access<E>& e) {
        return "t" + std::to_string(num(e.error()));
      }
    }
    if (o == "der") {
      if constexpr (is_void) { *q; return nn(0); }
      else return nn(take(*std::forward<X>(q)));
    }
    if (o == "err") return nn(take(std::forward<X>(q).error()));
    if (o == "vor") {
      if constexpr (!is_void && (copyT || rv)) return nn(num(std::forward<X>(q).value_or(a)));
    }
    if (o == "eor") return nn(num(std::forward<X>(q).error_or(a)));
    if (o == "at") {
      if constexpr (is_void)
        return showr(std::forward<X>(q).and_then([] { return expected<int, E>(10); }));
      else
        return showr(std::forward<X>(q).and_then([](auto&& v) {
          int n = take(std::forward<decltype(v)>(v));
          if (n == 1) return expected<int, E>(unexpect, 7);
          return expected<int, E>(n + 10);
        }));
    }
    if (o == "oe") {
      if constexpr (copyT || rv)
        return showr(std::forward<X>(q).or_else([](auto&& e) {
          int n = take(std::forward<decltype(e)>(e));
          if (n == 1) {
            if constexpr (is_void) return Ex(); else return Ex(std::in_place, tv(2));
          }
          return Ex(unexpect, n + 10);
        }));
    }
    if (o == "tr") {
      if constexpr (is_void) return showr(std::forward<X>(q).transform([] { return 20; }));
      else return showr(std::forward<X>(q).transform([](auto&& v) { return take(std::forward<decltype(v)>(v)) + 20; }));
    }
    if (o == "te") {
      if constexpr (copyT || rv)
        return showr(std::forward<X>(q).transform_error([](auto&& e) { return take(std::forward<decltype(e)>(e)) + 30; }));
    }
    return "unsupported";
  }
  std::string step(const std::string& o, int c, int a)
  {
    constexpr bool copyT = is_void || is_ref || std::is_copy_constructible_v<TV>;
    using UI = std::conditional_t<is_ref || is_void, T, std::conditional_t<std::is_same_v<T, int>, short, int>>;
    using GI = std::conditional_t<std::is_same_v<E, int>, short, int>;
    using Cx = expected<UI, GI>;
    auto cx = [&]() -> Cx {
      if (*y) {
        if constexpr (is_void) return Cx();
        else if constexpr (is_ref) return Cx(std::in_place, **y);
        else return Cx(std::in_place, static_cast<UI>(num(**y)));
      }
      return Cx(unexpect, static_cast<GI>(num(y->error())));
    };
    auto b = [](bool v) { return v ? std::string("b1") : std::string("b0"); };
    if (o == "dc") { if constexpr (!is_ref) x.reset(new Ex()); return "-0"; }
    if (o == "cc") { if constexpr (copyT) x.reset(new Ex(std::as_const(*y))); return "-0"; }
    if (o == "cm") { x.reset(new Ex(std::move(*y))); return "-0"; }
    if (o == "kc") { const auto t = cx(); if constexpr (copyT) x.reset(new Ex(t)); return "-0"; }
    if (o == "km") { auto t = cx(); x.reset(new Ex(std::move(t))); return "-0"; }
    if (o == "cv") { if constexpr (!is_void) { if constexpr (is_ref) x.reset(new Ex(tv(a))); else { x.reset(a == 1 ? new Ex(a) : new Ex(tv(a))); } } return "-0"; }
    if (o == "ci") { if constexpr (is_void) x.reset(new Ex(std::in_place)); else x.reset(new Ex(std::in_place, tv(a))); return "-0"; }
    if (o == "cu") { x.reset(new Ex(unexpect, a)); return "-0"; }
    if (o == "xc") { const unexpected<E> u(a); x.reset(new Ex(u)); return "-0"; }
    if (o == "xm") { x.reset(new Ex(unexpected<E>(a))); return "-0"; }
    if (o == "ac") { if constexpr (copyT) *x = std::as_const(*y); return "-0"; }
    if (o == "am") { *x = std::move(*y); return "-0"; }
    if (o == "sc") { if constexpr (copyT) { auto& r = *x; *x = std::as_const(r); } return "-0"; }
    if (o == "sm") { auto& r = *x; *x = std::move(r); return "-0"; }
    if (o == "av") { if constexpr (!is_void) { if constexpr (is_ref) *x = tv(a); else if (a == 1) *x = a; else *x = tv(a); } return "-0"; }
    if (o == "uc") { const unexpected<E> u(a); *x = u; return "-0"; }
    if (o == "um") { *x = unexpected<E>(a); return "-0"; }
    if (o == "em") {
      if constexpr (is_void) x->emplace();
      else if constexpr (is_ref) { if (&x->emplace(tv(a)) != refs_c(a)) fault("emplace"); }
      else if constexpr (std::is_same_v<T, int>) { if (&x->emplace(a) != &**x) fault("emplace"); }
      else { if (&x->emplace(nt_t {}, a) != &**x) fault("emplace"); }
      return "-0";
    }
    if (o == "sw") { x->swap(*y); return "-0"; }
    if (o == "fs") { using std::swap; swap(*x, *y); return "-0"; }
    if (o == "eq") return b(*x == *y);
    if (o == "ne") return b(*x != *y);
    if (o == "ev") { if constexpr (!is_void) return b(*x == tv(a)); }
    if (o == "eu") return b(*x == unexpected<E>(a));
    if (o == "bo") return b(x->has_value());
    if (c == 0) return obs(o, *x, a, c);
    if (c == 1) return obs(o, std::as_const(*x), a, c);
    if (c == 2) return obs(o, std::move(*x), a, c);
    return obs(o, std::move(std::as_const(*x)), a, c);
  }
  // x y (op c a k)*  ->  "x y r ..." per step
  static std::string run(const std::vector<std::string>& t)
  {
    if constexpr (is_ref) refs_c(0);
    std::size_t base = g_live.size();
    std::string out;
    {
      rig r;
      r.x = make(t[1]);
      r.y = make(t[2]);
      auto expected_live = [&] {
        std::size_t n = base;
        for (auto* p : { r.x.get(), r.y.get() })
          if (p->has_value()) n += !is_void && !is_ref && std::is_class_v<TV>;
          else n += std::is_class_v<E>;
        return n;
      };
      for (std::size_t i = 3; i + 3 < t.size(); i += 4) {
        std::string res;
        g_armed = std::stoi(t[i + 3]);
        try {
          res = r.step(t[i], std::stoi(t[i + 1]), std::stoi(t[i + 2]));
        } catch (const boom&) {
          res = "X0";
        } catch (const std::exception& e) {
          res = "unexpected-exception";
        }
        g_armed = 0;
        if (g_live.size() != expected_live()) fault("live-count");
        out += show(*r.x) + " " + show(*r.y) + " " + res + " ";
      }
    }
    if (g_live.size() != base) fault("leak");
    if (!g_errors.empty()) { out += g_errors; g_errors.clear(); }
    return out;
  }
};

int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    auto& k = t[0];
    if (k == "cc") return rig<C0, C1>::run(t);
    if (k == "cm") return rig<C0, M1>::run(t);
    if (k == "mc") return rig<M0, C1>::run(t);
    if (k == "same") return rig<C0, C0>::run(t);
    if (k == "ci") return rig<C0, int>::run(t);
    if (k == "ic") return rig<int, C1>::run(t);
    if (k == "ii") return rig<int, int>::run(t);
    if (k == "im") return rig<int, M1>::run(t);
    if (k == "oc") return rig<O0, C1>::run(t);
    if (k == "vc") return rig<void, C1>::run(t);
    if (k == "vm") return rig<void, M1>::run(t);
    if (k == "vi") return rig<void, int>::run(t);
    if (k == "rc") return rig<C0&, C1>::run(t);
    if (k == "rm") return rig<C0&, M1>::run(t);
    if (k == "ri") return rig<C0&, int>::run(t);
    return "unknown";
  });
}
