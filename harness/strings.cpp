#include "common.hpp"
#include <fitoria/core/fixed_string.hpp>
#include <fitoria/core/strings.hpp>
#include <utility>
using namespace fitoria;
static std::vector<std::string> others;
static auto sgn(std::strong_ordering o) { return o < 0 ? '<' : o > 0 ? '>' : '='; }

template <std::size_t N>
auto make(const std::string& s)
{
  char b[N + 1] {};
  std::copy_n(s.begin(), N, b);
  return basic_fixed_string<char, N>(b);
}
template <std::size_t A, std::size_t B>
auto cat(const std::string& a, const std::string& b) -> std::string
{
  auto x = make<A>(a);
  auto y = make<B>(b);
  auto z = x + y;
  auto v = static_cast<std::string_view>(z);
  std::string it(z.begin(), z.end());
  return hex(v) + " " + std::to_string(z.size()) + " " + hex(it) + " " + hex(static_cast<std::string_view>(x)) + " "
      + hex(static_cast<std::string_view>(y));
}
template <std::size_t A, std::size_t... Bs>
auto cat_b(std::size_t n, const std::string& a, const std::string& b, std::index_sequence<Bs...>) -> std::string
{
  std::string r;
  ((Bs == n ? (r = cat<A, Bs>(a, b), 0) : 0), ...);
  return r;
}
template <std::size_t... As>
auto cat_a(const std::string& a, const std::string& b, std::index_sequence<As...>) -> std::string
{
  std::string r;
  ((As == a.size() ? (r = cat_b<As>(b.size(), a, b, std::make_index_sequence<7> {}), 0) : 0), ...);
  return r;
}

int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    if (t[0] == "others") {
      others.clear();
      for (std::size_t i = 1; i < t.size(); ++i) others.push_back(unhex(t[i]));
      return "ok";
    }
    exact e(unhex(t[1]));
    auto s = e.sv();
    if (t[0] == "cmp") {
      std::string r;
      for (auto& o : others) {
        exact x(o);
        auto c = sgn(cmp_tw_ci(s, x.sv()));
        auto back = sgn(cmp_tw_ci(x.sv(), s));
        if ((back == '<' ? '>' : back == '>' ? '<' : '=') != c) c = '!';
        if (cmp_eq_ci(s, x.sv()) != (c == '=') || cmp_eq_ci(x.sv(), s) != (c == '=')) c = '?';
        r += c;
      }
      return r.empty() ? "-" : r;
    }
    auto q = [](char c) { return c == 'a' || c == ' '; };
    if (t[0] == "trim")
      return hex(ltrim(s)) + " " + hex(rtrim(s)) + " " + hex(trim(s)) + " " + hex(ltrim(s, q)) + " " + hex(rtrim(s, q))
          + " " + hex(trim(s, q));
    if (t[0] == "split") {
      std::string r;
      for (std::size_t i = 2; i < t.size(); ++i) {
        exact d(unhex(t[i]));
        auto toks = split_of(s, d.sv());
        for (auto& k : toks) r += hex(k) + ",";
        r += ";";
      }
      return r;
    }
    return cat_a(unhex(t[1]), unhex(t[2]), std::make_index_sequence<7> {});
  });
}
