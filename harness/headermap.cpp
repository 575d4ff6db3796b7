// Histories of operations on two header_maps.
#include "common.hpp"
#include <boost/beast/http/fields.hpp>
#include <boost/beast/http/message.hpp>
#include <boost/beast/http/empty_body.hpp>
#include <fitoria/http/field.hpp>
#include <fitoria/http/header_map.hpp>
using namespace fitoria;
using http::header_map;

static auto low(std::string s)
{
  for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32;
  return s;
}
using list = std::vector<std::pair<std::string, std::string>>;
template <class B, class E> static auto items(B b, E e)
{
  list r;
  for (; b != e; ++b) r.emplace_back(std::string(b->name_string()), std::string(b->value()));
  return r;
}
// the observers of one map agree with its iteration
static auto agree(header_map& m, const std::vector<std::string>& names) -> int
{
  int bad = 0;
  const auto& c = m;
  auto all = items(c.begin(), c.end());
  if (items(m.begin(), m.end()) != all || items(m.cbegin(), m.cend()) != all) ++bad;
  if (c.size() != all.size() || c.empty() != all.empty()) ++bad;
  for (auto& n : names) {
    list mine;
    for (auto& [k, v] : all) if (low(k) == low(n)) mine.emplace_back(k, v);
    auto [b, e] = c.equal_range(n);
    if (items(b, e) != mine || c.contains(n) != !mine.empty()) ++bad;
    auto g = c.get(n);
    if (bool(g) != !mine.empty() || (g && *g != mine[0].second)) ++bad;
    if (auto f = boost::beast::http::string_to_field(n); f != http::field::unknown) {
      auto [fb, fe] = c.equal_range(f);
      if (items(fb, fe) != mine || c.contains(f) != !mine.empty()) ++bad;
      auto fg = c.get(f);
      if (bool(fg) != !mine.empty() || (fg && *fg != mine[0].second)) ++bad;
    }
  }
  return bad;
}
static auto show(const header_map& m) -> std::string
{
  std::string r;
  for (auto& [n, v] : items(m.begin(), m.end())) r += (r.empty() ? "" : ",") + hex(n) + "=" + hex(v);
  return r.empty() ? "." : r;
}

int main()
{
  return line_loop([](const std::vector<std::string>& t) {
    header_map m[2];
    std::vector<std::string> names { "zz" };
    std::string out;
    bool ok[2] = { true, true };
    for (std::size_t i = 0; i + 3 < t.size() + 0; i += 4) {
      auto o = t[i];
      int d = t[i + 1] == "a" ? 0 : 1;
      // not exact: iequals of Boost 1.83 reads one byte past the name it compares
      struct text { std::string s; auto sv() const -> std::string_view { return s; } } n { unhex(t[i + 2]) }, v { unhex(t[i + 3]) };
      auto field = boost::beast::http::string_to_field(n.sv());
      std::size_t res = 0;
      if (!n.sv().empty()) names.push_back(std::string(n.sv()));
      if (o == "set") m[d].set(n.sv(), v.sv());
      else if (o == "ins") m[d].insert(n.sv(), v.sv());
      else if (o == "era") res = m[d].erase(n.sv());
      else if (o == "fset") m[d].set(field, v.sv());
      else if (o == "fins") m[d].insert(field, v.sv());
      else if (o == "fera") res = m[d].erase(field);
      else if (o == "clr") { m[d].clear(); ok[d] = true; }
      else if (o == "cpy") { m[d] = std::as_const(m[1 - d]); ok[d] = true; }
      else if (o == "mov") { m[d] = std::move(m[1 - d]); ok[d] = true; ok[1 - d] = false; }
      else if (o == "swp") { std::swap(m[0], m[1]); std::swap(ok[0], ok[1]); }
      else if (o == "cct") { header_map x(std::as_const(m[d])); header_map y(std::move(x)); m[d] = std::move(y); }
      else if (o == "self") { auto& x = m[d]; m[d] = x; }
      else if (o == "rt") {
        boost::beast::http::response<boost::beast::http::empty_body> r;
        m[d].to_impl(r);
        m[d] = header_map::from_impl(r);
      }
      int bad = 0;
      for (int k = 0; k < 2; ++k) if (ok[k]) bad += agree(m[k], names);
      out += std::to_string(res) + " " + std::to_string(bad) + " " + (ok[0] ? show(m[0]) : "?") + " " + (ok[1] ? show(m[1]) : "?") + ";";
    }
    return out;
  });
}
