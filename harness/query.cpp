// query_map as a map, and the decoding of query and form texts.
#include "common.hpp"
#include <algorithm>
#include <fitoria/web/query_map.hpp>
#include <fitoria/web/detail/as_form.hpp>
#include <boost/url/parse.hpp>
using namespace fitoria;
using web::query_map;
using list = std::vector<std::pair<std::string, std::string>>;

static auto items(const query_map& m) -> list
{
  list r;
  for (auto& [n, v] : m) r.emplace_back(n, v);
  std::sort(r.begin(), r.end());
  return r;
}
static auto show(const query_map& m) -> std::string
{
  std::string r;
  for (auto& [n, v] : items(m)) r += (r.empty() ? "" : ",") + hex(n) + "=" + hex(v);
  return r.empty() ? "." : r;
}
// the observers of one map agree; to_string of plain text is its query string
static auto agree(query_map& m) -> int
{
  int bad = 0;
  const auto& c = m;
  auto all = items(c);
  list x, y;
  for (auto it = m.begin(); it != m.end(); ++it) x.emplace_back(it->first, it->second);
  for (auto it = c.cbegin(); it != c.cend(); ++it) y.emplace_back(it->first, it->second);
  std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
  if (x != all || y != all || c.size() != all.size() || c.empty() != all.empty() || c.max_size() < c.size()) ++bad;
  for (auto& [n, v] : all) {
    if (!c.contains(n) || !c.get(n) || *c.get(n) != v || !m.get(std::string_view(n)) || c.at(n) != v || m.at(n) != v) ++bad;
  }
  query_map cp(c), mv(query_map { cp });
  if (!(cp == m) || items(mv) != all || cp != c) ++bad;
  auto s = c.to_string();
  auto plain = std::all_of(all.begin(), all.end(), [](auto& e) { return (e.first + e.second).find_first_of("=&%+ #") == std::string::npos; });
  if (plain) {
    auto back = web::detail::as_form(s);
    if (!back || items(*back) != all || std::size_t(std::count(s.begin(), s.end(), '&') + (s.empty() ? 0 : 1)) != all.size()) ++bad;
  }
  return bad;
}

int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    if (t[0] == "text") {
      auto text = unhex(t[1]);
      std::string r;
      auto target = "/p?" + text;
      auto url = boost::urls::parse_origin_form(target);
      r = url ? show(query_map::from(url->params())) : "refused";
      exact e(text);                       // Boost 1.83 does not take a null pointer
      auto f = text.empty() ? web::detail::as_form(text) : web::detail::as_form(e);
      return r + " " + (f ? show(*f) : "refused");
    }
    // ops: o d n v w
    query_map m[2];
    std::string out;
    for (std::size_t i = 1; i + 4 < t.size() + 0; i += 5) {
      auto o = t[i];
      int d = t[i + 1] == "a" ? 0 : 1;
      auto n = unhex(t[i + 2]), v = unhex(t[i + 3]), w = unhex(t[i + 4]);
      auto& x = m[d];
      const auto& cx = x;
      std::string res = ".";
      auto seen = [&](auto&& r) { res = r ? "=" + hex(*r) : std::string("none"); };
      if (o == "set") x.set(n, v);
      else if (o == "idx") x[n] = v;
      else if (o == "idr") res = "=" + hex(x[n]);
      else if (o == "get") seen(i % 2 ? x.get(n) : x.get(std::string_view(n)));
      else if (o == "cgt") seen(i % 2 ? cx.get(n) : cx.get(n.c_str()));
      else if (o == "at" || o == "cat") {
        try { res = "=" + hex(o == "at" ? x.at(n) : cx.at(n)); } catch (const std::out_of_range&) { res = "none"; }
      }
      else if (o == "has") res = cx.contains(n) ? "1" : "0";
      else if (o == "via") { if (auto g = x.get(n)) { res = "=" + hex(*g); *g = v; } else res = "none"; }
      else if (o == "era") seen(x.erase(n));
      else if (o == "clr") x.clear();
      else if (o == "cpy") x = std::as_const(m[1 - d]);
      else if (o == "swp") std::swap(m[0], m[1]);
      else if (o == "slf") { query_map a(cx); query_map b(std::move(a)); query_map c; c = std::move(b); auto& y = x; x = y; if (!(x == c)) res = "differs"; x = std::move(c); }
      else if (o == "eq") res = (cx == m[1 - d]) != (cx != m[1 - d]) ? (cx == m[1 - d] ? "1" : "0") : "both";
      else if (o == "ini") x = query_map { { n, v }, { w, "2" } };
      out += res + " " + show(m[0]) + " " + show(m[1]) + " " + std::to_string(agree(m[0]) + agree(m[1])) + " ";
    }
    return out;
  });
}
