#include "common.hpp"
#include <fitoria/http/header/entity_tag.hpp>
#include <fitoria/http/header/if_none_match.hpp>
#include <fitoria/http/header/range.hpp>
using namespace fitoria;
using namespace fitoria::http::header;
static auto tag(const entity_tag& t) { return (t.strong() ? "s:" : "w:") + hex(t.value()); }
int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    exact e(unhex(t[1]));
    if (t[0] == "range") {
      std::string out;
      for (std::size_t i = 2; i < t.size(); ++i) {
        const auto r = range::parse(e.sv(), std::stoull(t[i]));
        if (!r) { out += "no;"; continue; }
        out += hex(r->unit());
        std::size_t k = 0;
        for (auto& x : *r) {
          out += "," + std::to_string(x.offset) + "+" + std::to_string(x.length);
          if (!(r->at(k) == x) || !((*r)[k] == x)) out += "!";
          ++k;
        }
        if (r->size() != k || static_cast<std::size_t>(r->cend() - r->cbegin()) != k) out += "!size";
        out += ";";
      }
      return out;
    }
    if (t[0] == "etag") {
      auto r = entity_tag::parse(e.sv());
      if (!r) return "no";
      auto again = entity_tag::parse(r->to_string());
      return tag(*r) + " " + hex(r->to_string()) + (again && *again == *r ? "" : " not-inverse");
    }
    if (t[0] == "cmp") { // strong value strong value
      entity_tag a(t[1] == "s", unhex(t[2])), b(t[3] == "s", unhex(t[4]));
      std::string o;
      o += a == b ? '1' : '0';
      o += a != b ? '0' : '1';
      o += a.weakly_equal_to(b) ? '1' : '0';
      o += b.weakly_equal_to(a) ? '1' : '0';
      auto c = entity_tag(false, "zz").set_strong(t[1] == "s").set_value(unhex(t[2]));
      o += c == a && c.strong() == a.strong() && c.value() == a.value() ? '1' : '0';
      auto d = t[1] == "s" ? entity_tag::make_strong(unhex(t[2])) : entity_tag::make_weak(unhex(t[2]));
      o += d == a ? '1' : '0';
      return o + " " + hex(a.to_string());
    }
    const auto m = if_none_match::parse(e.sv());
    if (!m) return "no";
    std::string o = m->is_any() ? "any" : "tags";
    for (auto& x : *m) o += " " + tag(x);
    if (m->etags().size() != static_cast<std::size_t>(m->end() - m->begin())) o += " !size";
    return o;
  });
}
