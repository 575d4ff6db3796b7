#include "common.hpp"
#include <fitoria/web/path_parser.hpp>
#include <fitoria/web/path_matcher.hpp>
#include <fitoria/web/router.hpp>
#include <fitoria/web/routable.hpp>
#include <fitoria/web/any_routable.hpp>
using namespace fitoria;
using namespace fitoria::web;

using router_type = router<int, int>;

static auto verb(const std::string& m) -> http::verb
{
  if (m == "get") return http::verb::get;
  if (m == "put") return http::verb::put;
  if (m == "post") return http::verb::post;
  if (m == "patch") return http::verb::patch;
  return http::verb::unknown;
}
static auto kind(path_token_kind k)
{
  return k == path_token_kind::static_ ? "s" : k == path_token_kind::param ? "p" : "w";
}
static auto toks(const path_tokens_t& ts)
{
  std::string r;
  for (auto& t : ts) r += std::string(" ") + kind(t.kind) + ":" + hex(t.value);
  return r;
}
static auto pss(const std::vector<std::pair<std::string, std::string>>& v)
{
  std::string r;
  for (auto& [n, x] : v) r += "," + hex(n) + "=" + hex(x);
  return r;
}
// P pattern             -> "<wild ok> <nowild ok> toks..."
// M pattern path        -> "1,n=v.." | "0" | "bad" | "EXC"
// R opt nroutes (m p)* nfinds (m path)*   -> "ok dup ... | id,n=v ... "
//   opt: 0 none, 1 optimize after, 2 optimize after every insertion
int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    if (t[0] == "P") {
      exact p(unhex(t[1]));
      path_parser<true> w;
      path_parser<false> n;
      bool wo = w.parse(p), no = n.parse(p);
      std::string r = std::string(wo ? "1" : "0") + (no ? " 1" : " 0");
      if (wo) {
        auto a = w.get();
        r += toks(a);
        if (no && n.get() != a) r += " nowild-differs";
        // the parser is reusable
        if (!w.parse(p) || w.get() != a) r += " reuse-differs";
        try {
          path_matcher m { std::string_view(p) };
          if (m.tokens() != a) r += " matcher-tokens-differ";
          if (m.pattern() != p.sv()) r += " matcher-pattern-differs";
        } catch (const std::exception&) {
          r += " matcher-throws";
        }
      } else {
        try {
          path_matcher m { std::string_view(p) };
          r += " matcher-accepts";
        } catch (const std::exception&) {
        }
      }
      return r;
    }
    if (t[0] == "M") {
      try {
        path_matcher m(unhex(t[1]));
        try {
          auto r = m.match(unhex(t[2]));
          return r ? "1" + pss(*r) : std::string("0");
        } catch (const std::exception&) {
          return "EXC";
        }
      } catch (const std::exception&) {
        return "bad";
      }
    }
    router_type rt;
    std::size_t i = 1;
    auto opt = t[i++];
    int nr = std::stoi(t[i++]);
    std::string out;
    for (int k = 1; k <= nr; ++k) {
      auto m = t[i++];
      auto p = unhex(t[i++]);
      try {
        auto res = rt.try_insert(router_type::route_type(routable(verb(m), path_matcher(p), {}, [=](int) { return k; })));
        out += res ? "ok " : res.error() == make_error_code(error::route_already_exists) ? "dup " : "err ";
      } catch (const std::system_error&) {
        out += "bad ";
      } catch (const std::exception&) {
        out += "EXC ";
      }
      if (opt == "2") rt.optimize();
    }
    if (opt == "1") rt.optimize();
    out += "|";
    int nf = std::stoi(t[i++]);
    for (int k = 0; k < nf; ++k) {
      auto m = t[i++];
      auto p = unhex(t[i++]);
      exact ep(p);
      auto res = rt.try_find(verb(m), ep);
      if (!res) {
        out += res.error() == make_error_code(error::route_not_exists) ? " 0" : " err";
        continue;
      }
      out += " " + std::to_string((*res)(0));
      try {
        auto v = res->matcher().match(p);
        out += v ? pss(*v) : std::string("!nomatch");
      } catch (const std::exception&) {
        out += "!EXC";
      }
    }
    return out;
  });
}
