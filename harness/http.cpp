// The vocabulary (versions, statuses, methods) and the builders of requests,
// responses and test requests, inside the real server.
#include "common.hpp"
#include <algorithm>
#include <map>
#include <fitoria/web.hpp>
using namespace fitoria;
using namespace fitoria::web;

struct object { int id = 7; std::string name = "n"; };
static void tag_invoke(const boost::json::value_from_tag&, boost::json::value& jv, const object& o)
{
  jv = { { "id", o.id }, { "name", o.name } };
}
static auto low(std::string s)
{
  for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32;
  return s;
}
static auto show_headers(const http::header_map& h) -> std::string
{
  std::map<std::string, std::vector<std::string>> g;
  for (auto& e : h) g[low(std::string(e.name_string()))].push_back(std::string(e.value()));
  std::string r;
  for (auto& [n, vs] : g) for (auto& v : vs) r += (r.empty() ? "" : ",") + hex(n) + "=" + hex(v);
  return r.empty() ? "." : r;
}
static auto show_query(const query_map& q) -> std::string
{
  std::map<std::string, std::string> g(q.begin(), q.end());
  std::string r;
  for (auto& [n, v] : g) r += (r.empty() ? "" : ",") + hex(n) + "=" + hex(v);
  return r.empty() ? "." : r;
}
static auto show_size(const any_body& b) -> std::string
{
  if (std::holds_alternative<any_body::null>(b.size())) return "null";
  if (std::holds_alternative<any_body::chunked>(b.size())) return "chunked";
  auto s = std::get<any_body::sized>(b.size()).size;
  return s ? "sized:" + std::to_string(*s) : "open";
}
template <class S> static auto drain(S& s) -> awaitable<std::string>
{
  auto r = co_await async_read_until_eof<std::string>(s);
  if (!r) co_return r.error() == make_error_code(net::error::eof) ? "-" : "err";
  co_return hex(*r);
}
static auto ver_of(const std::string& s)
{
  for (int i = 0; i < 6; ++i) if (http::to_string(static_cast<http::version>(i)) == s) return static_cast<http::version>(i);
  return http::version::unknown;
}
// a stream that is no vector stream
struct own_stream {
  using is_async_readable_stream = void;
  std::string data;
  std::size_t at = 0;
  auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>
  {
    if (at == data.size()) co_return nullopt;
    auto n = std::min(data.size() - at, std::size_t(2));
    auto b = std::as_bytes(std::span(data.data() + at, n));
    at += n;
    co_return bytes(b.begin(), b.end());
  }
};
static auto json_of_name(const std::string& v) -> boost::json::value
{
  if (v == "j1") return { { "a", 1 }, { "b", { true, "x" } } };
  if (v == "j2") return "\n";
  if (v == "j3") return boost::json::array {};
  return nullptr;
}
struct op { std::string o, n, v; char how; };
static auto parse_ops(const std::vector<std::string>& t, std::size_t& i) -> std::vector<op>
{
  std::vector<op> r;
  for (; i + 3 < t.size() && t[i] != "|"; i += 4) r.push_back({ t[i], unhex(t[i + 1]), unhex(t[i + 2]), t[i + 3][0] });
  return r;
}
// runs the setters on a builder until a finishing operation; yields the object
template <class B, class O> static auto run_builder(B first, const std::vector<op>& ops, std::size_t& i) -> O
{
  B b = std::move(first);
  for (; i < ops.size(); ++i) {
    auto& [o, n, v, how] = ops[i];
    bool r = how == 'r' || how == 'f';              // rvalue overload
    auto field = boost::beast::http::string_to_field(n);
    bool f = (how == 'f' || how == 'F') && field != http::field::unknown;
    exact en(n), ev(v);
    if (o == "st") {
      if constexpr (requires { b.set_status(http::status_code(1)); }) { if (r) b = B(std::move(b).set_status(std::stoi(v))); else b.set_status(http::status_code(std::stoi(v))); }
      else { auto m = boost::beast::http::string_to_verb(v); if (r) b = B(std::move(b).set_method(m)); else b.set_method(m); }
    }
    else if (o == "ver") {
      if constexpr (requires { b.set_version(http::version::v1_1); }) { if (r) b = B(std::move(b).set_version(ver_of(v))); else b.set_version(ver_of(v)); }
    }
    else if (o == "set") { if (f) { if (r) b = B(std::move(b).set_header(field, ev)); else b.set_header(field, ev); } else { if (r) b = B(std::move(b).set_header(n, ev)); else b.set_header(n, ev); } }
    else if (o == "ins") { if (f) { if (r) b = B(std::move(b).insert_header(field, ev)); else b.insert_header(field, ev); } else { if (r) b = B(std::move(b).insert_header(n, ev)); else b.insert_header(n, ev); } }
    else if (o == "era") { if constexpr (requires { b.headers().erase(n); }) b.headers().erase(n); }
    else if (o == "q") {
      if constexpr (requires { b.set_query(n, v); }) {
        if constexpr (requires { b.query().clear(); }) if (how == 'F') { b.query().set(n, v); continue; }
        if (r) b = B(std::move(b).set_query(n, v)); else b.set_query(n, v);
      }
    }
    else {
      ++i;
      if (o == "null") return b.set_body();
      if (o == "text") return b.set_body(std::string_view(v));
      if (o == "bytes") return b.set_body(std::as_bytes(std::span(v.data(), v.size())));
      if (o == "stream") { if (r) return b.set_body(async_readable_vector_stream(std::as_bytes(std::span(v.data(), v.size())))); return b.set_body(own_stream { v }); }
      if (o == "chunked") {
        if constexpr (requires { b.set_stream_body(own_stream {}); }) { if (r) return b.set_stream_body(async_readable_vector_stream(std::as_bytes(std::span(v.data(), v.size())))); return b.set_stream_body(own_stream { v }); }
      }
      if (o == "json") return b.set_json(json_of_name(v));
      if (o == "jobj") return b.set_json(object {});
      return b.build();
    }
  }
  return b.build();
}
template <class B, class O> static auto run_ops(B first, const std::vector<op>& ops) -> O
{
  std::size_t i = 0;
  auto obj = run_builder<B, O>(std::move(first), ops, i);
  while (i < ops.size()) {
    ++i; // "again"
    auto moved = std::move(obj);
    obj = run_builder<B, O>(moved.builder(), ops, i);
  }
  return obj;
}
static auto show_res(response& r) -> awaitable<std::string>
{
  auto s = std::to_string(int(r.status().value())) + " " + http::to_string(r.version()) + " " + show_headers(r.headers()) + " . " + show_size(r.body()) + " ";
  co_return s + co_await drain(r.body().stream());
}
static auto show_tr(test_request& r) -> awaitable<std::string>
{
  auto s = std::string(boost::beast::http::to_string(r.method())) + " " + http::to_string(r.version()) + " " + show_headers(r.headers()) + " " + show_query(r.query()) + " " + show_size(r.body()) + " ";
  co_return s + co_await drain(r.body().stream());
}
static auto show_req(request& r) -> awaitable<std::string>
{
  auto st = r.state<int>();
  auto s = std::string(boost::beast::http::to_string(r.method())) + " " + http::to_string(r.version()) + " " + show_headers(r.headers()) + " " + show_query(r.query()) + " "
      + r.connection().local() + "/" + r.connection().remote() + "/" + std::string(r.path().match_pattern()) + ":" + hex(r.path().match_path()) + ":" + (r.path().get("id") ? hex(*r.path().get("id")) : "none") + ":" + (st ? std::to_string(*st) : "none") + " ";
  co_return s + co_await drain(r.body());
}

#define FACTORIES(X) X(continue_) X(switching_protocols) X(processing) X(early_hints) X(ok) X(created) X(accepted) X(non_authoritative_information) X(no_content) X(reset_content) X(partial_content) X(multi_status) X(already_reported) X(im_used) X(multiple_choices) X(moved_permanently) X(found) X(see_other) X(not_modified) X(use_proxy) X(temporary_redirect) X(permanent_redirect) X(bad_request) X(unauthorized) X(payment_required) X(forbidden) X(not_found) X(method_not_allowed) X(not_acceptable) X(proxy_authentication_required) X(request_timeout) X(conflict) X(gone) X(length_required) X(precondition_failed) X(payload_too_large) X(uri_too_long) X(unsupported_media_type) X(range_not_satisfiable) X(expectation_failed) X(misdirected_request) X(unprocessable_entity) X(locked) X(failed_dependency) X(too_early) X(upgrade_required) X(precondition_required) X(too_many_requests) X(request_header_fields_too_large) X(unavailable_for_legal_reasons) X(internal_server_error) X(not_implemented) X(bad_gateway) X(service_unavailable) X(gateway_timeout) X(http_version_not_supported) X(variant_also_negotiates) X(insufficient_storage) X(loop_detected) X(not_extended) X(network_authentication_required)
static auto factory(const std::string& n) -> response
{
#define X(f) if (n == #f) return response::f().build();
  FACTORIES(X)
#undef X
  return response();
}
static auto maker(const std::string& n) -> test_request_builder
{
#define X(f) if (n == #f) return test_request::f();
  X(get) X(post) X(put) X(patch) X(delete_) X(head) X(options)
#undef X
  return test_request().builder();
}
static auto cls(http::status_class c) -> int
{
  using http::status_class;
  switch (c) {
  case status_class::informational: return 1;
  case status_class::successful: return 2;
  case status_class::redirection: return 3;
  case status_class::client_error: return 4;
  case status_class::server_error: return 5;
  default: return 0;
  }
}

static std::vector<op> g_ops, g_res;
static std::string g_seen;
static int g_calls = 0;
static auto who(std::string n)
{
  return [n](request& r) -> awaitable<response> {
    ++g_calls;
    g_seen = std::string(boost::beast::http::to_string(r.method())) + " " + n;
    co_return response::ok().set_header("x-route", n).set_body();
  };
}

int main()
{
  net::io_context ioc;
  auto server
      = http_server::builder(ioc)
            .serve(route::get<"/m">(who("get"))).serve(route::post<"/m">(who("post"))).serve(route::put<"/m">(who("put")))
            .serve(route::patch<"/m">(who("patch"))).serve(route::delete_<"/m">(who("delete_"))).serve(route::head<"/m">(who("head")))
            .serve(route::options<"/m">(who("options"))).serve(route::any<"/any">(who("any")))
            // rebuilds the request it receives
            .serve(route::any<"/req/{id}">([](request& r) -> awaitable<response> {
                       auto x = run_ops<request_builder, request>(r.builder(), g_ops);
                       g_seen = co_await show_req(x);
                       ++g_calls;
                       co_return response::ok().set_body();
                     }).use_state(7))
            // shows the request and answers as told
            .serve(route::any<"/srv/{id}">([](request& r) -> awaitable<response> {
                       g_seen = co_await show_req(r);
                       ++g_calls;
                       co_return run_ops<response_builder, response>(response().builder(), g_res);
                     }).use_state(7))
            .build();
  auto serve = [&](std::string path, test_request tr) -> std::string {
    std::string answer = "none";
    g_seen = "none";
    g_calls = 0;
    try {
      server.serve_request(std::move(path), std::move(tr), [&](test_response r) -> awaitable<void> {
        answer = std::to_string(int(r.status().value())) + " " + http::to_string(r.version()) + " " + show_headers(r.headers()) + " ";
        auto b = co_await r.as_string();
        answer += b ? hex(*b) : b.error() == make_error_code(net::error::eof) ? "-" : "err";
      });
      ioc.restart();
      ioc.run();
    } catch (const std::exception& e) {
      // the end of the test connection, reported as an exception
      ioc.restart();
      try { ioc.run(); } catch (const std::exception&) { }
    }
    return (g_calls == 1 ? g_seen : g_calls == 0 ? "unserved" : "served-" + std::to_string(g_calls)) + " | " + answer;
  };
  auto await = [&](auto aw) -> std::string {
    std::string out;
    net::co_spawn(ioc, std::move(aw), [&](std::exception_ptr e, std::string s) { out = e ? "EXC" : s; });
    ioc.restart();
    ioc.run();
    return out;
  };
  return line_loop([&](const std::vector<std::string>& t) -> std::string {
    auto& k = t[0];
    if (k == "ver") {
      auto v = static_cast<http::version>(std::stoi(t[1]));
      auto s = http::to_string(v), f = fmt::format("{}", v);
      return s + " " + std::to_string(http::detail::to_impl_version(v)) + (f == s ? "" : " format-differs");
    }
    if (k == "num") return std::to_string(int(http::detail::from_impl_version(std::stoul(t[1]))));
    if (k == "st") {
      int n = std::stoi(t[1]);
      http::status_code c(n), d(static_cast<http::status>(n)), e(static_cast<http::status>(n + 1));
      bool ok = c == d && !(c == e) && int(c.value()) == n && c.category() == d.category() && fmt::format("{}", c) == std::to_string(n);
      return std::to_string(cls(c.category())) + (ok ? "" : " inconsistent");
    }
    if (k == "fac") {
      auto r = factory(t[1]);
      return std::to_string(int(r.status().value())) + " " + std::to_string(cls(r.status().category()))
          + (r.version() == http::version::v1_1 && r.headers().empty() && show_size(r.body()) == "null" ? "" : " not-plain");
    }
    if (k == "srv1") {                                     // method path
      auto b = maker("");
      b.set_method(boost::beast::http::string_to_verb(t[1]));
      return serve("/" + t[2], b.build());
    }
    if (k == "mk") {
      auto tr = maker(t[1]).build();
      auto m = std::string(boost::beast::http::to_string(tr.method()));
      return m + " " + serve("/m", std::move(tr));
    }
    std::size_t i = 1;
    if (k == "res") {
      auto r = run_ops<response_builder, response>(response().builder(), parse_ops(t, i));
      return await(show_res(r));
    }
    if (k == "tr") {
      auto r = run_ops<test_request_builder, test_request>(test_request().builder(), parse_ops(t, i));
      return await(show_tr(r));
    }
    if (k == "req") {
      g_ops = parse_ops(t, i);
      return serve("/req/x1", test_request::post().set_header("X-In", "0").set_query("q", "0").set_body("orig"));
    }
    if (k == "srv") {                                      // path | request ops | response ops
      auto path = unhex(t[1]);
      i = 3;
      auto a = parse_ops(t, i);
      ++i;
      g_res = parse_ops(t, i);
      return serve(path, run_ops<test_request_builder, test_request>(test_request().builder(), a));
    }
    return "?";
  });
}
