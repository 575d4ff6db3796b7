// argument and result types for generated handlers, a server on a unix socket
// and a raw client: one request per input line, its answer on one output line
#pragma once
#include "common.hpp"

#include <fitoria/web.hpp>

#include <algorithm>
#include <atomic>
#include <cstring>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <thread>
#include <unistd.h>

using namespace fitoria;
using namespace fitoria::web;

inline std::atomic<int> g_runs { 0 };

using t0 = std::tuple<>;
using t1 = std::tuple<std::int8_t>;
using t2 = std::tuple<std::string, bool>;
struct s1 { std::int8_t a; };
struct s2 { std::string a; std::uint8_t b; };
struct u1 { std::int32_t a; };
struct u2 { std::string b; std::uint8_t a; };
struct u3 { bool a; std::string b; std::int64_t c; };
struct jt { std::int64_t a; std::string b; };
inline jt tag_invoke(const boost::json::value_to_tag<jt>&, const boost::json::value& jv)
{
  auto& o = jv.as_object();
  return { o.at("a").as_int64(), std::string(o.at("b").as_string()) };
}
struct sta { int v; };

struct my_arg {
  friend auto tag_invoke(from_request_t<my_arg>, request& req) -> awaitable<expected<my_arg, response>>
  {
    if (req.headers().contains("x-my"))
      co_return my_arg {};
    co_return unexpected { response::locked().set_header("content-type", "text/plain").set_body("no x-my") };
  }
};

// results
struct own {
  std::string text;
  friend auto tag_invoke(to_response_t, own o) -> response
  {
    return response::non_authoritative_information().set_header("content-type", "text/x-own").set_body(o.text);
  }
};
struct own_error {
  std::string text;
  friend auto tag_invoke(to_response_t, own_error o) -> response
  {
    return response::conflict().set_header("content-type", "text/x-error").set_body(o.text);
  }
};
using octets = std::vector<std::uint8_t>;
using either = std::variant<std::string, octets>;
using maybe = expected<std::string, own_error>;
inline auto octets_of(const std::string& s) { return octets(s.begin(), s.end()); }

template <typename T>
auto one(const T& v) -> std::string
{
  if constexpr (std::same_as<T, std::string>)
    return hex(v);
  else
    return std::to_string(static_cast<long long>(v));
}
template <typename... T>
auto row(const T&... v) -> std::string
{
  std::string r;
  ((r += (r.empty() ? "" : ",") + one(v)), ...);
  return r;
}
inline auto show(const path_of<t0>&) -> std::string { return ""; }
inline auto show(const path_of<t1>& v) { return row(std::get<0>(v)); }
inline auto show(const path_of<t2>& v) { return row(std::get<0>(v), std::get<1>(v)); }
inline auto show(const path_of<s1>& v) { return row(v.a); }
inline auto show(const path_of<s2>& v) { return row(v.a, v.b); }
template <template <typename> class X> auto show_u1(const X<u1>& v) { return row(v.a); }
inline auto show(const query_of<u1>& v) { return row(v.a); }
inline auto show(const query_of<u2>& v) { return row(v.b, v.a); }
inline auto show(const query_of<u3>& v) { return row(v.a, v.b, v.c); }
inline auto show(const form_of<u1>& v) { return row(v.a); }
inline auto show(const form_of<u2>& v) { return row(v.b, v.a); }
inline auto show(const json_of<jt>& v) { return std::to_string(v.a) + "/" + v.b; }
inline auto show(const state_of<sta>& v) { return std::to_string(v.v); }
inline auto show(const my_arg&) -> std::string { return "m"; }
inline auto show(const std::string& v) { return hex(v); }
inline auto show(const std::vector<std::uint8_t>& v) { return hex({ reinterpret_cast<const char*>(v.data()), v.size() }); }
inline auto show(const std::vector<char>& v) { return hex({ v.data(), v.size() }); }
inline auto show(const connect_info&) -> std::string { return "c"; }
inline auto show(const path_info& v)
{
  std::string r;
  for (std::size_t i = 0; i < v.size(); ++i)
    r += (i ? "," : "") + hex(v.at(i));
  return r;
}
inline auto show(const query_map& v)
{
  std::vector<std::string> l;
  for (auto& [k, x] : v)
    l.push_back(hex(k) + "=" + hex(x));
  std::sort(l.begin(), l.end());
  std::string r;
  for (auto& s : l)
    r += (r.empty() ? "" : ";") + s;
  return r;
}
inline auto show(const http::version& v) -> std::string { return v == http::version::v1_1 ? "11" : v == http::version::v1_0 ? "10" : "?"; }
inline auto show(const http::header_map& v) -> std::string { auto h = v.get("x-a"); return h ? std::string(*h) : "?"; }
inline auto show(const request& v) -> std::string { return std::string(v.method() == http::verb::post ? "POST" : "?") + show(v.headers()); }

template <typename... T>
auto all(const T&... v) -> std::string
{
  ++g_runs;
  std::string r = "ran";
  ((r += "|" + show(v)), ...);
  return r;
}

inline auto talk(const std::string& raw) -> std::string
{
  int s = ::socket(AF_UNIX, SOCK_STREAM, 0);
  sockaddr_un a {};
  a.sun_family = AF_UNIX;
  std::strcpy(a.sun_path, "x.sock");
  if (::connect(s, reinterpret_cast<sockaddr*>(&a), sizeof a)) {
    ::close(s);
    return "no connection";
  }
  std::string in;
  char buf[65536];
  ::send(s, raw.data(), raw.size(), MSG_NOSIGNAL);
  for (;;) {
    pollfd p { s, POLLIN, 0 };
    if (::poll(&p, 1, 15000) <= 0) {
      in += "<no answer>";
      break;
    }
    auto n = ::recv(s, buf, sizeof buf, 0);
    if (n <= 0)
      break;
    in.append(buf, n);
  }
  ::close(s);
  return in;
}

inline int converse(net::io_context& ioc, const http_server& server)
{
  char dir[] = "fitxXXXXXX";
  if (!::mkdtemp(dir) || ::chdir(dir))
    return 3;
  if (!server.bind_local("x.sock"))
    return 4;
  auto t = std::thread([&] {
    for (;;)
      try {
        ioc.run();
        break;
      } catch (...) {
      }
  });
  for (std::string line; std::getline(std::cin, line);) {
    int before = g_runs;
    auto out = talk(unhex(line));
    std::cout << g_runs - before << ' ' << hex(out) << std::endl;
  }
  net::post(ioc, [&] { ioc.stop(); });
  t.join();
  return 0;
}
