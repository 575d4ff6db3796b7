// A fitoria server whose handlers do what the request's x-do header says, and
// log what they saw.  One process serves several unix sockets, one per
// configuration given on the command line:
//   server PATH[,header=N][,body=N][,timeout=MS] ...     (0: no limit)
// Log lines (stdout):
//   R <id> <route> <method> <version> <pattern-path> <match-path> <headers> <query>   handler ran
//   B <id> <all|one> <ok|end|err> <hex>                           a body read
//   X <what>                                                      exception handler called
// With FIT_POOL it runs on a pool of FIT_THREADS threads.
#include "common.hpp"

#include <fitoria/web.hpp>

#include <boost/asio/signal_set.hpp>
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>

using namespace fitoria;
using namespace fitoria::web;

namespace {

void logline(const std::string& s)
{
  auto out = s + "\n";
  std::fwrite(out.data(), 1, out.size(), stdout);
  std::fflush(stdout);
}

auto text(std::string_view s) -> std::string
{
  return std::string(s);
}

// position dependent bytes, so that a shifted or repeated chunk shows
auto pattern(std::size_t from, std::size_t n) -> bytes
{
  bytes b(n);
  for (std::size_t i = 0; i < n; ++i) {
    auto k = from + i;
    b[i] = static_cast<std::byte>('a' + (k * 7 + k / 26 + k / 997) % 26);
  }
  return b;
}

struct chunk_stream {
  using is_async_readable_stream = void;
  // >= 0: a chunk of that size; -1: an error; -2: throws
  std::vector<long> plan;
  std::size_t next = 0;
  std::size_t at = 0;
  std::string id;

  auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>
  {
    if (next == plan.size())
      co_return nullopt;
    auto n = plan[next++];
    if (n == -1)
      co_return unexpected { std::make_error_code(std::errc::io_error) };
    if (n == -2)
      throw std::runtime_error("boom-" + id);
    auto b = pattern(at, n);
    at += n;
    co_return b;
  }
};

struct odd {
  std::string what;
};

auto split(const std::string& s, char c) -> std::vector<std::string>
{
  std::vector<std::string> r;
  std::string cur;
  for (char x : s) {
    if (x == c) {
      r.push_back(cur);
      cur.clear();
    } else {
      cur += x;
    }
  }
  r.push_back(cur);
  return r;
}

auto ver(http::version v) -> std::string
{
  return http::to_string(v) == std::string_view() ? "?" : text(http::to_string(v));
}

void log_request(const char* route, const std::string& id, const request& req)
{
  std::string h, q;
  for (auto& f : req.headers())
    h += (h.empty() ? "" : ",") + hex(text(f.name_string())) + "=" + hex(text(f.value()));
  std::vector<std::string> qs;
  for (auto& [k, v] : req.query())
    qs.push_back(hex(k) + "=" + hex(v));
  std::sort(qs.begin(), qs.end());
  for (auto& x : qs)
    q += (q.empty() ? "" : ",") + x;
  logline("R " + id + " " + route + " " + text(std::string_view(boost::beast::http::to_string(req.method()).data(), boost::beast::http::to_string(req.method()).size())) + " " + ver(req.version()) + " "
          + hex(text(req.path().match_pattern())) + " " + hex(text(req.path().match_path())) + " " + (h.empty() ? "-" : h)
          + " " + (q.empty() ? "-" : q));
}

auto answer(const std::string& id, const std::string& spec, const std::string& hdrs) -> response
{
  // status kind[:a,b,c]
  auto parts = split(spec, ' ');
  auto builder = response::ok();
  builder.set_status(http::status_code(std::stoi(parts[0])));
  builder.set_header("x-id", id);
  if (!hdrs.empty()) {
    for (auto& h : split(hdrs, ',')) {
      auto kv = split(h, '=');
      builder.insert_header(kv[0], kv.size() > 1 ? kv[1] : "");
    }
  }
  auto kind = parts[1];
  std::vector<long> plan;
  if (parts.size() > 2 && !parts[2].empty()) {
    for (auto& p : split(parts[2], ','))
      plan.push_back(p == "E" ? -1 : p == "T" ? -2 : std::stol(p));
  }
  if (kind == "v10") {
    builder.set_version(http::version::v1_0);
    kind = "null";
  }
  if (kind == "null")
    return builder.set_body();
  if (kind == "build")
    return builder.build();
  if (kind == "sized")
    return builder.set_body(std::span<const std::byte>(pattern(0, plan.empty() ? 0 : plan[0])));
  if (kind == "text") {
    auto b = pattern(0, plan.empty() ? 0 : plan[0]);
    return builder.set_body(std::string_view(reinterpret_cast<const char*>(b.data()), b.size()));
  }
  if (kind == "stream")
    return builder.set_body(chunk_stream { plan, 0, 0, id });
  if (kind == "chunked")
    return builder.set_stream_body(chunk_stream { plan, 0, 0, id });
  std::abort();
}

auto get(const request& req, std::string_view name) -> std::string
{
  return text(req.headers().get(name).value_or(std::string_view()));
}

// handlers that keep their thread until "release ID" is read, or the end
struct {
  std::mutex m;
  std::condition_variable cv;
  std::set<std::string> free;
  bool over = false;
  void wait(const std::string& id)
  {
    std::unique_lock lock(m);
    cv.wait(lock, [&] { return over || free.contains(id); });
  }
  void release(const std::string& id)
  {
    std::lock_guard lock(m);
    (id.empty() ? over = true : free.insert(id).second);
    cv.notify_all();
  }
} holds;

// steps, comma separated: all one many (read) throw ithrow sleep hold
auto steps(const char* route, request& req) -> awaitable<void>
{
  auto id = get(req, "x-id");
  log_request(route, id, req);
  for (auto& s : split(get(req, "x-do"), ',')) {
    if (s == "all") {
      auto r = co_await async_read_until_eof<std::string>(req.body());
      logline("B " + id + " all " + (r ? "ok " + hex(*r) : text("err -")));
    } else if (s == "one") {
      auto r = co_await req.body().async_read_some();
      if (!r)
        logline("B " + id + " one end -");
      else if (*r)
        logline("B " + id + " one ok " + hex(std::string_view(reinterpret_cast<const char*>((*r)->data()), (*r)->size())));
      else
        logline("B " + id + " one err -");
    } else if (s == "throw") {
      throw std::runtime_error("boom-" + id);
    } else if (s == "othrow") {
      throw odd { "boom-" + id };
    } else if (s == "hold") {
      holds.wait(id);
    } else if (s == "sleep") {
      auto t = net::steady_timer(co_await net::this_coro::executor);
      t.expires_after(std::chrono::milliseconds(30));
      co_await t.async_wait(use_awaitable);
    }
  }
}

auto drive(const char* route, request& req) -> awaitable<response>
{
  co_await steps(route, req);
  co_return answer(get(req, "x-id"), get(req, "x-resp"), get(req, "x-hdr"));
}

// answers with everything it saw of the request
auto see(request& req) -> awaitable<response>
{
  std::string h, q;
  for (auto& f : req.headers())
    h += (h.empty() ? "" : ",") + hex(text(f.name_string())) + "=" + hex(text(f.value()));
  std::vector<std::string> qs;
  for (auto& [k, v] : req.query())
    qs.push_back(hex(k) + "=" + hex(v));
  std::sort(qs.begin(), qs.end());
  for (auto& x : qs)
    q += (q.empty() ? "" : ",") + x;
  auto method = boost::beast::http::to_string(req.method());
  auto rest = req.path().get("rest");
  std::string out = std::string(method.data(), method.size()) + " " + ver(req.version()) + " " + text(req.path().match_pattern()) + " "
      + hex(text(req.path().match_path())) + " " + (rest ? hex(text(*rest)) : text("?")) + " " + (h.empty() ? "." : h) + " " + (q.empty() ? "." : q);
  auto body = co_await async_read_until_eof<std::string>(req.body());
  out += body ? " ok " + hex(*body) : text(" err");
  co_return response::ok().set_body(out);
}

struct my_error {
  std::string id;
  friend auto tag_invoke(to_response_t, my_error e) -> response
  {
    return response(response::conflict().set_header("x-id", e.id).set_body("my-error"));
  }
};

// a middleware that answers itself, or throws, or lets the request through
template <typename Request, typename Response, typename Next>
struct gate_mw {
  Next next;
  auto operator()(Request req) const -> Response
  {
    auto g = get(req, "x-gate");
    auto id = get(req, "x-id");
    if (g == "deny") {
      logline("G " + id + " deny");
      co_return answer(id, "403 text 6", "");
    }
    if (g == "throw-before")
      throw std::runtime_error("boom-" + id);
    auto res = co_await next(req);
    if (g == "throw-after")
      throw std::runtime_error("boom-" + id);
    co_return res;
  }
};

struct gate {
  template <typename Request, typename Response, decay_to<gate> Self, typename Next>
  friend auto tag_invoke(to_middleware_t<Request, Response>, Self&&, Next&& next)
  {
    return gate_mw<Request, Response, std::decay_t<Next>> { std::forward<Next>(next) };
  }
};

auto ws_session(std::string id, websocket::context& ctx) -> awaitable<void>
{
  logline("W " + id + " open");
  for (;;) {
    auto m = co_await ctx.async_read();
    if (!m) {
      logline("W " + id + " err");
      co_return;
    }
    if (std::holds_alternative<websocket::close_t>(*m)) {
      logline("W " + id + " close");
      co_return;
    }
    bool is_text = std::holds_alternative<websocket::text_t>(*m);
    std::string body;
    if (is_text) {
      body = std::get<websocket::text_t>(*m).value;
    } else {
      auto& b = std::get<websocket::binary_t>(*m).value;
      body.assign(reinterpret_cast<const char*>(b.data()), b.size());
    }
    logline("W " + id + (is_text ? " text " : " bin ") + hex(body));
    // first byte: what to do; the rest is the payload
    char op = body.empty() ? 'n' : body[0];
    auto rest = body.empty() ? text("") : body.substr(1);
    auto put = [&](bool t, std::string_view s) -> awaitable<bool> {
      if (t)
        co_return bool(co_await ctx.async_write_text(s));
      co_return bool(co_await ctx.async_write_binary(std::span { s.data(), s.size() }));
    };
    bool ok = true;
    if (op == 'e') // echo, same kind
      ok = co_await put(is_text, rest);
    else if (op == 's') // echo, other kind
      ok = co_await put(!is_text, rest);
    else if (op == '2') { // twice, text then binary
      ok = co_await put(true, rest);
      ok = ok && co_await put(false, rest);
    } else if (op == 'p') {
      ok = bool(co_await ctx.async_ping());
      ok = ok && co_await put(is_text, rest);
    } else if (op == 'c') {
      static const websocket::close_code codes[] = { websocket::close_code::normal, websocket::close_code::going_away,
                                                     websocket::close_code::policy_error, websocket::close_code::internal_error };
      (void)co_await ctx.async_close(codes[rest.empty() ? 0 : (rest[0] - '0') % 4]);
      logline("W " + id + " closed");
      co_return;
    } else if (op == 'q') { // the handler just ends
      logline("W " + id + " quit");
      co_return;
    } else if (op == 't') {
      logline("W " + id + " throw");
      throw std::runtime_error("boom-" + id);
    }
    if (!ok) {
      logline("W " + id + " werr");
      co_return;
    }
  }
}

}

int main(int argc, char** argv)
{
#if defined(FITORIA_HAS_OPENSSL)
  std::unique_ptr<net::ssl::context> ctx;
#endif
#if defined(FIT_POOL)
  net::static_thread_pool ioc(std::getenv("FIT_THREADS") ? std::stoul(std::getenv("FIT_THREADS")) : 4);
#else
  net::io_context ioc;
#endif
  std::vector<std::unique_ptr<http_server>> servers;
  for (int i = 1; i < argc; ++i) {
    auto opts = split(argv[i], ',');
    auto b = http_server::builder(ioc);
    b.set_request_timeout(std::chrono::seconds(60));
    bool quiet = false, tls = false;
    for (std::size_t k = 1; k < opts.size(); ++k) {
      auto kv = split(opts[k], '=');
      auto n = std::stoull(kv[1]);
      if (kv[0] == "quiet")
        quiet = n != 0;
      if (kv[0] == "header")
        b.set_request_header_limit(n ? optional<std::uint32_t>(n) : nullopt);
      else if (kv[0] == "body")
        b.set_request_body_limit(n ? optional<std::uint64_t>(n) : nullopt);
      else if (kv[0] == "tls")
        tls = n != 0;
      else if (kv[0] == "hs")
        b.set_tls_handshake_timeout(n ? optional<std::chrono::steady_clock::duration>(std::chrono::milliseconds(n)) : nullopt);
      else if (kv[0] == "timeout") {
        if (n)
          b.set_request_timeout(std::chrono::milliseconds(n));
        else
          b.set_request_timeout(nullopt);
      }
    }
    if (!quiet) b.set_exception_handler([](std::exception_ptr p) {
      if (!p)
        return;
      try {
        std::rethrow_exception(p);
      } catch (const std::exception& e) {
        logline(std::string("X ") + e.what());
      } catch (const odd& e) {
        logline("X " + e.what);
      }
    });
    b.serve(route::any<"/see/#rest">([](request& r) -> awaitable<response> { return see(r); }));
    b.serve(route::any<"/do">([](request& r) -> awaitable<response> { return drive("do", r); }))
        .serve(route::any<"/do/{p}">([](request& r) -> awaitable<response> { return drive("dop", r); }))
        .serve(route::get<"/get">([](request& r) -> awaitable<response> { return drive("get", r); }))
        .serve(route::any<"/str">([](request& req, std::string body) -> awaitable<response> {
          auto id = get(req, "x-id");
          log_request("str", id, req);
          logline("B " + id + " all ok " + hex(body));
          co_return answer(id, get(req, "x-resp"), get(req, "x-hdr"));
        }))
        .serve(route::any<"/exp">([](request& req) -> awaitable<expected<std::string, my_error>> {
          co_await steps("exp", req);
          if (get(req, "x-gate") == "error")
            co_return unexpected { my_error { get(req, "x-id") } };
          co_return text("fine");
        }))
        .serve(route::any<"/ws">([](request& req, websocket ws) -> awaitable<response> {
          auto id = get(req, "x-id");
          log_request("ws", id, req);
          auto mode = get(req, "x-do");
          if (mode == "refuse-null")
            co_return response::forbidden().set_header("x-id", id).build();
          if (mode == "refuse-text")
            co_return response::forbidden().set_header("x-id", id).set_body("no session");
          if (mode == "refuse-throw")
            throw std::runtime_error("boom-" + id);
          auto res = ws.set_handler([id](websocket::context& ctx) -> awaitable<void> { return ws_session(id, ctx); });
          if (mode == "header")
            co_return res.builder().set_header("x-extra", id).build();
          co_return res;
        }))
        .serve(scope<"/safe">()
                   .use(middleware::exception_handler())
                   .serve(route::any<"/do">([](request& r) -> awaitable<response> { return drive("safe", r); })))
        .serve(scope<"/gate">().use(gate()).serve(route::any<"/do">([](request& r) -> awaitable<response> { return drive("gate", r); })))
        .serve(scope<"/both">()
                   .use(middleware::exception_handler())
                   .use(gate())
                   .serve(route::any<"/do">([](request& r) -> awaitable<response> { return drive("both", r); })));
    servers.push_back(std::unique_ptr<http_server>(new http_server(b.build())));
    if (tls) {
#if defined(FITORIA_HAS_OPENSSL)
      if (!ctx) {
        auto dir = std::string(std::getenv("FIT_TLS"));
        ctx = std::make_unique<net::ssl::context>(net::ssl::context::tls_server);
        ctx->use_certificate_chain_file(dir + "/cert.pem");
        ctx->use_private_key_file(dir + "/key.pem", net::ssl::context::pem);
      }
      if (!servers.back()->bind_local(opts[0], *ctx)) {
        logline("bind failed");
        return 3;
      }
#endif
    } else if (opts[0].rfind("tcp:", 0) == 0) {
      if (!servers.back()->bind("127.0.0.1", std::stoi(opts[0].substr(4)))) {
        logline("bind failed");
        return 3;
      }
    } else if (!servers.back()->bind_local(opts[0])) {
      logline("bind failed");
      return 3;
    }
  }
  // "quit" (or end of input) stops the process
  std::thread quit([&] {
    std::string line;
    while (std::getline(std::cin, line))
      if (line == "quit")
        break;
      else if (line.rfind("release ", 0) == 0)
        holds.release(line.substr(8));
    holds.release("");
    net::post(ioc, [&] { ioc.stop(); });
  });
  logline("ready");
  for (;;) {
    try {
#if defined(FIT_POOL)
      ioc.join();
#else
      ioc.run();
#endif
      break;
    } catch (const std::exception& e) {
      logline(std::string("LEAKED ") + e.what());
    }
  }
  quit.join();
  logline("bye");
}
