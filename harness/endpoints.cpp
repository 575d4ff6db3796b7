// Several servers in one process, bound on command.  One answer per line.
//   reset                                a new world
//   new S form=l|r k=v ...               builds server S, answers its settings
//   bind S kind hosthex port             kind: tcp tls; answers "ok self", "err", "threw"
//   bindl S kind pathhex
//   pause / go                           stops and starts the event loop
//   ping S                               asks nothing of the network: getters again
#include "common.hpp"
#include <fitoria/web.hpp>
#include <future>
#include <map>
#include <memory>
#include <thread>
using namespace fitoria;
using namespace fitoria::web;
using ms = std::chrono::milliseconds;

namespace {
std::string cert, key;

struct world {
  net::io_context ioc;
  net::ssl::context ctx { net::ssl::context::tls_server };
  std::map<std::string, std::unique_ptr<http_server>> servers;
  std::thread t;
  bool running = false;
  std::atomic<int> leaks { 0 };
  std::atomic<int> exceptions { 0 };
  world()
  {
    ctx.use_certificate_chain_file(cert);
    ctx.use_private_key_file(key, net::ssl::context::pem);
    go();
  }
  void go()
  {
    if (running) return;
    running = true;
    ioc.restart();
    t = std::thread([this] {
      auto work = net::make_work_guard(ioc);
      for (;;) {
        try {
          ioc.run();
          break;
        } catch (...) {
          ++leaks;
        }
      }
    });
  }
  void pause()
  {
    if (!running) return;
    ioc.stop();
    t.join();
    running = false;
  }
  ~world() { pause(); }
};

std::string opt_ms(const optional<std::chrono::steady_clock::duration>& d)
{
  return d ? std::to_string(std::chrono::duration_cast<ms>(*d).count()) : "none";
}
template <class T>
std::string opt_n(const optional<T>& d)
{
  return d ? std::to_string(*d) : "none";
}
std::string settings(const http_server& s)
{
  return std::to_string(s.max_listen_connections()) + " " + opt_ms(s.tls_handshake_timeout()) + " " + opt_ms(s.request_timeout()) + " "
      + opt_n(s.request_header_limit()) + " " + opt_n(s.request_body_limit());
}

template <class B>
decltype(auto) with_routes(B&& b, const std::string& name)
{
  return std::forward<B>(b)
      .serve(route::get<"/who">([name](const connect_info& c) -> awaitable<std::string> { co_return name + "|" + c.local() + "|" + c.remote(); }))
      .serve(route::get<"/slow">([name]() -> awaitable<std::string> {
        auto t = net::steady_timer(co_await net::this_coro::executor);
        t.expires_after(ms(30));
        co_await t.async_wait(use_awaitable);
        co_return name;
      }))
      .serve(scope<"/s">().serve(route::post<"/{p}">([name](const path_info& p, std::string body) -> awaitable<std::string> { co_return name + "|" + std::string(*p.get("p")) + "|" + body; })));
}

auto make(world& w, const std::string& name, bool rvalue, std::vector<std::pair<std::string, std::string>> opts) -> std::unique_ptr<http_server>
{
  auto dur = [](const std::string& v) -> optional<std::chrono::steady_clock::duration> {
    if (v == "none") return nullopt;
    return ms(std::stoll(v));
  };
  auto b = http_server::builder(w.ioc);
  for (auto& [k, v] : opts) {
    if (k == "max") {
      if (rvalue) { auto b2 = std::move(b).set_max_listen_connections(std::stoi(v)); b = std::move(b2); }
      else b.set_max_listen_connections(std::stoi(v));
    } else if (k == "hs") {
      if (rvalue) { auto b2 = std::move(b).set_tls_handshake_timeout(dur(v)); b = std::move(b2); }
      else b.set_tls_handshake_timeout(dur(v));
    } else if (k == "req") {
      if (rvalue) { auto b2 = std::move(b).set_request_timeout(dur(v)); b = std::move(b2); }
      else b.set_request_timeout(dur(v));
    } else if (k == "hdr") {
      auto x = v == "none" ? optional<std::uint32_t>() : optional<std::uint32_t>(std::stoul(v));
      if (rvalue) { auto b2 = std::move(b).set_request_header_limit(x); b = std::move(b2); }
      else b.set_request_header_limit(x);
    } else if (k == "body") {
      auto x = v == "none" ? optional<std::uint64_t>() : optional<std::uint64_t>(std::stoull(v));
      if (rvalue) { auto b2 = std::move(b).set_request_body_limit(x); b = std::move(b2); }
      else b.set_request_body_limit(x);
    }
  }
  if (rvalue) {
    auto b2 = with_routes(std::move(b), name).set_exception_handler([&w](std::exception_ptr p) { if (p) ++w.exceptions; });
    return std::unique_ptr<http_server>(new http_server(b2.build()));
  }
  with_routes(b, name);
  b.set_exception_handler([&w](std::exception_ptr p) { if (p) ++w.exceptions; });
  return std::unique_ptr<http_server>(new http_server(b.build()));
}
}

int main(int, char** argv)
{
  cert = std::string(argv[1]) + "/cert.pem";
  key = std::string(argv[1]) + "/key.pem";
  auto w = std::make_unique<world>();
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string cmd;
    in >> cmd;
    std::string out = "ok";
    if (cmd == "quit") break;
    if (cmd == "reset") {
      if (w->leaks) out = "LEAKED";
      w.reset();
      w = std::make_unique<world>();
    } else if (cmd == "pause") {
      w->pause();
    } else if (cmd == "go") {
      w->go();
    } else if (cmd == "ping") {
      std::string s;
      in >> s;
      out = settings(*w->servers.at(s)) + (w->leaks ? " LEAKED" : "");
    } else if (cmd == "new") {
      std::string s, o;
      in >> s;
      bool rv = false;
      std::vector<std::pair<std::string, std::string>> opts;
      while (in >> o) {
        auto e = o.find('=');
        if (o.substr(0, e) == "form") rv = o.substr(e + 1) == "r";
        else opts.emplace_back(o.substr(0, e), o.substr(e + 1));
      }
      w->servers[s] = make(*w, s, rv, opts);
      out = settings(*w->servers[s]);
    } else if (cmd == "bind" || cmd == "bindl") {
      std::string s, kind, a;
      int port = 0;
      in >> s >> kind >> a;
      if (cmd == "bind") in >> port;
      auto& srv = *w->servers.at(s);
      auto f = [&]() -> std::string {
        try {
          auto addr = unhex(a);
          exact text(addr);
          auto r = cmd == "bind" ? (kind == "tls" ? srv.bind(text.sv(), port, w->ctx) : srv.bind(text.sv(), port))
                                 : (kind == "tls" ? srv.bind_local(text.sv(), w->ctx) : srv.bind_local(text.sv()));
          if (r) return &*r == &srv ? "ok self" : "ok other";
          return r.error() ? "err" : "err-without-error";
        } catch (const std::exception& e) {
          return std::string("threw ") + e.what();
        }
      };
      if (w->running) {
        std::promise<std::string> p;
        net::post(w->ioc, [&] { p.set_value(f()); });
        out = p.get_future().get();
      } else {
        out = f();
      }
    }
    std::cout << out << std::endl;
  }
}
