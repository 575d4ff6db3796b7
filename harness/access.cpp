// A server whose routes have stacks of the logger and other middlewares.
//   access off|-|<level> ADDR...     ADDR: unix path or tcp:PORT;  the level
//                                    below which nothing is logged; off: no
//                                    logger at all
//   A <level> <hex message>          a record
//   R <id> <hex body>                the handler ran
#include "common.hpp"
#include <fitoria/web.hpp>
#include <mutex>
#include <thread>
using namespace fitoria;
using namespace fitoria::web;

namespace {
void logline(const std::string& s)
{
  auto out = s + "\n";
  std::fwrite(out.data(), 1, out.size(), stdout);
  std::fflush(stdout);
}

struct collect : fitoria::log::async_writer {
  auto async_write(fitoria::log::record_ptr rec) -> fitoria::log::awaitable<void> override
  {
    logline("A " + std::to_string(static_cast<int>(rec->lv)) + " " + hex(rec->msg));
    co_return;
  }
};

struct odd {};

auto get(const request& req, std::string_view name) -> std::string
{
  return std::string(req.headers().get(name).value_or(std::string_view()));
}

// lets a request through, answers it, or throws, and marks the answer
template <typename Request, typename Response, typename Next>
struct gate_mw {
  Next next;
  auto operator()(Request req) const -> Response
  {
    auto g = get(req, "x-gate");
    if (g == "deny")
      co_return response::forbidden().set_body("denied");
    if (g == "before")
      throw std::runtime_error("before");
    auto res = co_await next(req);
    if (g == "after")
      throw std::runtime_error("after");
    if (g == "change")
      co_return res.builder().set_status(http::status_code(202)).set_header("x-changed", "1").set_body("changed");
    co_return res;
  }
};
struct gate {
  template <typename Request, typename Response, decay_to<gate> Self, typename Next>
  friend auto tag_invoke(to_middleware_t<Request, Response>, Self&&, Next&& next)
  {
    return gate_mw<Request, Response, std::decay_t<Next>> { std::forward<Next>(next) };
  }
};

auto handle(request& req) -> awaitable<response>
{
  auto id = get(req, "x-id");
  auto body = co_await async_read_until_eof<std::string>(req.body());
  logline("R " + id + " " + (body ? hex(*body) : std::string("err")));
  auto a = get(req, "x-act");
  if (a == "throw")
    throw std::runtime_error("boom");
  if (a == "odd")
    throw odd {};
  if (a == "slow") {
    auto t = net::steady_timer(co_await net::this_coro::executor);
    t.expires_after(std::chrono::milliseconds(25));
    co_await t.async_wait(use_awaitable);
    a = "200";
  }
  auto b = response::ok();
  b.set_status(http::status_code(std::stoi(a))).set_header("x-id", id);
  if (get(req, "x-null") == "1")
    co_return b.build();
  if (get(req, "x-null") == "2")
    co_return b.set_stream_body(async_readable_vector_stream(bytes(300, std::byte { 'q' })));
  co_return b.set_body("body-" + id);
}

template <basic_fixed_string P, typename... Ls>
void add(http_server::builder& b, Ls... ls)
{
  auto f = [&](auto& self, auto s, auto l, auto... rest) {
    auto n = s.use(l);
    if constexpr (sizeof...(rest) == 0)
      b.serve(n.serve(route::any<"/#rest">(handle)));
    else
      self(self, n, rest...);
  };
  if constexpr (sizeof...(Ls) == 0)
    b.serve(scope<P>().serve(route::any<"/#rest">(handle)));
  else
    f(f, scope<P>(), ls...);
}
}

int main(int argc, char** argv)
{
  std::string level = argv[1];
  if (level != "off") {
    auto lg = fitoria::log::async_logger::builder()
                  .set_filter(level == "-" ? fitoria::log::filter::at_least(fitoria::log::level::info) : fitoria::log::filter::at_least(static_cast<fitoria::log::level>(std::stoi(level))))
                  .build();
    lg->add_writer(std::make_shared<collect>());
    fitoria::log::registry::global().set_default_logger(lg);
  }
  net::io_context ioc;
  auto b = http_server::builder(ioc);
  b.set_exception_handler([](std::exception_ptr) {});
  middleware::logger l;
  middleware::exception_handler e;
  gate g;
  add<"/n">(b);
  add<"/l">(b, l);
  add<"/e">(b, e);
  add<"/g">(b, g);
  add<"/ll">(b, l, l);
  add<"/le">(b, l, e);
  add<"/el">(b, e, l);
  add<"/lg">(b, l, g);
  add<"/gl">(b, g, l);
  add<"/elg">(b, e, l, g);
  add<"/gel">(b, g, e, l);
  add<"/lgel">(b, l, g, e, l);
  add<"/lelg">(b, l, e, l, g);
  // on the route itself, and scopes inside scopes
  b.serve(route::any<"/route/#rest">(handle).use(l));
  b.serve(scope<"/nest">().use(l).serve(scope<"/in">().use(g).serve(route::any<"/#rest">(handle).use(l))));
  auto server = b.build();
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto ok = a.rfind("tcp:", 0) == 0 ? bool(server.bind("127.0.0.1", std::stoi(a.substr(4)))) : bool(server.bind_local(a));
    if (!ok) {
      logline("bind failed");
      return 3;
    }
  }
  std::thread quit([&] {
    std::string line;
    while (std::getline(std::cin, line))
      if (line == "quit")
        break;
    net::post(ioc, [&] { ioc.stop(); });
  });
  logline("ready");
  for (;;) {
    try {
      ioc.run();
      break;
    } catch (...) {
      logline("X LEAKED");
    }
  }
  quit.join();
  fitoria::log::registry::global().set_default_logger(nullptr); // waits for what is queued
  logline("bye");
}
