// middlewares, handlers and states that log what they see, for generated programs
#pragma once
#include "common.hpp"

#include <fitoria/web.hpp>

using namespace fitoria;
using namespace fitoria::web;

inline std::string g_log;

inline void put(char c, int id)
{
  g_log += c;
  g_log += std::to_string(id);
  g_log += ' ';
}

template <int T>
struct st {
  int id;
  int n = 0;
};

// every kind of std::exception in turn
struct own_error : std::exception { };
[[noreturn]] inline void boom_now()
{
  static unsigned n = 0;
  switch (n++ % 6) {
  case 0: throw std::runtime_error("boom");
  case 1: throw std::invalid_argument("boom");
  case 2: throw std::bad_alloc();
  case 3: throw std::system_error(std::make_error_code(std::errc::io_error));
  case 4: throw own_error();
  default: throw std::out_of_range("boom");
  }
}

template <typename Request, typename Response, typename Next>
struct layer_mw {
  int id;
  char kind;
  Next next;

  auto operator()(Request req) const -> Response
  {
    put('+', id);
    if (kind == 's') {
      put('!', id);
      co_return response::accepted().insert_header("x-t", std::to_string(id)).build();
    }
    auto res = co_await next(req);
    if (kind == 't')
      res = co_await next(req);
    if (kind == 'l')
      boom_now();
    put('-', id);
    co_return res.builder().insert_header("x-t", std::to_string(id)).build();
  }
};

struct layer {
  int id;
  char kind;

  template <typename Request, typename Response, decay_to<layer> Self, typename Next>
  friend auto tag_invoke(to_middleware_t<Request, Response>, Self&& self, Next&& next)
  {
    return layer_mw<Request, Response, std::decay_t<Next>> { self.id, self.kind, std::forward<Next>(next) };
  }
};

template <int T>
void see(const request& req)
{
  if (auto s = req.state<st<T>>(); s) {
    s->n++;
    g_log += ":" + std::to_string(s->id) + "." + std::to_string(s->n);
  } else
    g_log += ":0.0";
}

struct page {
  int id;
  bool boom;

  auto operator()(request& req) const -> awaitable<response>
  {
    g_log += "h" + std::to_string(id);
    // count each object that is seen, then tell the counts: a state seen as
    // several types does not occur, so one pass is enough
    see<1>(req);
    see<2>(req);
    see<3>(req);
    g_log += ' ';
    if (boom)
      boom_now();
    co_return response::ok().set_header(http::field::content_type, mime::text_plain()).set_body("h");
  }
};

inline void ask(net::io_context& ioc, const http_server& server, std::string path)
{
  g_log.clear();
  bool answered = false;
  server.serve_request(path, test_request::get().build(), [&](test_response res) -> awaitable<void> {
    answered = true;
    std::string tr;
    for (auto it = res.headers().equal_range("x-t"); it.first != it.second; ++it.first)
      tr += std::string(it.first->value()) + ",";
    std::printf("%d [%s] %s|", static_cast<int>(res.status().value()), tr.c_str(), g_log.c_str());
    co_return;
  });
  ioc.run();
  ioc.restart();
  if (!answered)
    std::printf("none [] %s|", g_log.c_str());
}
