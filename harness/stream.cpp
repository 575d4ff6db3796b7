// Readable streams: programs over four slots.  One program per line, operations
// separated by ';', one answer per operation.
#include "common.hpp"

#include <fitoria/web.hpp>

#include <sys/stat.h>

using namespace fitoria;
using namespace fitoria::web;

namespace {

auto as_bytes_of(const std::string& s) -> bytes
{
  bytes b(s.size());
  if (!s.empty())
    std::memcpy(b.data(), s.data(), s.size());
  return b;
}
auto raw_of(const bytes& b) -> std::string { return { reinterpret_cast<const char*>(b.data()), b.size() }; }

// what a user's own stream may do
struct plan_stream {
  using is_async_readable_stream = void;
  std::vector<optional<bytes>> items; // nullopt: an error
  std::size_t at = 0;

  auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>
  {
    if (at == items.size())
      co_return nullopt;
    auto& i = items[at++];
    if (!i)
      co_return unexpected { std::make_error_code(std::errc::message_size) };
    co_return *i;
  }
};

struct sink {
  using executor_type = net::any_io_executor;
  net::any_io_executor ex;
  std::string got;
  std::size_t most = SIZE_MAX;
  long fail_at = -1;

  auto get_executor() -> executor_type { return ex; }

  template <typename Buffers, typename Token>
  auto async_write_some(const Buffers& buffers, Token&& token)
  {
    return net::async_initiate<Token, void(boost::system::error_code, std::size_t)>(
        [this](auto handler, auto bufs) {
          boost::system::error_code ec;
          std::size_t n = 0;
          if (fail_at >= 0 && got.size() >= static_cast<std::size_t>(fail_at))
            ec = net::error::broken_pipe;
          else
            for (auto it = net::buffer_sequence_begin(bufs); it != net::buffer_sequence_end(bufs) && n < most; ++it) {
              net::const_buffer b = *it;
              auto k = std::min(b.size(), most - n);
              got.append(static_cast<const char*>(b.data()), k);
              n += k;
            }
          net::post(ex, net::append(std::move(handler), ec, n));
        },
        token, buffers);
  }
};

using slot = std::variant<std::monostate, async_readable_vector_stream, async_readable_file_stream, plan_stream, any_async_readable_stream, any_body>;

template <typename F>
auto with(slot& s, F f) -> awaitable<std::string>
{
  if (auto p = std::get_if<1>(&s))
    co_return co_await f(*p);
  if (auto p = std::get_if<2>(&s))
    co_return co_await f(*p);
  if (auto p = std::get_if<3>(&s))
    co_return co_await f(*p);
  if (auto p = std::get_if<4>(&s))
    co_return co_await f(*p);
  if (auto p = std::get_if<5>(&s))
    co_return co_await f(p->stream());
  co_return "?";
}

auto code(std::error_code ec) -> std::string
{
  return ec == std::errc::message_size ? "e plan" : ec.value() == EIO ? "e io" : ec.value() == ENOSPC ? "e full"
      : ec == make_error_code(net::error::broken_pipe)                                              ? "e pipe"
                                                                                                      : "e " + ec.message();
}

auto program(std::string line) -> awaitable<std::string>
{
  auto ex = co_await net::this_coro::executor;
  std::vector<slot> v(4);
  std::string out;
  fitv::file_control::reset();
  std::istringstream is(line);
  sink sk { ex };
  for (std::string op; std::getline(is, op, ';');) {
    auto t = split_ws(op);
    auto i = std::stoul(t[1]);
    std::string r = "-";
    switch (t[0][0]) {
    case 'D': v[i] = async_readable_vector_stream(); break;
    case 'V': v[i] = async_readable_vector_stream(as_bytes_of(unhex(t[2]))); break;
    case 'S': {
      auto s = unhex(t[2]);
      v[i] = async_readable_vector_stream(std::span<const char>(s.data(), s.size()));
      s.assign(s.size(), '#');
      break;
    }
    case 'P': {
      plan_stream p;
      for (std::size_t k = 2; k < t.size(); ++k)
        if (t[k] == "e")
          p.items.push_back(nullopt);
        else
          p.items.push_back(as_bytes_of(unhex(t[k])));
      v[i] = std::move(p);
      break;
    }
    case 'F': { // slot, content, offset, size
      {
        auto c = unhex(t[2]);
        auto f = std::fopen("src.bin", "wb");
        std::fwrite(c.data(), 1, c.size(), f);
        std::fclose(f);
      }
      auto f = stream_file(ex, "src.bin", net::file_base::read_only);
      ::unlink("src.bin");
      if (t[3] == "-")
        v[i].emplace<async_readable_file_stream>(std::move(f));
      else
        v[i].emplace<async_readable_file_stream>(std::move(f), std::stoull(t[3]), t[4] == "-" ? optional<std::uint64_t>() : optional<std::uint64_t>(std::stoull(t[4])));
      break;
    }
    case 'W': {
      slot s = std::move(v[i]);
      v[i] = std::monostate {};
      std::visit(
          [&](auto& x) {
            using T = std::decay_t<decltype(x)>;
            if constexpr (std::same_as<T, any_async_readable_stream>)
              v[i].emplace<any_body>(any_body(any_body::chunked {}, std::move(x)));
            else if constexpr (std::same_as<T, any_body>) {
              any_body b(std::move(x));
              v[i].emplace<any_body>(std::move(b));
            } else if constexpr (!std::same_as<T, std::monostate>)
              v[i].emplace<any_async_readable_stream>(std::move(x));
          },
          s);
      break;
    }
    case 'M': { // move: construct if the kinds differ, assign otherwise
      auto j = std::stoul(t[2]);
      v[j] = std::move(v[i]);
      v[i] = std::monostate {};
      break;
    }
    case 'C': {
      auto j = std::stoul(t[2]);
      if (auto p = std::get_if<async_readable_vector_stream>(&v[i]))
        v[j] = *p;
      else
        r = "?";
      break;
    }
    case 'R':
      r = co_await with(v[i], [](auto& s) -> awaitable<std::string> {
        auto d = co_await s.async_read_some();
        co_return !d ? "n" : *d ? "c " + hex(raw_of(**d)) : code(d->error());
      });
      break;
    case 'U':
      r = co_await with(v[i], [&](auto& s) -> awaitable<std::string> {
        if (t[2] == "s") {
          auto d = co_await async_read_until_eof<std::string>(s);
          co_return d ? "o " + hex(*d) : code(d.error());
        }
        if (t[2] == "b") {
          auto d = co_await async_read_until_eof<bytes>(s);
          co_return d ? "o " + hex(raw_of(*d)) : code(d.error());
        }
        auto d = co_await async_read_until_eof<std::vector<std::uint8_t>>(s);
        co_return d ? "o " + hex({ reinterpret_cast<const char*>(d->data()), d->size() }) : code(d.error());
      });
      break;
    case 'O':
      sk.got.clear();
      sk.most = std::stoul(t[2]);
      sk.fail_at = std::stol(t[3]);
      r = co_await with(v[i], [&](auto& s) -> awaitable<std::string> {
        auto d = co_await async_write_chunks(sk, s);
        co_return(d ? "o " : code(d.error()) + " ") + hex(sk.got);
      });
      break;
    case 'T': {
      fitv::file_control::max_write = std::stoul(t[2]);
      fitv::file_control::fail_write_in = std::stoi(t[3]);
      auto f = stream_file(ex, "dst.bin", net::file_base::write_only | net::file_base::create | net::file_base::truncate);
      r = co_await with(v[i], [&](auto& s) -> awaitable<std::string> {
        auto d = co_await async_read_into_stream_file(s, f);
        co_return d ? "o " + std::to_string(*d) : code(d.error());
      });
      std::string c;
      if (auto g = std::fopen("dst.bin", "rb")) {
        char b[65536];
        while (auto n = std::fread(b, 1, sizeof b, g))
          c.append(b, n);
        std::fclose(g);
      }
      r += " " + hex(c);
      break;
    }
    case 'X':
      fitv::file_control::max_read = std::stoul(t[2]);
      fitv::file_control::fail_read_in = std::stoi(t[3]);
      fitv::file_control::fail_seek = std::stoi(t[4]);
      break;
    }
    out += r + ";";
  }
  co_return out;
}

}

int main()
{
  char dir[] = "fitsXXXXXX";
  if (!::mkdtemp(dir) || ::chdir(dir))
    return 3;
  std::string line;
  while (std::getline(std::cin, line)) {
    net::io_context ioc;
    std::string out = "STUCK";
    net::co_spawn(ioc, program(line), [&](std::exception_ptr p, std::string r) {
      if (p)
        try {
          std::rethrow_exception(p);
        } catch (const std::exception& e) {
          out = std::string("EXC ") + e.what();
        }
      else
        out = std::move(r);
    });
    ioc.run();
    std::cout << out << std::endl;
  }
  return fitv::file_control::opened == 0 ? 0 : 9;
}
