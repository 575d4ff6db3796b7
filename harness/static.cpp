// static_file: opens files of given size, stamp and content with a request's
// fields, and prints the whole answer.
#include "common.hpp"

#include "sandboxed.hpp"
#include <fitoria/web/response.hpp>
#include <fitoria/web/static_file.hpp>

#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <unistd.h>

using namespace fitoria;
using namespace fitoria::web;

namespace {

constexpr std::uint64_t edge = 65536;
constexpr std::size_t limit = 200000; // most body bytes read

// the content: a pattern in the first and last 64K, zeros between
auto at(std::uint64_t i, std::uint64_t size) -> char
{
  if (i >= edge && i + edge < size)
    return 0;
  return static_cast<char>((i * 131 + i / 256 * 17 + i / 65536 * 7) & 255);
}

void make(const std::string& path, std::uint64_t size, long long sec, long nano)
{
  int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
  if (fd < 0 || ::ftruncate(fd, static_cast<off_t>(size)))
    std::abort();
  auto put = [&](std::uint64_t from, std::uint64_t to) {
    std::string s;
    for (auto i = from; i < to; ++i)
      s += at(i, size);
    if (::pwrite(fd, s.data(), s.size(), static_cast<off_t>(from)) != static_cast<ssize_t>(s.size()))
      std::abort();
  };
  put(0, std::min(size, edge));
  if (size > edge)
    put(std::max(edge, size - std::min(edge, size)), size);
  timespec ts[2] = { { sec, nano }, { sec, nano } };
  ::futimens(fd, ts);
  ::close(fd);
}

auto crc(std::uint32_t c, std::string_view s) -> std::uint32_t
{
  c = ~c;
  for (unsigned char ch : s) {
    c ^= ch;
    for (int k = 0; k < 8; ++k)
      c = (c >> 1) ^ (0xedb88320u & (0u - (c & 1)));
  }
  return ~c;
}

auto ask(std::string path, bool aware, const std::string* inm, const std::string* rng, std::string* tag) -> awaitable<std::string>
{
  auto ex = co_await net::this_coro::executor;
  fitv::file_control::highest = 0;
  http::header_map hs;
  if (inm)
    hs.set(http::field::if_none_match, *inm);
  if (rng)
    hs.set(http::field::range, *rng);
  auto req = sandboxed::make("/", http::verb::get, std::move(hs), async_readable_vector_stream());
  auto f = aware ? static_file::open(ex, path, req) : static_file::open(ex, path);
  if (!f)
    co_return "cannot open";
  auto res = to_response(std::move(*f));
  std::string out = std::to_string(int(res.status().value())) + " ";
  for (auto n : { http::field::etag, http::field::last_modified, http::field::content_type, http::field::content_disposition,
                  http::field::accept_ranges, http::field::content_range }) {
    auto h = res.headers().get(n);
    out += (h ? "=" + hex(*h) : std::string("?")) + ",";
    if (n == http::field::etag && h && tag) {
      *tag = *h;
      if (tag->starts_with("W/"))
        tag->erase(0, 2);
      *tag = tag->size() < 2 ? "?" : tag->substr(1, tag->size() - 2);
    }
  }
  auto& body = res.body();
  const char* kind = std::visit(
      [](auto& x) {
        using T = std::decay_t<decltype(x)>;
        return std::same_as<T, any_body::null> ? "null" : std::same_as<T, any_body::sized> ? "sized"
                                                                                             : "chunked";
      },
      body.size());
  std::size_t n = 0;
  std::uint32_t c = 0;
  const char* end = "more";
  while (n < limit) {
    auto d = co_await body.stream().async_read_some();
    if (!d) {
      end = "end";
      break;
    }
    if (!*d) {
      end = "error";
      break;
    }
    auto p = std::string_view(reinterpret_cast<const char*>((**d).data()), (**d).size());
    p = p.substr(0, limit - n);
    c = crc(c, p);
    n += p.size();
  }
  co_return out + " " + kind + " " + std::to_string(n) + " " + std::to_string(c) + " " + end + " " + std::to_string(fitv::file_control::highest.load());
}

auto swap_in(std::string s, const std::map<char, std::string>& tags) -> std::string
{
  std::string r;
  for (char c : s) {
    auto it = tags.find(c);
    if (it == tags.end())
      r += c;
    else
      r += it->second;
  }
  return r;
}

auto run(std::vector<std::string> t) -> awaitable<std::string>
{
  fitv::file_control::reset();
  std::replace(t[1].begin(), t[1].end(), '\1', ' ');
  if (t[0] == "G") { // name size sec nano aware inm|. rng|. max_read
    make(t[1], std::stoull(t[2]), std::stoll(t[3]), std::stol(t[4]));
    std::string tag, inm, rng;
    if (t[6] != ".") {
      std::string other;
      co_await ask(t[1], true, nullptr, nullptr, &tag);
      make(t[1], std::stoull(t[2]), std::stoll(t[3]) + 1, 0);
      co_await ask(t[1], true, nullptr, nullptr, &other);
      make(t[1], std::stoull(t[2]), std::stoll(t[3]), std::stol(t[4]));
      inm = swap_in(unhex(t[6]), { { 'T', tag }, { 'S', other } });
    }
    rng = t[7] == "." ? "" : unhex(t[7]);
    fitv::file_control::max_read = std::stoull(t[8]);
    auto r = co_await ask(t[1], t[5] == "1", t[6] == "." ? nullptr : &inm, t[7] == "." ? nullptr : &rng, nullptr);
    ::unlink(t[1].c_str());
    co_return r;
  }
  // H name; then: w version size sec | a version inm|. rng|.
  std::string out;
  std::map<char, std::string> tags;
  for (std::size_t i = 2; i < t.size(); i += 4)
    if (t[i] == "w")
      make(t[1], std::stoull(t[i + 2]), std::stoll(t[i + 3]), 0);
    else {
      auto inm = t[i + 2] == "." ? "" : swap_in(unhex(t[i + 2]), tags);
      auto rng = t[i + 3] == "." ? "" : unhex(t[i + 3]);
      std::string tag;
      out += co_await ask(t[1], true, t[i + 2] == "." ? nullptr : &inm, t[i + 3] == "." ? nullptr : &rng, &tag) + ";";
      if (!tag.empty())
        tags[t[i + 1][0]] = tag;
    }
  ::unlink(t[1].c_str());
  co_return out;
}

}

int main()
{
  auto dir = "static." + std::to_string(::getpid()); // neighbours use the same names
  if (::mkdir(dir.c_str(), 0700) || ::chdir(dir.c_str()))
    return 2;
  return line_loop([](std::vector<std::string> t) {
    net::io_context ioc;
    std::string out;
    net::co_spawn(ioc, run(t), [&](std::exception_ptr e, std::string r) {
      if (e)
        try {
          std::rethrow_exception(e);
        } catch (const std::exception& x) {
          r = std::string("exception ") + x.what();
        }
      out = std::move(r);
    });
    ioc.run();
    return out;
  });
}
