// Compression and decompression streams, and the decompress middleware.
#include "common.hpp"
#include <boost/asio.hpp>
#include <fitoria/core/bytes.hpp>
#include <fitoria/core/net.hpp>
#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/request.hpp>
#include <fitoria/web/middleware/decompress.hpp>
#include <fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_inflate_stream.hpp>
#include <brotli/decode.h>
#include <brotli/encode.h>
#include <zlib.h>
#include "sandboxed.hpp"
using namespace fitoria;
using namespace fitoria::web;
using namespace fitoria::web::middleware::detail;

// ---- bodies and the reference codecs -------------------------------------
static auto body_of(const std::string& spec) -> std::string // kind:size:seed
{
  auto p = spec.find(':'), q = spec.find(':', p + 1);
  auto kind = spec.substr(0, p);
  std::size_t n = std::stoul(spec.substr(p + 1, q - p - 1));
  std::uint64_t x = std::stoul(spec.substr(q + 1)) * 2654435761u + 88172645463325252ull;
  auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
  std::string r(n, 'a');
  if (kind == "r") for (auto& c : r) c = static_cast<char>(rnd());
  if (kind == "t") for (std::size_t i = 0; i < n; ++i) r[i] = "abcdefghijklmnop"[(i * i / 7 + i) % 16];
  if (kind == "m") for (std::size_t i = 0; i < n; ++i) r[i] = (i / 5000) % 2 ? static_cast<char>(rnd()) : 'q';
  if (kind == "s") for (auto& c : r) c = "01"[rnd() & 1];
  return r;
}
static auto ref_encode(const std::string& codec, const std::string& s, int level) -> std::string
{
  if (codec == "brotli") {
    std::size_t n = BrotliEncoderMaxCompressedSize(s.size()) + 1024;
    std::string r(n, 0);
    if (!BrotliEncoderCompress(level, 18, BROTLI_DEFAULT_MODE, s.size(), (const uint8_t*)s.data(), &n, (uint8_t*)r.data())) std::abort();
    r.resize(n);
    return r;
  }
  z_stream z {};
  if (deflateInit2(&z, level, Z_DEFLATED, codec == "gzip" ? 31 : -15, 8, Z_DEFAULT_STRATEGY) != Z_OK) std::abort();
  std::string r(deflateBound(&z, s.size()) + 64, 0);
  z.next_in = (Bytef*)s.data(); z.avail_in = s.size();
  z.next_out = (Bytef*)r.data(); z.avail_out = r.size();
  if (deflate(&z, Z_FINISH) != Z_STREAM_END) std::abort();
  r.resize(r.size() - z.avail_out);
  deflateEnd(&z);
  return r;
}
// one-shot decoding: verdict ok | trunc | trail | bad, and the decoded text
static auto ref_decode(const std::string& codec, const std::string& s) -> std::pair<std::string, std::string>
{
  std::string r, chunk(1 << 16, 0);
  if (codec == "brotli") {
    auto* d = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr);
    std::size_t in = s.size(); auto* p = (const uint8_t*)s.data();
    std::string v;
    for (;;) {
      std::size_t out = chunk.size(); auto* o = (uint8_t*)chunk.data();
      auto e = BrotliDecoderDecompressStream(d, &in, &p, &out, &o, nullptr);
      r.append(chunk, 0, chunk.size() - out);
      if (e == BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT || (e == BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT && out == 0)) continue;
      v = e == BROTLI_DECODER_RESULT_SUCCESS ? (in ? "trail" : "ok") : e == BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT ? "trunc" : "bad";
      break;
    }
    BrotliDecoderDestroyInstance(d);
    return { v, r };
  }
  z_stream z {};
  if (inflateInit2(&z, codec == "gzip" ? 31 : -15) != Z_OK) std::abort();
  z.next_in = (Bytef*)s.data(); z.avail_in = s.size();
  std::string v;
  for (;;) {
    z.next_out = (Bytef*)chunk.data(); z.avail_out = chunk.size();
    int e = inflate(&z, Z_NO_FLUSH);
    r.append(chunk, 0, chunk.size() - z.avail_out);
    if (e == Z_OK && (z.avail_in || !z.avail_out)) continue;
    v = e == Z_STREAM_END ? (z.avail_in ? "trail" : "ok") : (e == Z_OK || e == Z_BUF_ERROR) ? "trunc" : "bad";
    break;
  }
  inflateEnd(&z);
  return { v, r };
}

// ---- the source: a script of chunks, then an end or an error ---------------
struct script {
  std::vector<std::string> chunks;
  bool fail = false, post = false;
  std::size_t i = 0, ends = 0;
};
class source {
public:
  using is_async_readable_stream = void;
  explicit source(std::shared_ptr<script> s) : s_(std::move(s)) { }
  auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>
  {
    auto s = s_;
    if (s->post) co_await boost::asio::post(co_await boost::asio::this_coro::executor, boost::asio::use_awaitable_t<executor_type>());
    if (s->i < s->chunks.size()) {
      auto& c = s->chunks[s->i++];
      auto* p = reinterpret_cast<const std::byte*>(c.data());
      co_return bytes(p, p + c.size());
    }
    if (s->fail) co_return unexpected { std::make_error_code(std::errc::owner_dead) };
    ++s->ends;
    co_return nullopt;
  }
private:
  std::shared_ptr<script> s_;
};
static auto cut(const std::string& s, const std::string& lens) -> std::vector<std::string>
{
  std::vector<std::string> r;
  std::size_t at = 0;
  std::istringstream is(lens);
  for (std::string t; std::getline(is, t, ',');) {
    if (t == ".") continue;
    std::size_t n = std::min<std::size_t>(std::stoul(t), s.size() - at);
    r.push_back(s.substr(at, n));
    at += n;
  }
  if (at < s.size()) r.push_back(s.substr(at));
  return r;
}

static auto inflater(const std::string& c, any_async_readable_stream s) -> any_async_readable_stream
{
  if (c == "gzip") return async_gzip_inflate_stream(std::move(s));
  if (c == "brotli") return async_brotli_inflate_stream(std::move(s));
  return async_inflate_stream(std::move(s));
}
static auto deflater(const std::string& c, any_async_readable_stream s) -> any_async_readable_stream
{
  if (c == "gzip") return async_gzip_deflate_stream(std::move(s));
  if (c == "brotli") return async_brotli_deflate_stream(std::move(s));
  return async_deflate_stream(std::move(s));
}

struct seen {
  std::string data, ev; // ev: one letter per read (d data, e empty), then E end, S source error, X other error
  bool two_ends = true;
};
static auto drain(any_async_readable_stream s, std::size_t max_reads, bool moved) -> awaitable<seen>
{
  seen r;
  for (std::size_t n = 0;; ++n) {
    if (n >= max_reads) { r.ev += "H"; break; }
    if (moved) { any_async_readable_stream t(std::move(s)); s = std::move(t); }
    auto d = co_await s.async_read_some();
    if (!d) {
      r.ev += "E";
      r.two_ends = !(co_await s.async_read_some()); // the end stays the end
      break;
    }
    if (!*d) { r.ev += (*d).error() == std::make_error_code(std::errc::owner_dead) ? "S" : "X"; break; }
    r.ev += (*d)->empty() ? "e" : "d";
    r.data.append(reinterpret_cast<const char*>((*d)->data()), (*d)->size());
  }
  co_return r;
}
template <class F> static auto run_coro(F f)
{
  boost::asio::io_context ioc;
  using R = typename std::invoke_result_t<F>::value_type;
  std::optional<R> out;
  std::exception_ptr ex;
  boost::asio::co_spawn(executor_type(ioc.get_executor()), [&]() -> awaitable<void> {
    try { out.emplace(co_await f()); } catch (...) { ex = std::current_exception(); }
  }, boost::asio::detached);
  ioc.run();
  if (ex) std::rethrow_exception(ex);
  return std::move(*out);
}
static auto squeeze(const std::string& ev) -> std::string // counts: data reads, empty reads, terminal
{
  std::size_t d = 0, e = 0;
  for (char c : ev) { d += c == 'd'; e += c == 'e'; }
  return std::to_string(d) + " " + std::to_string(e) + " " + (ev.empty() ? "?" : std::string(1, ev.back()));
}
static auto prefix(const std::string& a, const std::string& b) -> bool { return b.compare(0, a.size(), a) == 0 && a.size() <= b.size(); }

int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    try {
      auto flag = [&](std::size_t i, char c) { return t.size() > i && t[i].find(c) != std::string::npos; };
      if (t[0] == "enc") // enc codec body level -> size of the reference encoding
        return std::to_string(ref_encode(t[1], body_of(t[2]), std::stoi(t[3])).size());
      if (t[0] == "I") { // I codec body level damage chunks end flags
        auto plain = body_of(t[2]);
        auto enc = ref_encode(t[1], plain, std::stoi(t[3]));
        auto whole = enc.size();
        std::istringstream ds(t[4]);
        for (std::string d; std::getline(ds, d, ';');) {
          auto v = d.substr(d.find(':') + 1);
          if (d[0] == 't') enc.resize(std::min<std::size_t>(enc.size(), std::stoul(v)));   // truncate
          if (d[0] == 'j') enc += unhex(v);                                                // junk after the end
          if (d[0] == 'f') { std::size_t b = std::stoul(v) % (enc.size() * 8); enc[b / 8] ^= 1 << (b % 8); } // flip a bit
          if (d[0] == 'g') enc = unhex(v);                                                 // other text
        }
        auto [verdict, want] = ref_decode(t[1], enc);
        auto sc = std::make_shared<script>();
        sc->chunks = cut(enc, t[5]);
        sc->fail = t[6] == "src"; sc->post = flag(7, 'p');
        auto n = sc->chunks.size();
        auto r = run_coro([&] { return drain(inflater(t[1], source(sc)), n + want.size() + 10, flag(7, 'm')); });
        return std::to_string(whole) + " " + std::to_string(enc.size()) + " " + verdict + " " + std::to_string(want.size()) + " " + std::to_string(n) + " "
            + squeeze(r.ev) + " " + std::to_string(r.data.size()) + " " + std::to_string(prefix(r.data, want)) + " " + std::to_string(r.two_ends);
      }
      if (t[0] == "D") { // D codec body chunks end flags
        auto plain = body_of(t[2]);
        auto sc = std::make_shared<script>();
        sc->chunks = cut(plain, t[3]);
        sc->fail = t[4] == "src"; sc->post = flag(5, 'p');
        auto n = sc->chunks.size();
        auto r = run_coro([&] { return drain(deflater(t[1], source(sc)), n * 2 + plain.size() + 64, flag(5, 'm')); });
        auto [verdict, got] = ref_decode(t[1], r.data);
        return std::to_string(plain.size()) + " " + std::to_string(n) + " " + squeeze(r.ev) + " " + std::to_string(r.data.size()) + " " + verdict + " "
            + std::to_string(got.size()) + " " + std::to_string(prefix(got, plain)) + " " + std::to_string(r.two_ends);
      }
      if (t[0] == "R") { // R codecs(a,b,..) body chunks flags: through all deflaters, then all inflaters
        auto plain = body_of(t[2]);
        auto sc = std::make_shared<script>();
        sc->chunks = cut(plain, t[3]); sc->post = flag(4, 'p');
        auto n = sc->chunks.size();
        std::vector<std::string> cs;
        std::istringstream is(t[1]);
        for (std::string c; std::getline(is, c, ',');) cs.push_back(c);
        any_async_readable_stream s { source(sc) };
        for (auto& c : cs) s = deflater(c, std::move(s));
        for (auto i = cs.rbegin(); i != cs.rend(); ++i) s = inflater(*i, std::move(s));
        auto r = run_coro([&] { return drain(std::move(s), n * 4 + plain.size() + 64, flag(4, 'm')); });
        return std::to_string(plain.size()) + " " + std::to_string(n) + " " + squeeze(r.ev) + " " + std::to_string(r.data.size()) + " " + std::to_string(prefix(r.data, plain)) + " "
            + std::to_string(r.two_ends);
      }
      if (t[0] == "M") { // M header-values applied-codings body chunks end: the middleware
        auto plain = body_of(t[3]);
        auto text = plain;
        std::istringstream is(t[2]);
        for (std::string c; std::getline(is, c, ',');) if (c != "." && c != "identity") text = ref_encode(c, text, 6);
        auto sc = std::make_shared<script>();
        sc->chunks = cut(text, t[4]);
        sc->fail = t[5] == "src";
        http::header_map h;
        h.insert("X-Before", "1");
        std::istringstream hs(t[1]);
        for (std::string v; std::getline(hs, v, ',');) if (v != ".") h.insert("Content-Encoding", unhex(v));
        h.insert("X-After", "2");
        int runs = 0;
        std::string hdr, out, end = "?";
        auto next = [&](request& req) -> awaitable<response> {
          ++runs;
          for (auto& f : req.headers()) hdr += std::string(f.name_string()) + "=" + std::string(f.value()) + "|";
          auto b = co_await async_read_until_eof<std::string>(req.body());
          if (b) { out = *b; end = "end"; }
          else end = b.error() == std::make_error_code(std::errc::owner_dead) ? "src" : "err";
          co_return response::ok().set_header("X-Handler", req.method() == http::verb::put && req.path().match_path() == "/m" ? "1" : "0").set_body("handled");
        };
        auto mw = to_middleware<request&, awaitable<response>>(middleware::decompress(), next);
        auto res = run_coro([&]() -> awaitable<std::pair<int, std::string>> {
          auto rq = sandboxed::make("/m", http::verb::put, std::move(h), any_async_readable_stream(source(sc)));
          auto r = co_await mw(rq);
          co_return std::pair { static_cast<int>(r.status().value()), std::string(r.headers().get("X-Handler").value_or("-")) };
        });
        return std::to_string(res.first) + " " + res.second + " " + std::to_string(runs) + " " + hex(hdr) + " " + end + " " + std::to_string(out.size()) + " "
            + std::to_string(end == "end" ? out == plain : prefix(out, plain)) + " " + std::to_string(plain.size());
      }
      return "?";
    } catch (const std::exception& e) {
      return std::string("EXCEPTION ") + e.what();
    }
  });
}
