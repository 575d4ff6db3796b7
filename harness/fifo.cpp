// dynamic_buffer histories.  Byte number i of the stream has the value
// i % 251; every line of input is one history, checked op by op.
#include "common.hpp"
#include <cstddef>
#include <fitoria/core/dynamic_buffer.hpp>
#include <memory>
using namespace fitoria;

template <class C>
struct session {
  std::unique_ptr<dynamic_buffer<C>> b;
  std::size_t in = 0; // bytes committed so far
  std::size_t limit = 0;
  std::ostringstream out;
  static auto val(std::size_t i) { return static_cast<unsigned char>(i % 251); }
  static auto bytes(const void* p, std::size_t n) { return static_cast<const unsigned char*>(p) + 0 * n; }

  // number of the first readable byte is recovered from size and "in"
  auto state(std::size_t& bad) -> std::string
  {
    auto d = std::as_const(*b).data();
    auto c = b->cdata();
    auto m = b->data();
    if (d.size() != b->size() || c.size() != d.size() || m.size() != d.size()) ++bad;
    if (d.size() && (d.data() != c.data() || d.data() != m.data())) ++bad;
    if (b->size() > b->max_size() || b->capacity() < b->size()) ++bad;
    if (b->max_size() != limit && limit != 1000000) ++bad;
    auto p = static_cast<const unsigned char*>(d.data());
    const auto n = d.size();
    if (n > in) return " 999999 0 0";
    const auto first = in - n;
    for (std::size_t i = 0; i < n; ++i)
      if (p[i] != val(first + i)) { ++bad; break; }
    std::ostringstream o;
    o << ' ' << n << ' ' << (n ? first : 0) << ' ' << (n ? in - 1 : 0);
    return o.str();
  }

  auto run(const std::vector<std::string>& t) -> std::string
  {
    // t: kind limit start ops...
    limit = std::stoull(t[1]);
    const auto start = std::stoull(t[2]);
    if (start || limit == 1000000) {
      C c;
      for (std::size_t i = 0; i < start; ++i) c.push_back(static_cast<typename C::value_type>(val(in++)));
      b = std::make_unique<dynamic_buffer<C>>(std::move(c));
    } else
      b = std::make_unique<dynamic_buffer<C>>(limit);
    for (std::size_t k = 3; k + 2 < t.size(); k += 3) {
      std::size_t bad = 0, rel = 0, rfirst = 0;
      bool thrown = false;
      auto num = [](const std::string& s) { return s == "H" ? static_cast<std::size_t>(-1) : std::stoull(s); };
      const std::size_t n = num(t[k + 1]);
      const std::size_t m = num(t[k + 2]);
      const auto old = b->size();
      switch (t[k][0]) {
      case 'w': case 'p':
        try {
          auto w = b->prepare(n);
          if (w.size() < n) ++bad;
          auto p = static_cast<unsigned char*>(w.data());
          for (std::size_t i = 0; i < w.size(); ++i) p[i] = val(in + i);
          // the writable bytes must not touch the readable ones
          auto r = std::as_const(*b).data();
          auto q = static_cast<const unsigned char*>(r.data());
          if (r.size() != old) ++bad;
          if (r.size() && w.size() && p < q + r.size() && q < p + w.size()) ++bad;
          for (std::size_t i = 0; i < r.size() && r.size() <= in; ++i)
            if (q[i] != val(in - r.size() + i)) { ++bad; break; }
          if (t[k][0] == 'w') {
            b->commit(m);
            in += std::min<std::size_t>(m, w.size());
          }
        } catch (const std::length_error&) {
          thrown = true;
        } catch (const std::bad_alloc&) {
          thrown = true;
        }
        break;
      case 'c': b->consume(n); break;
      case 'r': {
        auto c = b->release();
        rel = c.size();
        rfirst = rel <= in ? in - rel : 999999;
        for (std::size_t i = 0; i < rel && rel <= in; ++i)
          if (static_cast<unsigned char>(c[i]) != val(in - rel + i)) { ++bad; break; }
        break;
      }
      case 'v': {
        auto nb = std::make_unique<dynamic_buffer<C>>(std::move(*b));
        b = std::move(nb);
        break;
      }
      }
      auto st = state(bad);
      out << (thrown ? 1 : 0) << st << ' ' << bad << ' ' << rel << ' ' << (rel ? rfirst : 0) << ';';
    }
    return out.str();
  }
};

int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    if (t[0] == "s") return session<std::string>().run(t);
    if (t[0] == "b") return session<std::vector<std::byte>>().run(t);
    return session<std::vector<std::uint8_t>>().run(t);
  });
}
