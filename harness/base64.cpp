#include "common.hpp"
#include <fitoria/encoding/base64.hpp>
#include <iterator>
#include <cstring>
#include <stdexcept>
#include <list>
using namespace fitoria::encoding::base64;

template <class B> auto conv(const std::string& s) -> std::vector<B>
{
  std::vector<B> v(s.size());
  if (!s.empty()) std::memcpy(v.data(), s.data(), s.size());
  v.shrink_to_fit();
  return v;
}
template <class D, class B, class O> auto dec(const std::vector<std::string>& t, std::size_t from, bool single) -> std::string
{
  D d;
  std::vector<O> out;
  std::string all;
  for (std::size_t i = from; i < t.size(); ++i) {
    auto raw = unhex(t[i]);
    all += raw;
    auto v = conv<B>(raw);
    if (single) {
      for (auto b : v) d.decode_next(b, std::back_inserter(out));
    } else {
      d.decode_next(v.begin(), v.end(), std::back_inserter(out));
    }
  }
  std::string o(reinterpret_cast<const char*>(out.data()), out.size());
  bool thrown = false;
  std::vector<O> out2;
  try {
    auto v = conv<B>(all);
    D d2;
    d2.decode(v.begin(), v.end(), std::back_inserter(out2));
    std::string o2(reinterpret_cast<const char*>(out2.data()), out2.size());
    if (o2 != o) return "decode!=decode_next";
    std::list<B> l(v.begin(), v.end());
    out2.clear();
    d2.decode(l.begin(), l.end(), std::back_inserter(out2));
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  return std::string(d.is_error() ? "1" : "0") + (d.is_done() ? "1" : "0") + (thrown ? "1" : "0") + " " + hex(o);
}
template <class E, class B> auto enc(padding p, bool dflt, const std::vector<std::string>& t, std::size_t from, bool single) -> std::string
{
  E e = dflt ? E() : E(p);
  std::string r;
  for (int round = 0; round < 2; ++round) { // an encoder is reusable after encode_rest
    std::string out;
    for (std::size_t i = from; i < t.size(); ++i) {
      auto v = conv<B>(unhex(t[i]));
      if (single) {
        for (auto b : v) e.encode_next(b, std::back_inserter(out));
      } else {
        e.encode_next(v.begin(), v.end(), std::back_inserter(out));
      }
    }
    e.encode_rest(std::back_inserter(out));
    if (round == 0) r = out;
    else if (r != out) return "second run differs";
  }
  std::string all, out;
  for (std::size_t i = from; i < t.size(); ++i) all += unhex(t[i]);
  auto v = conv<B>(all);
  E e2 = dflt ? E() : E(p);
  e2.encode(v.begin(), v.end(), std::back_inserter(out));
  if (out != r) return "encode!=encode_next";
  return hex(r);
}
// D/E <alphabet s|u> <byte type c|u|b> <single 0|1> [pad 0|1|d] chunks...
int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    bool u = t[1] == "u", single = t[3] == "1";
    if (t[0] == "D") {
      auto f = [&]<class D>() -> std::string {
        if (t[2] == "c") return dec<D, char, char>(t, 4, single);
        if (t[2] == "u") return dec<D, unsigned char, std::uint8_t>(t, 4, single);
        return dec<D, signed char, std::uint8_t>(t, 4, single);
      };
      return u ? f.template operator()<url_decoder>() : f.template operator()<standard_decoder>();
    }
    bool dflt = t[4] == "d";
    auto p = t[4] == "0" ? padding::no : padding::yes;
    auto f = [&]<class E>() -> std::string {
      if (t[2] == "c") return enc<E, char>(p, dflt, t, 5, single);
      if (t[2] == "u") return enc<E, unsigned char>(p, dflt, t, 5, single);
      return enc<E, std::byte>(p, dflt, t, 5, single);
    };
    return u ? f.template operator()<url_encoder>() : f.template operator()<standard_encoder>();
  });
}
