// from_string<T> on exact buffers.
#include "common.hpp"
#include <cfloat>
#include <cmath>
#include <fitoria/core/from_string.hpp>
using namespace fitoria;
static auto err(const std::error_code& e) -> std::string
{
  if (e == std::make_error_code(std::errc::invalid_argument)) return "i";
  if (e == std::make_error_code(std::errc::result_out_of_range)) return "r";
  return "?" + std::to_string(e.value());
}
template <class T>
auto integral(std::string_view s) -> std::string
{
  auto r = from_string<T>(s);
  if (!r) return err(r.error());
  if constexpr (std::is_signed_v<T>) return "v" + std::to_string(static_cast<long long>(*r));
  else return "v" + std::to_string(static_cast<unsigned long long>(*r));
}
template <class T>
auto floating(std::string_view s, int dig) -> std::string
{
  auto r = from_string<T>(s);
  if (!r) return err(r.error());
  if (!std::isfinite(*r)) return "special";
  char b[200];
  std::snprintf(b, sizeof b, "v%.*Le", dig - 1, static_cast<long double>(*r));
  return b;
}
int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    exact e(unhex(t[1]));
    auto s = e.sv();
    if (t[0] == "int")
      return integral<std::int8_t>(s) + " " + integral<std::uint8_t>(s) + " " + integral<std::int16_t>(s) + " "
          + integral<std::uint16_t>(s) + " " + integral<std::int32_t>(s) + " " + integral<std::uint32_t>(s) + " "
          + integral<std::int64_t>(s) + " " + integral<std::uint64_t>(s) + " " + integral<long long>(s) + " "
          + integral<unsigned long long>(s) + " " + integral<long>(s) + " " + integral<unsigned>(s);
    if (t[0] == "bool") {
      auto r = from_string<bool>(s);
      if (!r) return err(r.error());
      return *r ? "v1" : "v0";
    }
    if (t[0] == "float")
      return floating<float>(s, FLT_DIG) + " " + floating<double>(s, DBL_DIG) + " " + floating<long double>(s, LDBL_DIG);
    auto a = from_string<std::string>(s);
    auto b = from_string<std::string_view>(s);
    if (!a || !b) return "error";
    return hex(*a) + " " + hex(*b) + (b->data() == s.data() || s.empty() ? "" : " copied");
  });
}
