// HTTP dates.  d <day> <sec> <ns>: texts and round trips;
// c <day> <sec> <ns> <day> <sec> <ns>: how two dates compare
#include "common.hpp"
#include <fitoria/http/header/date.hpp>

using fitoria::http::header::date;
using namespace std::chrono;

static auto at(const std::vector<std::string>& t, std::size_t i)
{
  return time_point<system_clock, nanoseconds>(days(std::stoi(t[i])) + seconds(std::stoi(t[i + 1])) + nanoseconds(std::stoi(t[i + 2])));
}

static auto order(const date& a, const date& b) -> std::string
{
  auto c = a <=> b;
  std::string o = c < 0 ? "<" : c > 0 ? ">" : "=";
  if ((a < b) != (o == "<") || (a > b) != (o == ">") || (a <= b) != (o != ">") || (a >= b) != (o != "<") || (a == b) != (o == "=") || (a != b) == (o == "="))
    o += "!";
  return o;
}

int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    auto p = at(t, 1);
    date a(time_point_cast<system_clock::duration>(p));
    if (t[0] == "c") {
      auto q = at(t, 4);
      date b(time_point_cast<system_clock::duration>(q)), b2(file_clock::from_sys(q));
      return order(a, b) + order(a, b2);
    }
    auto o = hex(a.to_string());
    if (a.utc_time() != p) o += " utc";
    if (hex(a.to_string()) != o.substr(0, o.find(' '))) o += " again";
    if (t[0] == "d") {                        // the file clock reaches less far
      auto fp = file_clock::from_sys(p);
      date b(fp);
      if (b.to_string() != a.to_string() || !(a == b) || b.utc_time() != p || b.file_time() != fp || a.file_time() != fp) o += " file";
      date c(fp + nanoseconds(1));
      if (c == b || !(b < c)) o += " step";
    }
    return o;
  });
}
