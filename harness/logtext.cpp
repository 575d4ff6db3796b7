// Log levels, filters and the line formatter.
#include "common.hpp"
#include <fitoria/log/filter.hpp>
#include <fitoria/log/formatter.hpp>
#include <array>
#include <compare>
using namespace fitoria::log;

static auto lvl(const std::string& s) { return static_cast<level>(std::stoi(s)); }
static auto bits(const filter& f) -> std::string
{
  std::string r;
  for (int i = 0; i < 7; ++i) r += f.is_allowed(static_cast<level>(i)) ? '1' : '0';
  return r;
}
static auto num(const std::string& s) { return std::stoll(s); }

static void pattern(formatter::builder& b, int i)
{
  switch (i) {
  case 0: break;
  case 1: b.set_pattern("{TIME:%Y-%m-%d %H:%M}|{LV:}|{MSG:}|{FUNC:}|{FILE:}|{LINE:}|{COL:}"); break;
  case 2: b.set_pattern("{MSG:}"); break;
  case 3: b.set_pattern("{COL:}{LINE:}{FILE:}{FUNC:}{MSG:}{LV:}"); break;
  case 4: b.set_pattern("{{{MSG}}} {LV} {{}}"); break;
  case 5: b.set_pattern(""); break;
  case 6: b.set_pattern("no fields"); break;
  case 7: b.set_pattern("{LV:}{LV:} {MSG:}/{MSG:}"); break;
  case 8: b.set_pattern("[{LINE:>6}] {FUNC:<12}:{MSG:.5}"); break;
  }
}

int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    if (t[0] == "text") return hex(to_string(lvl(t[1])));
    if (t[0] == "level") {
      exact e(unhex(t[1]));
      return std::to_string(static_cast<int>(to_level(e.sv())));
    }
    if (t[0] == "order") {
      auto a = lvl(t[1]), b = lvl(t[2]);
      auto c = a <=> b;
      auto s = c < 0 ? '<' : c > 0 ? '>' : '=';
      if ((a < b) != (s == '<') || (a == b) != (s == '=') || (a >= b) != (s != '<')) s = '?';
      return std::string(1, s);
    }
    if (t[0] == "fmt") return hex(fmt::format("{}{:}", lvl(t[1]), lvl(t[1])));
    if (t[0] == "seq") {
      // a filter variable assigned again and again
      filter f = filter::all();
      std::string r;
      for (std::size_t i = 1; i < t.size(); ++i) {
        auto& x = t[i];
        auto arg = x.substr(1);
        if (x[0] == 'a') f = filter::at_least(lvl(arg));
        if (x[0] == '*') f = filter::all();
        if (x[0] == 'e') {
          if (arg == "!") ::unsetenv("CPP_LOG");
          else ::setenv("CPP_LOG", unhex(arg).c_str(), 1);
          f = filter::from_env();
        }
        if (x[0] == 'l') {
          auto l = [&](std::size_t i) { return static_cast<level>(arg[i] - '0'); };
          switch (arg.size()) {
          case 0: f = filter(std::initializer_list<level> {}); break;
          case 1: f = filter({ l(0) }); break;
          case 2: f = filter({ l(0), l(1) }); break;
          case 3: f = filter({ l(0), l(1), l(2) }); break;
          default: f = filter({ l(0), l(1), l(2), l(3) }); break;
          }
        }
        auto copy = f;
        r += (r.empty() ? "" : " ") + bits(f);
        if (bits(copy) != bits(f)) r += "!";
      }
      return r;
    }
    if (t[0] == "nl") return hex(get_newline(static_cast<newline_style>(num(t[1]))));
    if (t[0] == "file") {
      exact e(unhex(t[2]));
      return hex(get_file_name(t[1] == "f" ? file_name_style::full_path : file_name_style::file_name_only, e.sv()));
    }
    // line PATTERN NL FULL STYLE(0 none, 1 colour, 2 bold, 3 plain style, 4 colour then bold) SECONDS NANOS LEVEL MSG LINE COL FILE FUNC
    formatter::builder b;
    if (num(t[4]) == 4 || num(t[4]) == 5) b.set_color_level_style();
    b.set_newline_style(static_cast<newline_style>(num(t[2])));
    pattern(b, num(t[1]));
    if (t[3] == "f") b.set_file_name_style(file_name_style::full_path);
    else if (t[3] == "n") b.set_file_name_style(file_name_style::file_name_only);
    if (num(t[4]) == 1 || num(t[4]) == 5) b.set_color_level_style();
    if (num(t[4]) == 2 || num(t[4]) == 4) b.set_level_style([](level) { return fmt::text_style(fmt::emphasis::bold); });
    if (num(t[4]) == 3) b.set_level_style([](level) { return fmt::text_style(); });
    if (num(t[4]) == 6)
      b.set_level_style([](level l) { return l >= level::error ? fmt::fg(fmt::color::red) | fmt::emphasis::underline : fmt::text_style(); });
    auto f = b.build();
    exact file(unhex(t[10])), func(unhex(t[11]));
    auto tp = record::clock_t::time_point(std::chrono::duration_cast<record::clock_t::duration>(
        std::chrono::seconds(num(t[5])) + std::chrono::nanoseconds(num(t[6]))));
    auto rec = std::make_shared<record>(tp, fitoria::source_location::current(), lvl(t[7]), unhex(t[8]));
    rec->line = static_cast<std::uint32_t>(num(t[9].substr(0, t[9].find(','))));
    rec->column = static_cast<std::uint32_t>(num(t[9].substr(t[9].find(',') + 1)));
    rec->file_name = file.sv();
    rec->function_name = func.sv();
    auto once = f.format(rec);
    auto copy = f;
    if (f.format(rec) != once || copy.format(rec) != once) return "unstable";
    return hex(once);
  });
}
