#include "common.hpp"
#include <fitoria/mime/mime_view.hpp>
using namespace fitoria;
using namespace fitoria::mime;
static auto sv(const name_view& n) { return static_cast<std::string_view>(n); }
static auto show(const mime_view& m) -> std::string
{
  std::string o = hex(sv(m.source())) + " " + hex(sv(m.essence())) + " " + hex(sv(m.type())) + " " + hex(sv(m.subtype())) + " "
      + (m.suffix() ? hex(sv(*m.suffix())) : "none") + " " + std::to_string(m.params().size());
  for (auto& [k, v] : m.params()) o += " " + hex(sv(k)) + "=" + hex(sv(v));
  return o;
}
static const char* names[2][3] = { { "charset", "boundary", "q" }, { "ChArSet", "BOUNDARY", "Q" } };
static const char* values[] = { "", "utf-8", "x1", "Z" };
static auto val(std::string_view v) -> int
{
  for (int i = 0; i < 4; ++i) if (v == values[i]) return i;
  return -2;
}
int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    if (t[0] == "parse") {
      exact e(unhex(t[1]));
      auto m = mime_view::parse(e.sv());
      if (!m) return "no";
      std::string o = show(*m);
      // lookups ignore case, the whole compares ignoring case
      for (auto& [k, v] : m->params()) {
        std::string up(sv(k));
        for (auto& c : up) c = static_cast<char>(std::toupper(c));
        auto g = m->params().get(std::string_view(up));
        if (!g || sv(*g) != sv(v)) o += " !lookup";
      }
      std::string low(e.sv());
      for (auto& c : low) c = static_cast<char>(std::tolower(c));
      auto n = mime_view::parse(low);
      if (!n || !(*n == *m) || (*n <=> *m) != 0 || !(*m == low)) o += " !case";
      return o;
    }
    if (t[0] == "cmp") {
      auto a = unhex(t[1]), b = unhex(t[2]);
      name_view x(a), y(b);
      std::string o;
      o += x == y ? '1' : '0';
      o += x != y ? '0' : '1';
      o += (x <=> y) < 0 ? '<' : (x <=> y) > 0 ? '>' : '=';
      o += (x <=> std::string_view(b)) < 0 ? '<' : (x <=> std::string_view(b)) > 0 ? '>' : '=';
      o += (x <=> b.c_str()) < 0 ? '<' : (x <=> b.c_str()) > 0 ? '>' : '=';
      o += x == std::string_view(b) ? '1' : '0';
      o += x == b.c_str() ? '1' : '0';
      o += x < y ? '1' : '0';
      auto m = mime_view::parse(a);
      auto n = mime_view::parse(b);
      if (m && n) {
        o += *m == *n ? '1' : '0';
        o += (*m <=> *n) < 0 ? '<' : (*m <=> *n) > 0 ? '>' : '=';
        o += *m == std::string_view(b) ? '1' : '0';
        o += (*m <=> std::string_view(b)) < 0 ? '<' : (*m <=> std::string_view(b)) > 0 ? '>' : '=';
      } else
        o += "----";
      return o + " " + hex(x.to_string());
    }
    if (t[0] == "params") { // before(3) op name spelling value
      params_view p;
      for (int i = 0; i < 3; ++i)
        if (t[1 + i] != "-1") p.set(names[i == 1][i], values[std::stoi(t[1 + i])]);
      const auto& cp = p;
      auto name = names[std::stoi(t[6]) - 1][std::stoi(t[5]) - 1];
      auto v = values[std::stoi(t[7])];
      int r = -9;
      const auto& op = t[4];
      if (op == "set") { p.set(name, v); r = val(sv(cp.at(name))); }
      if (op == "idx") { p[name] = v; r = val(sv(cp.at(name))); }
      if (op == "get") { auto g = p.get(name); auto h = cp.get(name); r = g ? val(sv(*g)) : -1; if (g.has_value() != h.has_value() || (g && *g != *h)) r = -3; }
      if (op == "at") { try { r = val(sv(cp.at(name))); if (val(sv(p.at(name))) != r) r = -3; } catch (const std::out_of_range&) { r = -1; } }
      if (op == "has") r = cp.contains(name);
      if (op == "era") { auto g = p.erase(name); r = g ? val(sv(*g)) : -1; }
      if (op == "ref") r = val(sv(p[name]));
      if (op == "clr") { p.clear(); r = 0; }
      std::string o = std::to_string(r);
      std::size_t n = 0;
      for (int i = 0; i < 3; ++i) { auto g = cp.get(names[0][i]); n += g.has_value(); o += " " + std::to_string(g ? val(sv(*g)) : -1); }
      if (cp.size() != n || cp.empty() != (n == 0) || static_cast<std::size_t>(std::distance(cp.begin(), cp.end())) != n) o += " !size";
      params_view q;
      for (int i = 2; i >= 0; --i) if (auto g = cp.get(names[1][i])) q.set(names[1][i], *g);
      if (!(q == cp)) o += " !eq";
      return o;
    }
    if (t[0] == "const") { // the constant and the parse of its text agree
      const std::vector<mime_view> all = { application_javascript(), application_json(), application_msgpack(), application_octet_stream(), application_pdf(), application_shockwave_flash(), application_text(), application_wasm(), application_www_form_urlencoded(), application_xml(), image_bmp(), image_gif(), image_jpeg(), image_png(), image_svg(), image_tiff(), multipart_form_data(), text_css(), text_csv(), text_html(), text_javascript(), text_plain(), text_xml(), video_flv() };
      auto& m = all.at(std::stoul(t[1]) - 1);
      auto p = mime_view::parse(static_cast<std::string_view>(m));
      return hex(static_cast<std::string_view>(m)) + (p && show(*p) == show(m) ? "" : " differs from its parse");
    }
    auto e = unhex(t[1]);
    auto m = t[0] == "ext" ? mime_view::from_extension(e) : mime_view::from_path(e);
    return m ? hex(static_cast<std::string_view>(*m)) : "no";
  });
}
