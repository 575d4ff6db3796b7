// Shared helpers of the conformance harnesses: line protocol with hex tokens.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

inline auto hex(std::string_view s) -> std::string
{
  static const char* d = "0123456789abcdef";
  if (s.empty())
    return "-";
  std::string r;
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}

inline auto unhex(std::string_view s) -> std::string
{
  if (s == "-")
    return {};
  std::string r;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (std::size_t i = 0; i + 1 < s.size(); i += 2)
    r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}

// A heap copy without slack, so that sanitizers see any read past the end.
struct exact {
  std::vector<char> buf;
  explicit exact(const std::string& s)
      : buf(s.begin(), s.end())
  {
    buf.shrink_to_fit();
  }
  operator std::string_view() const
  {
    return { buf.data(), buf.size() };
  }
  auto sv() const -> std::string_view
  {
    return { buf.data(), buf.size() };
  }
};

inline auto split_ws(const std::string& line) -> std::vector<std::string>
{
  std::istringstream is(line);
  std::vector<std::string> r;
  for (std::string t; is >> t;)
    r.push_back(t);
  return r;
}

// Runs f on the tokens of every input line; f returns one output line.
template <class F>
int line_loop(F f)
{
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    auto out = f(split_ws(line));
    out += '\n';
    std::fwrite(out.data(), 1, out.size(), stdout);
    std::fflush(stdout);
  }
  return 0;
}
