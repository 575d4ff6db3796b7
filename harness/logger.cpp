// The asynchronous logger: scripted schedules, stress runs, the front ends.
#include "common.hpp"
#include <fitoria/log.hpp>
#include <fitoria/log/async_stdout_writer.hpp>
#include <fitoria/log/async_stream_file_writer.hpp>
#include <fitoria/log/sync_stdout_writer.hpp>
#include <fitoria/log/sync_stream_file_writer.hpp>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <filesystem>
#include <fstream>
#include <map>
#include <mutex>
#include <random>
#include <thread>
using namespace fitoria;
namespace L = fitoria::log;
namespace asio = boost::asio;

struct call_t {
  int id, thread, lv;
  long b = 0, e = 0;
  unsigned line = 0;
  L::record::clock_t::time_point t0, t1;
};
static std::mutex mtx;
static std::condition_variable cv;
static std::map<int, call_t> calls; // by id
static long clk = 0;                // logical clock of calls
static long tokens = 0, written = 0;
static bool open_gate = false;

struct gate_writer : L::async_writer {
  int kind;
  bool gated;
  unsigned seed;
  std::vector<std::string> seen;
  gate_writer(int kind, bool gated, unsigned seed)
      : kind(kind)
      , gated(gated)
      , seed(seed)
  {
  }
  auto async_write(L::record_ptr rec) -> L::awaitable<void> override
  {
    if (kind % 3 == 1) co_await asio::post(asio::system_executor(), asio::use_awaitable_t<L::executor_type> {});
    if (kind % 3 == 2 || (!gated && (seed = seed * 1103515245 + 12345, seed >> 16) % 8 == 0)) {
      asio::basic_waitable_timer<std::chrono::steady_clock, asio::wait_traits<std::chrono::steady_clock>, L::executor_type> t { asio::system_executor() };
      t.expires_after(std::chrono::microseconds(seed % 97));
      co_await t.async_wait(L::use_awaitable);
    }
    std::unique_lock lk(mtx);
    if (gated) {
      cv.wait(lk, [] { return tokens > 0 || open_gate; });
      if (tokens > 0) --tokens;
    }
    auto s = rec->msg;
    std::string tag = "!" + s;
    if (s.size() > 3 && s[0] == 'r' && s.ends_with("{}")) {
      auto it = calls.find(std::atoi(s.c_str() + 1));
      if (it != calls.end()) {
        auto& c = it->second;
        auto ok = static_cast<int>(rec->lv) == c.lv && rec->line == c.line && rec->file_name.ends_with("logger.cpp")
            && rec->time >= c.t0 && (c.e == 0 || rec->time <= c.t1) && s == "r" + std::to_string(c.id) + "{}";
        if (ok) tag = std::to_string(c.id);
      }
    }
    seen.push_back(tag);
    ++written;
    cv.notify_all();
  }
};

static void call(L::async_logger& lg, int id, int thread, int lv)
{
  {
    std::lock_guard lk(mtx);
    auto& c = calls[id];
    c.id = id;
    c.thread = thread;
    c.lv = lv;
    c.line = __LINE__ + 4;
    c.t0 = L::record::clock_t::now();
    c.b = ++clk;
  }
  lg.log(source_location::current(), static_cast<L::level>(lv), "r{}{}", id, "{}");
  std::lock_guard lk(mtx);
  auto& c = calls[id];
  c.t1 = L::record::clock_t::now();
  c.e = ++clk;
}

struct worker {
  std::mutex m;
  std::condition_variable c;
  std::function<void()> job;
  bool stop = false;
  std::thread t;
  worker()
      : t([this] {
        std::unique_lock lk(m);
        for (;;) {
          c.wait(lk, [&] { return stop || job; });
          if (!job) return;
          job();
          job = nullptr;
          c.notify_all();
        }
      })
  {
  }
  void run(std::function<void()> f)
  {
    std::unique_lock lk(m);
    job = std::move(f);
    c.notify_all();
    c.wait(lk, [&] { return !job; });
  }
  ~worker()
  {
    {
      std::lock_guard lk(m);
      stop = true;
    }
    c.notify_all();
    t.join();
  }
};

static auto filt(const std::string& s)
{
  if (s == "-") return L::filter::all();
  return L::filter::at_least(static_cast<L::level>(std::stoi(s)));
}
static void reset()
{
  std::lock_guard lk(mtx);
  calls.clear();
  clk = tokens = written = 0;
  open_gate = false;
}
static auto show(const std::vector<std::shared_ptr<gate_writer>>& ws) -> std::string
{
  std::lock_guard lk(mtx);
  std::string r;
  for (auto& w : ws) {
    r += " ";
    for (std::size_t i = 0; i < w->seen.size(); ++i) r += (i ? "," : "") + w->seen[i];
    if (w->seen.empty()) r += "-";
  }
  return r;
}

static int hung = 0; // answers that took too long; after two the rest is skipped

// run BUFFER FILTER WRITERS step...
static auto scripted(const std::vector<std::string>& t) -> std::string
{
  reset();
  static std::vector<std::unique_ptr<worker>> threads;
  while (threads.size() < 4) threads.push_back(std::make_unique<worker>());
  auto lg = L::async_logger::builder().set_filter(L::filter({})).set_max_buffer_size(std::stoul(t[1])).set_filter(filt(t[2])).build();
  std::vector<std::shared_ptr<gate_writer>> ws;
  auto add = [&] {
    ws.push_back(std::make_shared<gate_writer>(static_cast<int>(ws.size()), true, 1u));
    lg->add_writer(ws.back());
  };
  for (int i = 0; i < std::stoi(t[3]); ++i) add();
  std::thread closer;
  auto gone = std::make_shared<std::atomic<bool>>(false);
  auto destroy = [&] {
    if (!lg) return;
    closer = std::thread([gone, p = std::move(lg)]() mutable {
      p.reset();
      std::lock_guard lk(mtx);
      *gone = true;
      cv.notify_all();
    });
    lg = nullptr;
  };
  int id = 0;
  std::string stuck;
  for (std::size_t i = 4; i < t.size(); ++i) {
    auto& s = t[i];
    if (s[0] == 'c') {
      ++id;
      auto th = s[1] - '0', lv = s[2] - '0';
      threads[static_cast<std::size_t>(th)]->run([&] { call(*lg, id, th, lv); });
    } else if (s[0] == 'w') {
      std::unique_lock lk(mtx);
      auto target = written + 1;
      ++tokens;
      cv.notify_all();
      if (!cv.wait_for(lk, std::chrono::seconds(5), [&] { return written >= target; }) && stuck.empty()) stuck = " stuck@" + std::to_string(i - 4);
    } else if (s[0] == 'a') {
      add();
    } else if (s[0] == 'd') {
      destroy();
    }
  }
  auto before = show(ws);
  destroy();
  {
    std::unique_lock lk(mtx);
    open_gate = true;
    cv.notify_all();
    if (!cv.wait_for(lk, std::chrono::seconds(10), [&] { return gone->load(); })) stuck += " hangs";
  }
  if (!stuck.empty()) ++hung;
  if (*gone) closer.join();
  else closer.detach();
  return before + " |" + show(ws) + stuck;
}

// stress SEED THREADS CALLS WRITERS BUFFER FILTER LATE DIR
static auto stress(const std::vector<std::string>& t) -> std::string
{
  reset();
  auto seed = static_cast<unsigned>(std::stoul(t[1]));
  auto nt = std::stoi(t[2]), nc = std::stoi(t[3]), nw = std::stoi(t[4]);
  auto late = t[7] == "1";
  auto dir = t[8];
  auto lg = L::async_logger::builder().set_max_buffer_size(std::stoul(t[5])).set_filter(filt(t[6])).build();
  std::vector<std::shared_ptr<gate_writer>> ws;
  std::vector<long> since;
  auto add = [&](int i) {
    auto w = std::make_shared<gate_writer>(i, false, seed * 31 + static_cast<unsigned>(i));
    lg->add_writer(w);
    ws.push_back(w);
    std::lock_guard lk(mtx);
    since.push_back(++clk);
  };
  for (int i = 0; i < nw; ++i) add(i);
  auto fm = L::formatter::builder().set_pattern("{LV:} {MSG:}").build();
  auto p1 = dir + "/sync.log", p2 = dir + "/async.log";
  {
    std::ofstream(p1) << "old\n";
    std::ofstream(p2) << "old\n";
    auto f1 = L::make_sync_stream_file_writer(p1);
    f1->set_formatter(fm);
    lg->add_writer(f1);
    auto f2 = L::make_async_stream_file_writer(p2);
    f2->set_formatter(fm);
    lg->add_writer(f2);
    fitv::file_control::reset();
    if (seed % 2) fitv::file_control::max_write = 3;
  }
  {
    std::vector<std::thread> th;
    for (int k = 0; k < nt; ++k)
      th.emplace_back([&, k] {
        std::minstd_rand r(seed * 977 + static_cast<unsigned>(k));
        for (int i = 0; i < nc; ++i) {
          call(*lg, k * 1000 + i + 1, k, static_cast<int>(r() % 6));
          if (r() % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(r() % 200));
        }
      });
    if (late) {
      std::this_thread::sleep_for(std::chrono::microseconds(seed % 1000));
      add(nw);
    }
    for (auto& x : th) x.join();
  }
  if (seed % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(seed % 3000));
  auto t0 = std::chrono::steady_clock::now();
  lg.reset();
  auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
  std::string r = ms > 10000 ? "hangs;" : "ok;";
  hung += ms > 10000;
  for (auto& [id, c] : calls)
    r += std::to_string(id) + "," + std::to_string(c.thread) + "," + std::to_string(c.lv) + "," + std::to_string(c.b) + "," + std::to_string(c.e) + " ";
  r += ";";
  for (std::size_t i = 0; i < ws.size(); ++i) {
    std::lock_guard lk(mtx);
    r += std::to_string(since[i]) + ":";
    for (auto& x : ws[i]->seen) r += x + ",";
    r += " ";
  }
  r += ";";
  for (auto& p : { p1, p2 }) {
    std::ifstream f(p, std::ios::binary);
    r += hex(std::string(std::istreambuf_iterator<char>(f), {})) + " ";
    std::filesystem::remove(p);
  }
  return r;
}

struct keep : L::async_writer {
  std::vector<L::record_ptr> got;
  auto async_write(L::record_ptr r) -> L::awaitable<void> override
  {
    std::lock_guard lk(mtx);
    got.push_back(r);
    co_return;
  }
};

// front MINLEVEL(- for none, x without a logger) KIND ARG
static auto front(const std::vector<std::string>& t) -> std::string
{
  auto& reg = L::registry::global();
  auto k = std::make_shared<keep>();
  auto k2 = std::make_shared<keep>();
  reg.set_default_logger(L::async_logger::builder().build());
  reg.default_logger()->add_writer(k2); // replaced below: sees nothing
  if (t[1] == "x") reg.set_default_logger(nullptr);
  else {
    reg.set_default_logger(L::async_logger::builder().set_filter(filt(t[1])).build());
    reg.default_logger()->add_writer(k);
  }
  if (reg.default_logger().has_value() != (t[1] != "x")) return "wrong registry";
  auto s = unhex(t[3]);
  unsigned line = 0;
  auto kind = std::stoi(t[2]);
  auto before = L::record::clock_t::now();
  switch (kind) {
  case 0: line = __LINE__; L::trace("a{}b{}", s, 7); break;
  case 1: line = __LINE__; L::debug("a{}b{}", s, 7); break;
  case 2: line = __LINE__; L::info("a{}b{}", s, 7); break;
  case 3: line = __LINE__; L::warning("a{}b{}", s, 7); break;
  case 4: line = __LINE__; L::error("a{}b{}", s, 7); break;
  case 5: line = __LINE__; L::fatal("a{}b{}", s, 7); break;
  default: line = __LINE__; L::log(static_cast<L::level>(kind - 10), "a{}b{}", s, 7); break;
  }
  auto after = L::record::clock_t::now();
  reg.set_default_logger(nullptr);
  std::lock_guard lk(mtx);
  std::string r;
  if (!k2->got.empty()) r += "old logger ";
  for (auto& x : k->got) {
    r += std::to_string(static_cast<int>(x->lv)) + ":" + hex(x->msg) + ":";
    r += x->line == line && x->file_name == source_location::current().file_name() && x->function_name.find("front") != std::string_view::npos ? "here" : "elsewhere";
    r += x->time >= before && x->time <= after ? ":now " : ":then ";
  }
  return r.empty() ? "-" : r;
}

// cout LEVEL MSG: the stream writer of the standard output, with its default and with another formatter
static auto to_cout(const std::vector<std::string>& t) -> std::string
{
  auto once = [&](bool custom) {
    std::ostringstream os;
    auto old = std::cout.rdbuf(os.rdbuf());
    {
      auto w = L::make_sync_stdout_writer();
      if (custom) w->set_formatter(L::formatter::builder().set_pattern("{LV:}/{MSG:}").set_newline_style(L::newline_style::cr).build());
      auto lg = L::async_logger::builder().build();
      lg->add_writer(w);
      lg->log(source_location::current(), static_cast<L::level>(std::stoi(t[1])), "{}", unhex(t[2]));
      lg->log(source_location::current(), static_cast<L::level>(std::stoi(t[1])), "{}", 2);
    }
    std::cout.rdbuf(old);
    return os.str();
  };
  return hex(once(true)) + " " + hex(once(false));
}

int main()
{
  return line_loop([](const std::vector<std::string>& t) -> std::string {
    if (hung >= 2) return "skipped";
    if (t[0] == "run") return scripted(t);
    if (t[0] == "stress") return stress(t);
    auto t0 = std::chrono::steady_clock::now();
    auto r = t[0] == "front" ? front(t) : to_cout(t);
    if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(10)) {
      ++hung;
      r += " hangs";
    }
    return r;
  });
}
