// Awaits operations that complete when the script says so.
//   input:  one line per case: commands separated by ';'
//     run <consumer> <tree>   tree in prefix form: v0..r9 (kind, number; suffix
//                             d: deaf to cancellation, i: completes at once
//                             with the outcome set before), | a b, & a b
//     set k <outcome>         what k completes with when it is started
//     done k <outcome>        completes k;  outcome: ok <hex> or e <code>
//     cancel                  cancels whatever was run
//   output: per command, what happened: "+k" started, "-k" cancelled,
//           "=<result>", "!<exception>", joined by ' ' and then by ';'
#include <fitoria/core/net.hpp>

#include <future>
#include <map>
#include <set>

#include "common.hpp"

namespace f = fitoria;
namespace net = boost::asio;
using ec_t = boost::system::error_code;
using namespace net::experimental::awaitable_operators;

struct my_category : boost::system::error_category {
  const char* name() const noexcept override { return "mine"; }
  std::string message(int c) const override { return "mine " + std::to_string(c); }
  static auto get() -> const my_category& { static my_category c; return c; }
};

static auto code(const std::string& s) -> ec_t
{
  auto v = std::stoi(s.substr(1));
  switch (s[0]) {
  case 's': return { v, boost::system::system_category() };
  case 'g': return { v, boost::system::generic_category() };
  case 'm': return { v, my_category::get() };
  case 'a': return { v, net::error::get_addrinfo_category() };
  case 'x': return { v, net::error::get_misc_category() };
  default: return {};
  }
}

static auto show(const ec_t& e) -> std::string
{
  // as the library hands it on: as a std::error_code
  std::error_code s = e;
  std::string r = "?";
  auto& c = e.category();
  if (c == boost::system::system_category()) r = s.category() == std::system_category() ? "s" : "S";
  else if (c == boost::system::generic_category()) r = s.category() == std::generic_category() ? "g" : "G";
  else if (c == my_category::get()) r = std::string(s.category().name()) == "mine" && s.message() == e.message() ? "m" : "M";
  else if (c == net::error::get_addrinfo_category()) r = "a";
  else if (c == net::error::get_misc_category()) r = "x";
  if (!e.failed() || !s || s.value() != e.value()) r += "!";
  return r + std::to_string(e.value());
}

struct op {
  std::function<void(bool, std::string)> complete;   // ok, value or code
  bool started = false, told = false;
};

static std::map<int, op> ops;
static std::map<int, std::string> presets;
static std::set<int> deaf;
static std::set<int> now;
static std::vector<std::string> events;
static net::any_io_executor home;      // where unbound handlers run
static bool cancelling = false;
static void say(std::string s) { events.push_back(std::move(s)); }

template <class T> auto value(const std::string& h) -> T
{
  auto s = unhex(h);
  if constexpr (std::is_same_v<T, int>) return std::stoi(s);
  else if constexpr (std::is_same_v<T, std::unique_ptr<std::string>>) return std::make_unique<std::string>(s);
  else if constexpr (std::is_same_v<T, ec_t>) return s == "none" ? ec_t() : code(s);
  else return s;
}

static auto render(const std::string& s) { return hex(s); }
static auto render(int i) { return hex(std::to_string(i)); }
static auto render(const std::unique_ptr<std::string>& p) { return p ? hex(*p) : "null"; }
static auto render(const ec_t& e) { return hex(e ? show(e) : "none"); }

template <class T> auto render_expected(const f::expected<T, ec_t>& e) -> std::string
{
  if (!e) return "e:" + show(e.error());
  if constexpr (std::is_void_v<T>) return "ok:-";
  else return "ok:" + render(*e);
}

template <class Sig> struct arg_of;
template <> struct arg_of<void(ec_t)> { using type = void; };
template <class T> struct arg_of<void(ec_t, T)> { using type = std::decay_t<T>; };

template <class Sig, class Token> auto start(int k, Token&& token)
{
  return net::async_initiate<Token, Sig>(
      [](auto handler, int k) {
        using H = decltype(handler);
        auto h = std::make_shared<H>(std::move(handler));
        auto& o = ops[k];
        o.started = true;
        say("+" + std::to_string(k));
        auto slot = net::get_associated_cancellation_slot(*h);
        o.complete = [h, k, slot](bool ok, std::string v) mutable {
          if (slot.is_connected() && !cancelling) slot.clear();
          auto hp = std::move(h);
          ops[k].complete = nullptr;     // this function object is gone from here on
          auto ex = net::get_associated_executor(*hp, home);
          net::post(ex, [hp, ok, v] {
            using A = typename arg_of<Sig>::type;
            if constexpr (std::is_void_v<A>) std::move (*hp)(ok ? ec_t() : code(v));
            else {
              // what comes with an error is of no interest, even if it is a value
              A a = value<A>(ok ? v : std::is_same_v<A, int> ? "37" : std::is_same_v<A, ec_t> ? "6d39" : "6e6f");
              if constexpr (std::is_same_v<Sig, void(ec_t, const std::string&)>) { const A& r = a; std::move (*hp)(ok ? ec_t() : code(v), r); }
              else std::move (*hp)(ok ? ec_t() : code(v), std::move(a));
            }
          });
        };
        if (now.count(k)) {
          auto p = presets[k];
          o.complete(p[0] == 'o', p.substr(p.find(' ') + 1));
        } else if (slot.is_connected())
          slot.assign([k](net::cancellation_type) {
            if (!std::exchange(ops[k].told, true)) say("-" + std::to_string(k));
            if (!deaf.count(k) && ops[k].complete) {
              auto c = ops[k].complete;
              cancelling = true;
              c(false, "s" + std::to_string(ECANCELED));
              cancelling = false;
            }
          });
      },
      token, k);
}

using V = void(ec_t);
using I = void(ec_t, int);
using S = void(ec_t, std::string);
using U = void(ec_t, std::unique_ptr<std::string>);
using C = void(ec_t, ec_t);
using R = void(ec_t, const std::string&);

template <class Fn> auto with_sig(char c, Fn fn)
{
  switch (c) {
  case 'v': return fn(static_cast<V*>(nullptr));
  case 'i': return fn(static_cast<I*>(nullptr));
  case 's': return fn(static_cast<S*>(nullptr));
  case 'u': return fn(static_cast<U*>(nullptr));
  case 'c': return fn(static_cast<C*>(nullptr));
  default: return fn(static_cast<R*>(nullptr));
  }
}

struct tree {
  char t;        // '|', '&', or the kind of an operation
  int k = 0;
  std::unique_ptr<tree> l, r;
};

static auto parse(const std::vector<std::string>& w, std::size_t& at) -> std::unique_ptr<tree>
{
  auto t = std::make_unique<tree>();
  auto s = w[at++];
  t->t = s[0];
  if (s == "|" || s == "&") { t->l = parse(w, at); t->r = parse(w, at); return t; }
  t->k = s[1] - '0';
  for (char c : s.substr(2)) if (c == 'd') deaf.insert(t->k); else now.insert(t->k);
  return t;
}

template <class A, class B> auto both(char t, int a, int b) -> f::awaitable<std::string>
{
  if (t == '|') {
    auto r = co_await (start<A>(a, f::use_awaitable) || start<B>(b, f::use_awaitable));
    if (r.index() == 0) co_return "0 " + render_expected(std::get<0>(r));
    co_return "1 " + render_expected(std::get<1>(r));
  }
  if constexpr (std::is_same_v<A, V> && std::is_same_v<B, V>) {
    auto r = co_await (start<A>(a, f::use_awaitable) && start<B>(b, f::use_awaitable));
    co_return "& " + render_expected(std::get<0>(r)) + " " + render_expected(std::get<1>(r));
  } else {
    auto [x, y] = co_await (start<A>(a, f::use_awaitable) && start<B>(b, f::use_awaitable));
    co_return "& " + render_expected(x) + " " + render_expected(y);
  }
}

template <class Sig> auto leaf(int k) -> f::awaitable<std::string>
{
  co_return render_expected(co_await start<Sig>(k, f::use_awaitable));
}

static auto eval(const tree* t) -> f::awaitable<std::string>
{
  if (t->t != '|' && t->t != '&') {
    co_return co_await with_sig(t->t, [k = t->k](auto* s) { return leaf<std::remove_pointer_t<decltype(s)>>(k); });
  }
  std::string p { t->l->t, t->r->t };
  // operations combined as they are
  if (p == "vv") co_return co_await both<V, V>(t->t, t->l->k, t->r->k);
  if (p == "vi") co_return co_await both<V, I>(t->t, t->l->k, t->r->k);
  if (p == "iv") co_return co_await both<I, V>(t->t, t->l->k, t->r->k);
  if (p == "us") co_return co_await both<U, S>(t->t, t->l->k, t->r->k);
  if (p == "cv") co_return co_await both<C, V>(t->t, t->l->k, t->r->k);
  if (t->t == '|') {
    auto r = co_await (eval(t->l.get()) || eval(t->r.get()));
    co_return std::to_string(r.index()) + " " + (r.index() == 0 ? std::get<0>(r) : std::get<1>(r));
  }
  auto [x, y] = co_await (eval(t->l.get()) && eval(t->r.get()));
  co_return "& " + x + " " + y;
}

struct world {
  net::io_context ioc;
  net::strand<net::io_context::executor_type> a { ioc.get_executor() }, b { ioc.get_executor() };
  net::cancellation_signal sig;
  std::vector<std::unique_ptr<tree>> trees;
  std::function<void()> poll_future;

  void result(const std::string& r, bool at) { say("=" + r + (at ? "" : " on another executor")); }

  // the trees are awaited one after another
  auto seq() -> f::awaitable<void>
  {
    for (auto& t : trees) {
      auto r = co_await eval(t.get());
      result(r, a.running_in_this_thread());
    }
  }

  void run(const std::string& how, const std::vector<std::string>& w)
  {
    for (std::size_t at = 0; at < w.size();) trees.push_back(parse(w, at));
    if (how == "await") {
      net::co_spawn(a, seq(), net::bind_cancellation_slot(sig.slot(), [](std::exception_ptr e) {
        if (!e) return;
        try { std::rethrow_exception(e); } catch (const std::exception& x) { say("!" + hex(x.what())); }
      }));
      return;
    }
    auto k = trees[0]->k;
    with_sig(trees[0]->t, [&](auto* s) {
      using Sig = std::remove_pointer_t<decltype(s)>;
      using T = f::expected<typename arg_of<Sig>::type, ec_t>;
      auto cb = [this](T r) { result(render_expected(r), true); };
      if (how == "cb") start<Sig>(k, f::as_expected(cb));
      else if (how == "move") {
        // a handler that cannot be copied
        auto m = [this, p = std::make_unique<int>(1)](T r) { result(render_expected(r), *p == 1); };
        start<Sig>(k, f::as_expected(std::move(m)));
      } else if (how == "ref") {
        const auto token = f::as_expected(cb);
        start<Sig>(k, token);
      } else if (how == "bound") start<Sig>(k, f::as_expected(net::bind_executor(b, [this](T r) { result(render_expected(r), b.running_in_this_thread()); })));
      else if (how == "bound2") start<Sig>(k, net::bind_executor(b, f::as_expected([this](T r) { result(render_expected(r), b.running_in_this_thread()); })));
      else if (how == "slot") start<Sig>(k, f::as_expected(net::bind_cancellation_slot(sig.slot(), cb)));
      else if (how == "deferred") { auto d = start<Sig>(k, f::as_expected(net::deferred)); say("made"); std::move(d)(cb); }
      else if (how == "future") {
        auto fu = std::make_shared<std::future<T>>(start<Sig>(k, f::as_expected(net::use_future)));
        poll_future = [this, fu, k] {
          // its completion runs on a thread of the system executor
          auto due = std::chrono::seconds(ops[k].started && !ops[k].complete ? 10 : 0);
          if (fu->valid() && fu->wait_for(due) == std::future_status::ready) result(render_expected(fu->get()), true);
        };
      } else if (how == "coro") {
        net::co_spawn(a, [this, k]() -> f::awaitable<void> {
          constexpr auto token = f::use_awaitable;
          auto aw = start<Sig>(k, token);
          say("made");
          auto r = co_await std::move(aw);
          result(render_expected(r), a.running_in_this_thread());
        }, net::detached);
      }
    });
  }

  void poll()
  {
    ioc.restart();
    ioc.poll();
  }
};

int main()
{
  return line_loop([](const std::vector<std::string>& words) -> std::string {
    std::string line;
    for (auto& w : words) line += (line.empty() ? "" : " ") + w;
    ops.clear(); presets.clear(); deaf.clear(); now.clear(); events.clear();
    std::string out;
    {
      world w;
      home = w.ioc.get_executor();
      std::istringstream is(line);
      for (std::string cmd; std::getline(is, cmd, ';');) {
        auto a = split_ws(cmd);
        if (a.empty()) continue;
        if (a[0] == "run") w.run(a[1], { a.begin() + 2, a.end() });
        else if (a[0] == "set") presets[std::stoi(a[1])] = a[2] + " " + a[3];
        else if (a[0] == "done") {
          auto c = ops[std::stoi(a[1])].complete;
          if (c) c(a[2] == "ok", a[3]); else say("not waiting");
        } else if (a[0] == "cancel") w.sig.emit(net::cancellation_type::terminal);
        w.poll();
        if (w.poll_future) w.poll_future();
        out += out.empty() ? "" : ";";
        for (std::size_t i = 0; i < events.size(); ++i) out += (i ? "," : "") + events[i];
        if (events.empty()) out += "-";
        events.clear();
      }
      ops.clear();
      home = {};
    }
    return out;
  });
}
