// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/steady_timer io/system_timer io/sleep
#include <iodata.hpp>
#include <boost/cobalt/io/steady_timer.hpp>
#include <boost/cobalt/io/system_timer.hpp>
#include <boost/cobalt/io/sleep.hpp>
#include <memory>
#include <optional>
static std::int64_t any_time(const char *n) { auto t = (std::int64_t)vp_u64(n); vp_assume(t > -(1ll << 60)); vp_assume(t < (1ll << 60)); return t; }
// what happens while a wait is under way
struct change
{
  enum { nothing, time, cancel, reset_at, reset_after, signal, destroy, n_ } k; asio::cancellation_type ct; std::int64_t t;
  change() : k((decltype(k))vp_choice("event", n_)), ct(asio::cancellation_type::none), t(0)
  {
    if (k == time || k == reset_at || k == reset_after) t = any_time("time");
    if (k == time) vp_assume(t >= 0);
    if (k == signal) { unsigned c = vp_choice("type", 3); ct = c == 0 ? asio::cancellation_type::terminal : c == 1 ? asio::cancellation_type::partial : asio::cancellation_type::total; }
  }
};
// T: the timer of the library or of asio; the calls that differ in name are given
template<typename Clock, typename Make, typename Wait, typename At, typename After, typename Expired> static auto timing(change e, std::int64_t start, Make make, Wait wait, At at, After after, Expired expired)
{
  using dur = typename Clock::duration; using tp = typename Clock::time_point;
  return [=](world &w)
  {
    K.now = start; auto t = make(w);
    w.put((u64)t->expiry().time_since_epoch().count()); w.put(expired(*t));
    wait(*t); w.poll(); w.put(w.done);
    switch (e.k)
    {
    case change::time: K.now += e.t; break;
    case change::cancel: t->cancel(); break;
    case change::reset_at: at(*t, tp(dur(e.t))); break;
    case change::reset_after: after(*t, dur(e.t)); break;
    case change::signal: w.sig.emit(e.ct); break;
    case change::destroy: t.reset(); break;
    default: break;
    }
    w.poll(); w.put(w.done);
    if (t) { w.put((u64)t->expiry().time_since_epoch().count()); w.put(expired(*t)); t.reset(); w.poll(); w.put(w.done); }
  };
}
template<typename Clock, typename T> static void timer_()
{
  using A = asio::basic_waitable_timer<Clock, asio::wait_traits<Clock>, cobalt::executor>; using dur = typename Clock::duration; using tp = typename Clock::time_point;
  unsigned k = vp_choice("constructor", 3); std::int64_t start = any_time("now"), x = k ? any_time("expiry") : 0; change e;
  same(timing<Clock>(e, start, [=](world &w) { return k == 0 ? std::make_unique<T>(w.exec()) : k == 1 ? std::make_unique<T>(tp(dur(x)), w.exec()) : std::make_unique<T>(dur(x), w.exec()); },
                     [](T &t) { await_(t.wait()); }, [](T &t, tp p) { t.reset(p); }, [](T &t, dur d) { t.reset(d); }, [](T &t) { return t.expired(); }),
       timing<Clock>(e, start, [=](world &w) { return k == 0 ? std::make_unique<A>(w.exec()) : k == 1 ? std::make_unique<A>(w.exec(), tp(dur(x))) : std::make_unique<A>(w.exec(), dur(x)); },
                     [](A &t) { t.async_wait(raw()); }, [](A &t, tp p) { t.expires_at(p); }, [](A &t, dur d) { t.expires_after(d); }, [](A &t) { return t.expiry().time_since_epoch().count() < K.now; }),
       "a timer waits until its expiry");
}
VP_CONTRACT(steady_timer)
{
  timer_<std::chrono::steady_clock, io::steady_timer>();
  VP_COVER("end");
}
VP_CONTRACT(system_timer)
{
  timer_<std::chrono::system_clock, io::system_timer>();
  VP_COVER("end");
}
// sleeping
template<typename F> static io_root slept(F f)
{
  error_code ec;
  try { co_await f(); } catch (boost::system::system_error &e) { ec = e.code(); }
  W->done++; W->put(ec);
}
template<typename Clock, typename Make> static void sleep_(Make make, bool after)
{
  using A = asio::basic_waitable_timer<Clock, asio::wait_traits<Clock>, cobalt::executor>; using dur = typename Clock::duration; using tp = typename Clock::time_point;
  std::int64_t start = any_time("now"), x = any_time("time"); bool sig = vp_bool("signal"); unsigned c = vp_choice("type", 3); std::int64_t later = any_time("later"); vp_assume(later >= 0);
  auto ct = c == 0 ? asio::cancellation_type::terminal : c == 1 ? asio::cancellation_type::partial : asio::cancellation_type::total;
  auto rest = [=](world &w) { w.poll(); w.put(w.done); if (sig) w.sig.emit(ct); else K.now += later; w.poll(); w.put(w.done); };
  same([&](world &w) { K.now = start; make(x); rest(w); },
       [&](world &w) { K.now = start; A t(w.exec(), after ? tp(dur(start + x)) : tp(dur(x))); t.async_wait(raw()); rest(w); },
       "sleep takes until the time given");
}
VP_CONTRACT(sleep)
{
  switch (vp_choice("which", 4))
  {
  case 0: sleep_<std::chrono::steady_clock>([](std::int64_t x) { slept([x] { return io::sleep(std::chrono::steady_clock::duration(x)); }); }, true); break;
  case 1: sleep_<std::chrono::steady_clock>([](std::int64_t x) { slept([x] { return io::sleep(std::chrono::steady_clock::time_point(std::chrono::steady_clock::duration(x))); }); }, false); break;
  case 2: sleep_<std::chrono::system_clock>([](std::int64_t x) { slept([x] { return io::sleep(std::chrono::system_clock::time_point(std::chrono::system_clock::duration(x))); }); }, false); break;
  default: sleep_<std::chrono::system_clock>([](std::int64_t x) { slept([x] { return cobalt::detail::io::system_sleep(std::chrono::system_clock::duration(x)); }); }, true); break;
  }
  VP_COVER("end");
}
