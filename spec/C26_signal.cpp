// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/signal_set
#include <iodata.hpp>
#include <boost/cobalt/io/signal_set.hpp>
#include <memory>
using set = io::signal_set; using aset = asio::basic_signal_set<cobalt::executor>;
// a signal reaches the process: the handler it installed for it runs
static void raise_(world &w, int n) { w.put(!!K.handler[n]); if (K.handler[n]) K.handler[n](n); w.fire(EPOLLIN); }
static int any_signal(const char *n)
{
  switch (vp_choice(n, 4)) { case 0: return SIGINT; case 1: return SIGUSR1; case 2: return 64; default: { int s = (int)vp_u32(n); vp_assume((s <= 0) | (s > 64)); vp_assume((s < 0) | (s >= 128)); return s; } }
}
template<typename F> static void guard(world &w, F f) { try { f(); } catch (boost::system::system_error &e) { w.put(e.code()); } }
template<typename Make, typename Wait, typename Call> static auto waiting(unsigned k, unsigned nw, int a, int b, asio::cancellation_type ct, Make make, Wait wait, Call call)
{
  return [=](world &w)
  {
    guard(w, [&]
    {
      auto s = make(w);
      for (unsigned i = 0; i < nw; i++) wait(*s);
      w.poll(); w.put(w.done);
      switch (k)
      {
      case 0: raise_(w, SIGINT); break;
      case 1: raise_(w, SIGUSR1); break;
      case 2: raise_(w, SIGINT); raise_(w, SIGUSR1); break;
      case 3: case 4: case 5: case 6: call(w, *s, k - 3, a); raise_(w, SIGINT); raise_(w, SIGUSR1); break;
      case 7: w.sig.emit(ct); break;
      case 8: s.reset(); break;
      default: break;
      }
      w.poll(); w.put(w.done);
      if (s && nw == 0) { wait(*s); w.poll(); w.put(w.done); }
      if (s) { s.reset(); w.poll(); w.put(w.done); }
      for (auto h : K.handler) w.put(!!h);
    });
  };
}
static void c_call(world &w, set &s, unsigned k, int n)
{
  switch (k) { case 0: w.put(s.add(n)); break; case 1: w.put(s.remove(n)); break; case 2: w.put(s.clear()); break; default: w.put(s.cancel()); break; }
}
static void a_call(world &w, aset &s, unsigned k, int n)
{
  error_code ec;
  switch (k) { case 0: s.add(n, ec); break; case 1: s.remove(n, ec); break; case 2: s.clear(ec); break; default: s.cancel(ec); break; }
  w.put(ec);
}
// one or two waits, or none under way, when signals come, the set changes or it is given up
VP_CONTRACT(wait)
{
  K.signals = true; unsigned k = vp_choice("event", 10), nw = vp_choice("waits", 3); int n = k == 3 || k == 4 ? any_signal("signal") : 0;
  asio::cancellation_type ct{}; if (k == 7) { vp_assume(nw < 2); unsigned t = vp_choice("type", 3); ct = t == 0 ? asio::cancellation_type::terminal : t == 1 ? asio::cancellation_type::partial : asio::cancellation_type::total; }
  same(waiting(k, nw, n, 0, ct, [](world &w) { return std::make_unique<set>(std::initializer_list<int>{SIGINT, SIGTERM}, w.exec()); }, [](set &s) { await_(s.wait()); }, c_call),
       waiting(k, nw, n, 0, ct, [](world &w) { auto s = std::make_unique<aset>(w.exec()); s->add(SIGINT); s->add(SIGTERM); return s; }, [](aset &s) { s.async_wait(raw()); }, a_call), "a wait completes with the signal that came");
  VP_COVER("end");
}
// a set is made from exactly the signals given
VP_CONTRACT(construct)
{
  K.signals = true; unsigned k = vp_choice("signals", 3); int a = k > 0 ? any_signal("first") : 0, b = k > 1 ? any_signal("second") : 0;
  same(waiting(2, 1, 0, 0, {}, [=](world &w) { return k == 0 ? std::make_unique<set>(w.exec()) : k == 1 ? std::make_unique<set>(std::initializer_list<int>{a}, w.exec()) : std::make_unique<set>(std::initializer_list<int>{a, b}, w.exec()); },
               [](set &s) { await_(s.wait()); }, c_call),
       waiting(2, 1, 0, 0, {}, [=](world &w) { auto s = std::make_unique<aset>(w.exec()); if (k > 0) s->add(a); if (k > 1) s->add(b); return s; }, [](aset &s) { s.async_wait(raw()); }, a_call), "a set has the signals given");
  VP_COVER("end");
}
