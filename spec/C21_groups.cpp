// vp-level: bounded
// vp-bound: two awaitables per combinator; channels with limit 0 to 2 and one operation
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/channel.hpp>
#include <adapt.hpp>
auto novalue = [] { return 0; };
struct two : scene<2>
{
  probe_t p;
  two() : scene<2>(false, 2) {}
  void run() { while (step(scene<2>::p, 2)); p.verdict(); }
  op *fail() { op *f = nullptr; for (auto &x : o) if ((x.fail | x.aborted) && (!f || x.order < f->order)) f = &x; return f; }
  bool of(op *f) { return f->aborted ? p.o.is_sys(asio::error::operation_aborted) : p.o.is_exc(f->v); }
  void end() { p.after.complete(); }
  void joined() { run(); auto f = fail(); VP_CHECK(f ? of(f) : p.o.is_value(0), "all forms report the same outcome"); end(); }
  void raced(bool isvoid) { run(); auto w = first(); VP_CHECK(w->fail | w->aborted ? of(w) : p.o.is_value(isvoid ? w - o : (std::uint64_t)w->v << 1 | (w - o)), "all forms report the same outcome"); end(); }
};
VP_CONTRACT(join_values)
{
  two s; s.p.start([&] { return cobalt::join(aw<>{{&s.o[0]}}, aw<>{{&s.o[1]}}); }, [&](std::tuple<u32, u32> t) { VP_CHECK(std::get<0>(t) == s.o[0].v && std::get<1>(t) == s.o[1].v, "all values are reported"); return 0; });
  s.joined(); VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end");
}
VP_CONTRACT(join_void) { two s; s.p.start([&] { return cobalt::join(aw<void>{{&s.o[0]}}, aw<void>{{&s.o[1]}}); }, novalue); s.joined(); VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end"); }
VP_CONTRACT(join_range)
{
  two s; { std::vector<aw<>> v{aw<>{{&s.o[0]}}, aw<>{{&s.o[1]}}}; s.p.start([&] { return cobalt::join(v); }, [&](auto t) { VP_CHECK(t.size() == 2 && t[0] == s.o[0].v && t[1] == s.o[1].v, "all values are reported"); return 0; });
  s.joined(); } VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end");
}
VP_CONTRACT(join_range_void) { two s; { std::vector<aw<void>> v{aw<void>{{&s.o[0]}}, aw<void>{{&s.o[1]}}}; s.p.start([&] { return cobalt::join(v); }, novalue); s.joined(); } VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end"); }
VP_CONTRACT(race_values)
{
  two s; s.p.start([&] { return cobalt::left_race(aw<>{{&s.o[0]}}, aw<>{{&s.o[1]}}); }, [](auto t) { return (std::uint64_t)(t.index() ? get<1>(t) : get<0>(t)) << 1 | t.index(); });
  s.raced(false); VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end");
}
VP_CONTRACT(race_void) { two s; s.p.start([&] { return cobalt::left_race(aw<void>{{&s.o[0]}}, aw<void>{{&s.o[1]}}); }, [](std::size_t i) { return i; }); s.raced(true); VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end"); }
VP_CONTRACT(race_range)
{
  two s; { std::vector<aw<>> v{aw<>{{&s.o[0]}}, aw<>{{&s.o[1]}}}; s.p.start([&] { return cobalt::left_race(v); }, [](auto t) { return (std::uint64_t)t.second << 1 | t.first; }); s.raced(false); }
  VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end");
}
VP_CONTRACT(race_range_void) { two s; { std::vector<aw<void>> v{aw<void>{{&s.o[0]}}, aw<void>{{&s.o[1]}}}; s.p.start([&] { return cobalt::left_race(v); }, [](std::size_t i) { return i; }); s.raced(true); } VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end"); }
template<class R> bool same(const R &r, op &o) { outcome x; if (r.has_error()) from_exception(x, r.error()); return r.has_error() == (o.fail | o.aborted) && (!r.has_error() || (o.aborted ? x.is_sys(asio::error::operation_aborted) : x.is_exc(o.v))); }
VP_CONTRACT(gather_values)
{
  two s; bool range = vp_bool("range");
  {
    std::vector<aw<>> v{aw<>{{&s.o[0]}}, aw<>{{&s.o[1]}}};
    if (range) s.p.start([&] { return cobalt::gather(v); }, [&](auto t) { VP_CHECK(t.size() == 2 && same(t[0], s.o[0]) && same(t[1], s.o[1]), "all outcomes are reported"); return 0; });
    else s.p.start([&] { return cobalt::gather(aw<>{{&s.o[0]}}, aw<>{{&s.o[1]}}); }, [&](auto t) { VP_CHECK(same(std::get<0>(t), s.o[0]) && same(std::get<1>(t), s.o[1]), "all outcomes are reported"); return 0; });
    s.run(); VP_CHECK(s.p.o.is_value(0), "gather does not fail"); s.end();
  }
  VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end");
}
// one channel operation, immediate or not, whose fate is a value, a close or a cancellation
template<bool Void> void chan_read()
{
  env_t env; probe_t p; unsigned lim = vp_choice("limit", 3); u32 v = vp_u32("v"); outcome w;
  std::optional<std::conditional_t<Void, cobalt::channel<void>, cobalt::channel<u32>>> c; c.emplace(lim);
  auto write = [&] { if constexpr (Void) client_void([&] { return c->write(); }, w, nullptr); else client_void([&] { return c->write(v); }, w, nullptr); };
  vp_mark();
  unsigned fate = vp_choice("fate", 3); bool before = vp_bool("before");
  if (fate == 2) before = false;
  if (before) { if (fate == 0) write(); else c->close(); }
  if constexpr (Void) p.start([&] { return c->read(); }, novalue); else p.start([&] { return c->read(); }, [](u32 v) { return v; });
  if (!before) { VP_CHECK(p.o.count == 0, "waits"); if (fate == 0) write(); else if (fate == 1) c->close(); else env.sig.emit(asio::cancellation_type::total); }
  env.ctx.run(); p.verdict();
  VP_CHECK(fate == 0 ? p.o.is_value(Void ? 0 : v) : fate == 1 ? p.o.is_sys(asio::error::broken_pipe) : p.o.is_sys(asio::error::operation_aborted), "all forms report the same outcome");
  p.after.complete(); VP_CHECK(vp_live() == 0, "everything is freed");
}
VP_CONTRACT(channel_read) { chan_read<false>(); VP_COVER("end"); }
VP_CONTRACT(channel_read_void) { chan_read<true>(); VP_COVER("end"); }
template<bool Void> void chan_write()
{
  env_t env; probe_t p; unsigned lim = vp_choice("limit", 3); u32 v = vp_u32("v"); outcome w, r;
  std::optional<std::conditional_t<Void, cobalt::channel<void>, cobalt::channel<u32>>> c; c.emplace(lim);
  auto write = [&] { if constexpr (Void) return c->write(); else return c->write(v); };
  vp_mark();
  unsigned fate = vp_choice("fate", 3);
  if (fate && vp_bool("closed before")) { c->close(); fate = 3; }
  else if (fate) for (unsigned i = 0; i < lim; i++) client_void(write, w, nullptr);   // full
  p.start(write, novalue);
  if (fate == 0) { VP_CHECK(p.o.count == (lim > 0), "waits only if there is no room"); client_void([&] { return c->read(); }, r, nullptr); }
  else if (fate == 1) c->close();
  else if (fate == 2) env.sig.emit(asio::cancellation_type::total);
  env.ctx.run(); p.verdict();
  VP_CHECK(fate == 0 ? p.o.is_value(0) : fate == 2 ? p.o.is_sys(asio::error::operation_aborted) : p.o.is_sys(asio::error::broken_pipe), "all forms report the same outcome");
  p.after.complete(); VP_CHECK(vp_live() == 0, "everything is freed");
}
VP_CONTRACT(channel_write) { chan_write<false>(); VP_COVER("end"); }
VP_CONTRACT(channel_write_void) { chan_write<true>(); VP_COVER("end"); }
