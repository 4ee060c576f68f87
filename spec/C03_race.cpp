// vp-level: bounded
// vp-bound: limits 0, 1 and 2, at most 4 operations of which 2 run in a race, up to 2 cancellations
// vp-sources: channel error this_thread detail/exception detail/util
#include <chan.hpp>
VP_CONTRACT(chan_race_0) { chan_hist<u32, 4> h(0); h.races = 2; h.run(4, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_race_1) { chan_hist<u32, 4> h(1); h.races = 2; h.run(4, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_race_void_0) { chan_hist<void, 4> h(0); h.races = 2; h.run(4, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_race_void_1) { chan_hist<void, 4> h(1); h.races = 2; h.run(4, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_race_close_1) { chan_hist<u32, 3> h(1); h.races = 1; h.run(3, 1, true); h.finish(); VP_COVER("end"); }
// both operations in one race, possibly with another client waiting
template<class T> root self_race(chan_hist<T, 2> &h, bool wr_first, u32 v, outcome &out)
{
  u32 x = v;
  try
  {
    if constexpr (std::is_void_v<T>) { std::size_t k = wr_first ? co_await cobalt::left_race(h.ch->write(), h.ch->read()) : co_await cobalt::left_race(h.ch->read(), h.ch->write()); out.set(outcome::value, k == 0); }
    else if (wr_first) { auto r = co_await cobalt::left_race(h.ch->write(x), h.ch->read()); out.set(outcome::value, r.index() == 0); if (r.index() == 1) h.read(1, held(boost::variant2::get<1>(r))); }
    else { auto r = co_await cobalt::left_race(h.ch->read(), h.ch->write(x)); out.set(outcome::value, r.index() == 0); if (r.index() == 0) h.read(1, held(boost::variant2::get<0>(r))); }
  }
  catch (...) { from_current_exception(out); }
}
template<class T> void self_race_contract()
{
  chan_hist<T, 2> h(0);
  bool wr_first = vp_bool("write first"); unsigned prior = vp_choice("prior", 3); outcome out; u32 v = vp_u32("v");
  if (prior) h.start(prior == 1);
  self_race<T>(h, wr_first, v, out);
  while (h.env.ctx.run_one());
  VP_CHECK(out.count == 1 && out.kind == outcome::value, "a race of a read and a write of one channel ends");
  bool first = out.v; bool wrote = first == wr_first;
  if (prior == 0) VP_CHECK(first, "the operation that waited first wins");
  if (prior == 1) { VP_CHECK(wrote, "the write wins if a reader waits"); VP_CHECK(h.o[0].out.count == 1 && (std::is_void_v<T> || h.o[0].out.is_value(v)), "the reader gets the value written"); }
  if (prior == 2) { VP_CHECK(!wrote, "the read wins if a writer waits"); VP_CHECK(h.o[0].out.count == 1 && h.o[0].out.kind == outcome::value, "the writer is done"); }
  h.finish();
}
VP_CONTRACT(chan_self_race) { self_race_contract<u32>(); VP_COVER("end"); }
VP_CONTRACT(chan_self_race_void) { self_race_contract<void>(); VP_COVER("end"); }
