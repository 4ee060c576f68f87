// vp-level: proof
// vp-sources: channel error this_thread detail/exception detail/util
#include <race.hpp>
#include <boost/system/system_error.hpp>
VP_CONTRACT(left_race_3)
{
  scene<3> s(false);
  aw<> a{{&s.o[0]}}; iaw<> b{{&s.o[1]}}; aw<> c{{&s.o[2]}};
  client([&] { return cobalt::left_race(a, b, c); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : s.idx == 1 ? get<1>(v) : get<2>(v)); }, s.out, &s.after);
  s.pump();
  race_post(s, false, true);
  VP_COVER("end");
}
VP_CONTRACT(race_2_any_order)
{
  scene<2> s(true);
  aw<> a{{&s.o[0]}}; iaw<> b{{&s.o[1]}}; rng<2> g;
  client([&] { return cobalt::race(g, a, b); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : get<1>(v)); }, s.out, &s.after);
  s.pump();
  race_post(s);
  VP_COVER("end");
}
VP_CONTRACT(race_3_any_order)
{
  scene<3> s(false, 2);
  aw<> a{{&s.o[0]}}; aw<> b{{&s.o[1]}}; iaw<> c{{&s.o[2]}}; rng<6> g;
  client([&] { return cobalt::race(g, a, b, c); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : s.idx == 1 ? get<1>(v) : get<2>(v)); }, s.out, &s.after);
  s.pump();
  race_post(s);
  VP_COVER("end");
}
// the type of the cancellation the losers get is the given one
VP_CONTRACT(left_race_cancellation_type)
{
  scene<2> s(false);
  aw<> a{{&s.o[0]}}; aw<> b{{&s.o[1]}};
  client([&] { return cobalt::left_race<asio::cancellation_type::partial>(a, b); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : get<1>(v)); }, s.out, &s.after);
  s.pump();
  for (auto &o : s.o) VP_CHECK(!o.cancels || o.ct == asio::cancellation_type::partial, "losers get the cancellation type given to race");
  race_post(s, false, true);
  VP_COVER("end");
}
// a race inside a race: interrupting the inner one interrupts its children
VP_CONTRACT(left_race_nested)
{
  scene<3> s(false, 2);
  iaw<> a{{&s.o[0]}}; iaw<> b{{&s.o[1]}}; aw<> c{{&s.o[2]}};
  client([&] { return cobalt::left_race(cobalt::left_race(a, b), c); },
         [&](outcome &o, auto v) { if (v.index() == 1) { s.idx = 2; o.set(outcome::value, get<1>(v)); } else { auto w = get<0>(v); s.idx = w.index(); o.set(outcome::value, s.idx == 0 ? get<0>(w) : get<1>(w)); } }, s.out, &s.after);
  s.pump();
  race_post(s, false, true);
  VP_COVER("end");
}
