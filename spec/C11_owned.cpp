// vp-level: proof
// vp-bounded left_race_range_owned: ranges of 2 awaitables
// vp-sources: channel error this_thread detail/exception detail/util
#include <race.hpp>
#include <boost/system/system_error.hpp>
#include <boost/cobalt/result.hpp>
// results that own memory: the winner's is moved out, a loser's is destroyed
static auto rec2(scene<2> &s) { return [&s](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? held(get<0>(v)) : held(get<1>(v))); }; }
VP_CONTRACT(left_race_owned)
{
  scene<2> s(false);
  if (vp_bool("kept")) { aw<box> a{{&s.o[0]}}; iaw<box> b{{&s.o[1]}}; client([&] { return cobalt::left_race(a, b); }, rec2(s), s.out, &s.after); s.pump(); race_post(s, false, true); }
  else { client([&] { return cobalt::left_race(aw<box>{{&s.o[0]}}, aw<box>{{&s.o[1]}}); }, rec2(s), s.out, &s.after); s.pump(); race_post(s, false, true); }
  VP_CHECK(vp_live() == 0, "every result is destroyed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(race_owned_void)
{
  scene<2> s(false);
  aw<box> a{{&s.o[0]}}; aw<void> b{{&s.o[1]}}; rng<2> g;
  client([&] { return cobalt::race(g, a, b); }, [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? held(get<0>(v)) : 0); }, s.out, &s.after);
  s.pump(); race_post(s, false, false, true, 2);
  VP_CHECK(vp_live() == 0, "every result is destroyed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(left_race_range_owned)
{
  scene<2> s(false);
  {
    std::vector<aw<box>> v{{{&s.o[0]}}, {{&s.o[1]}}};
    client([&] { return cobalt::left_race(v); }, [&](outcome &o, std::pair<std::size_t, box> r) { s.idx = r.first; o.set(outcome::value, held(r.second)); }, s.out, &s.after);
    s.pump(); race_post(s, false, true);
  }
  VP_CHECK(vp_live() == 0, "every result is destroyed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(left_race_owned_result)
{
  scene<2> s(false);
  aw<box> a{{&s.o[0]}}, b{{&s.o[1]}};
  client([&] { return cobalt::as_result(cobalt::left_race(a, b)); },
         [&](outcome &o, auto r) { if (r.has_error()) from_exception(o, r.error()); else { s.idx = r->index(); o.set(outcome::value, s.idx == 0 ? held(get<0>(*r)) : held(get<1>(*r))); } }, s.out, &s.after);
  s.pump(); race_post(s, false, true);
  VP_CHECK(vp_live() == 0, "every result is destroyed exactly once");
  VP_COVER("end");
}
