// vp-level: bounded
// vp-bound: ranges of 1 to 3 awaitables
// vp-sources: channel error this_thread detail/exception detail/util
#include <race.hpp>
template<class A, unsigned N> void lranged(bool ext, int modes, bool begin = false)
{
  scene<N> s(ext, modes);
  for (auto &o : s.o) o.can_begin = begin;
  {
    std::vector<A> v; v.reserve(N);
    for (auto &o : s.o) v.push_back(A{{&o}});
    client([&] { return cobalt::left_race(v); }, [&](outcome &o, auto v) { s.idx = v.first; o.set(outcome::value, v.second); }, s.out, &s.after);
    s.pump();
    race_post(s, false, true);
  }
  VP_COVER("end");
}
VP_CONTRACT(left_race_range_1) { lranged<aw<>, 1>(true, 3); }
VP_CONTRACT(left_race_range_2) { lranged<aw<>, 2>(true, 3, true); }
VP_CONTRACT(left_race_range_2i) { lranged<iaw<>, 2>(true, 3); }
VP_CONTRACT(left_race_range_3) { lranged<aw<>, 3>(false, 2); }
VP_CONTRACT(left_race_range_rvalue)
{
  scene<2> s(true);
  client([&] { std::vector<iaw<>> v; v.push_back(iaw<>{{&s.o[0]}}); v.push_back(iaw<>{{&s.o[1]}}); return cobalt::left_race(std::move(v)); },
         [&](outcome &o, auto v) { s.idx = v.first; o.set(outcome::value, v.second); }, s.out, &s.after);
  s.pump();
  race_post(s, false, true);
  VP_COVER("end");
}
VP_CONTRACT(race_range_2)
{
  scene<2> s(false);
  std::vector<aw<>> v{aw<>{{&s.o[0]}}, aw<>{{&s.o[1]}}}; rng<2> g;
  client([&] { return cobalt::race(g, v); }, [&](outcome &o, auto v) { s.idx = v.first; o.set(outcome::value, v.second); }, s.out, &s.after);
  s.pump();
  race_post(s);
  VP_COVER("end");
}
VP_CONTRACT(race_range_3)
{
  scene<3> s(false, 2);
  std::vector<iaw<>> v{iaw<>{{&s.o[0]}}, iaw<>{{&s.o[1]}}, iaw<>{{&s.o[2]}}}; rng<6> g;
  client([&] { return cobalt::race(g, v); }, [&](outcome &o, auto v) { s.idx = v.first; o.set(outcome::value, v.second); }, s.out, &s.after);
  s.pump();
  race_post(s);
  VP_COVER("end");
}
VP_CONTRACT(left_race_range_void)
{
  scene<2> s(true);
  for (auto &o : s.o) o.can_begin = true;
  std::vector<aw<void>> v{aw<void>{{&s.o[0]}}, aw<void>{{&s.o[1]}}};
  client([&] { return cobalt::left_race(v); }, [&](outcome &o, auto v) { s.idx = v; o.set(outcome::value, 0); }, s.out, &s.after);
  s.pump();
  race_post(s, true, true);
  VP_COVER("end");
}
VP_CONTRACT(race_range_empty)
{
  scene<1> s(false);
  std::vector<aw<>> v; bool thrown = false, thrown2 = false;
  try { cobalt::left_race(v); } catch (std::invalid_argument &) { thrown = true; }
  rng<2> g;
  try { cobalt::race(g, v); } catch (std::invalid_argument &) { thrown2 = true; }
  VP_CHECK(thrown && thrown2, "an empty range is rejected");
  VP_COVER("end");
}
