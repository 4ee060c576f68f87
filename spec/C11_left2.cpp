// vp-level: proof
// vp-sources: channel error this_thread detail/exception detail/util
#include <race.hpp>
template<class A, class B> void left2(bool ext, bool begin = false)
{
  scene<2> s(ext);
  s.o[0].can_begin = s.o[1].can_begin = begin;
  A a{{&s.o[0]}}; B b{{&s.o[1]}};
  client([&] { return cobalt::left_race(a, b); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : get<1>(v)); }, s.out, &s.after);
  s.pump();
  race_post(s, false, true);
  VP_COVER("end");
}
VP_CONTRACT(left_race_plain_plain) { left2<aw<>, aw<>>(true); }
VP_CONTRACT(left_race_intr_plain) { left2<iaw<>, aw<>>(true); }
VP_CONTRACT(left_race_plain_intr) { left2<aw<>, iaw<>>(true); }
VP_CONTRACT(left_race_begin) { left2<aw<>, aw<>>(true, true); }
VP_CONTRACT(left_race_rvalue)
{
  scene<2> s(true);
  client([&] { return cobalt::left_race(iaw<>{{&s.o[0]}}, aw<>{{&s.o[1]}}); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : get<1>(v)); }, s.out, &s.after);
  s.pump();
  race_post(s, false, true);
  VP_COVER("end");
}
// all children void: the result is the index
template<class A, class B> void left_void(bool begin)
{
  scene<2> s(true);
  s.o[0].can_begin = s.o[1].can_begin = begin;
  A a{{&s.o[0]}}; B b{{&s.o[1]}};
  client([&] { return cobalt::left_race(a, b); }, [&](outcome &o, auto v) { s.idx = v; o.set(outcome::value, 0); }, s.out, &s.after);
  s.pump();
  race_post(s, true, true);
  VP_COVER("end");
}
VP_CONTRACT(left_race_void) { left_void<aw<void>, iaw<void>>(false); }
VP_CONTRACT(left_race_void_begin) { left_void<aw<void>, aw<void>>(true); }
VP_CONTRACT(left_race_mixed_void)
{
  scene<2> s(true);
  s.o[0].can_begin = s.o[1].can_begin = true;
  aw<void> a{{&s.o[0]}}; aw<> b{{&s.o[1]}};
  client([&] { return cobalt::left_race(a, b); }, [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? 0 : get<1>(v)); }, s.out, &s.after);
  s.pump();
  race_post(s, false, true, true, 1);
  VP_COVER("end");
}
