// vp-level: proof
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/race.hpp>
#include <join.hpp>
template<class A, class B> void join2(bool ext, bool lv)
{
  scene<2> s(ext);
  A a{{&s.o[0]}}; B b{{&s.o[1]}};
  auto rec = [&](outcome &o, auto v) { s.idx = 0; VP_CHECK(std::get<0>(v) == s.o[0].v && std::get<1>(v) == s.o[1].v, "the values are yielded in argument order"); o.set(outcome::value, 0); };
  if (lv) client([&] { return cobalt::join(a, b); }, rec, s.out, &s.after);
  else client([&] { return cobalt::join(A{{&s.o[0]}}, B{{&s.o[1]}}); }, rec, s.out, &s.after);
  s.pump();
  join_post(s);
  VP_COVER("end");
}
VP_CONTRACT(join_2) { join2<aw<>, aw<>>(true, true); }
VP_CONTRACT(join_2_intr) { join2<iaw<>, aw<>>(true, true); }
VP_CONTRACT(join_2_rvalue) { join2<aw<>, iaw<>>(true, false); }
VP_CONTRACT(join_3)
{
  scene<3> s(false);
  aw<> a{{&s.o[0]}}; iaw<> b{{&s.o[1]}}; aw<> c{{&s.o[2]}};
  client([&] { return cobalt::join(a, b, c); },
         [&](outcome &o, auto v) { VP_CHECK(std::get<0>(v) == s.o[0].v && std::get<1>(v) == s.o[1].v && std::get<2>(v) == s.o[2].v, "the values are yielded in argument order"); o.set(outcome::value, 0); }, s.out, &s.after);
  s.pump();
  join_post(s);
  VP_COVER("end");
}
VP_CONTRACT(join_void)
{
  scene<2> s(true);
  aw<void> a{{&s.o[0]}}, b{{&s.o[1]}};
  client_void([&] { return cobalt::join(a, b); }, s.out, &s.after);
  s.pump();
  join_post(s);
  VP_COVER("end");
}
VP_CONTRACT(join_mixed_void)
{
  scene<2> s(true);
  aw<void> a{{&s.o[0]}}; aw<> b{{&s.o[1]}};
  client([&] { return cobalt::join(a, b); }, [&](outcome &o, auto v) { VP_CHECK(std::get<1>(v) == s.o[1].v, "the values are yielded in argument order"); o.set(outcome::value, 0); }, s.out, &s.after);
  s.pump();
  join_post(s);
  VP_COVER("end");
}
// join in a race: losing interrupts everything the join still waits for
VP_CONTRACT(join_interrupted)
{
  scene<3> s(false, 2);
  iaw<> a{{&s.o[0]}}; iaw<> b{{&s.o[1]}}; aw<> c{{&s.o[2]}};
  client([&] { return cobalt::left_race(c, cobalt::join(a, b)); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : 0); }, s.out, &s.after);
  interrupted_pump(s);
  VP_COVER("end");
}
