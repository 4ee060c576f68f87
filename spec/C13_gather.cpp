// vp-level: proof
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/race.hpp>
#include <gather.hpp>
#include <join.hpp>
template<class A, class B> void gather2(bool lv)
{
  scene<2> s(true); s.reach = true;
  A a{{&s.o[0]}}; B b{{&s.o[1]}};
  auto rec = [&](outcome &o, auto v) { o.set(outcome::value, 0); gather_one(s.o[0], std::get<0>(v)); gather_one(s.o[1], std::get<1>(v)); };
  if (lv) client([&] { return cobalt::gather(a, b); }, rec, s.out, &s.after);
  else client([&] { return cobalt::gather(A{{&s.o[0]}}, B{{&s.o[1]}}); }, rec, s.out, &s.after);
  s.pump();
  gather_post(s);
  VP_COVER("end");
}
VP_CONTRACT(gather_2) { gather2<aw<>, aw<>>(true); }
VP_CONTRACT(gather_2_intr) { gather2<aw<>, iaw<>>(true); }
VP_CONTRACT(gather_2_rvalue) { gather2<iaw<>, aw<>>(false); }
VP_CONTRACT(gather_2_void) { gather2<aw<void>, aw<>>(true); }
VP_CONTRACT(gather_3)
{
  scene<3> s(false); s.reach = true;
  aw<> a{{&s.o[0]}}, b{{&s.o[1]}}, c{{&s.o[2]}};
  client([&] { return cobalt::gather(a, b, c); },
         [&](outcome &o, auto v) { o.set(outcome::value, 0); gather_one(s.o[0], std::get<0>(v)); gather_one(s.o[1], std::get<1>(v)); gather_one(s.o[2], std::get<2>(v)); }, s.out, &s.after);
  s.pump();
  gather_post(s);
  VP_COVER("end");
}
VP_CONTRACT(gather_interrupted)
{
  scene<3> s(false, 2);
  iaw<> a{{&s.o[0]}}, b{{&s.o[1]}}; aw<> c{{&s.o[2]}};
  client([&] { return cobalt::left_race(c, cobalt::gather(a, b)); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : 0); }, s.out, &s.after);
  interrupted_pump(s, false);
  VP_COVER("end");
}
