// vp-level: bounded
// vp-bound: ranges of 0 to 3 awaitables
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/race.hpp>
#include <join.hpp>
template<class A, unsigned N> void jranged(bool ext, int modes, bool lv)
{
  scene<N> s(ext, modes);
  std::vector<A> v; v.reserve(N);
  for (auto &o : s.o) v.push_back(A{{&o}});
  auto rec = [&](outcome &o, auto r) { VP_CHECK(r.size() == N, "one value per awaitable"); for (unsigned i = 0; i < N; i++) VP_CHECK(r[i] == s.o[i].v, "the values are yielded in argument order"); o.set(outcome::value, 0); };
  if (lv) client([&] { return cobalt::join(v); }, rec, s.out, &s.after);
  else client([&] { return cobalt::join(std::move(v)); }, rec, s.out, &s.after);
  s.pump();
  join_post(s);
  VP_COVER("end");
}
VP_CONTRACT(join_range_1) { jranged<aw<>, 1>(true, 3, true); }
VP_CONTRACT(join_range_2) { jranged<aw<>, 2>(true, 3, true); }
VP_CONTRACT(join_range_2_rvalue) { jranged<iaw<>, 2>(true, 3, false); }
VP_CONTRACT(join_range_3) { jranged<aw<>, 3>(false, 3, true); }
VP_CONTRACT(join_range_void)
{
  scene<2> s(true);
  std::vector<aw<void>> v{aw<void>{{&s.o[0]}}, aw<void>{{&s.o[1]}}};
  client_void([&] { return cobalt::join(v); }, s.out, &s.after);
  s.pump();
  join_post(s);
  VP_COVER("end");
}
VP_CONTRACT(join_range_empty)
{
  env_t env; outcome out; op after;
  std::vector<aw<>> v;
  client([&] { return cobalt::join(v); }, [&](outcome &o, auto r) { VP_CHECK(r.size() == 0, "no values"); o.set(outcome::value, 0); }, out, nullptr);
  while (env.ctx.run_one());
  VP_CHECK(out.is_value(0), "joining nothing completes at once");
  VP_COVER("end");
}
VP_CONTRACT(join_range_interrupted)
{
  scene<3> s(false, 2);
  std::vector<iaw<>> v{iaw<>{{&s.o[0]}}, iaw<>{{&s.o[1]}}}; aw<> c{{&s.o[2]}};
  client([&] { return cobalt::left_race(c, cobalt::join(v)); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : 0); }, s.out, &s.after);
  interrupted_pump(s);
  VP_COVER("end");
}
