// vp-level: bounded
// vp-bound: ranges of 0 to 3 awaitables
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/race.hpp>
#include <gather.hpp>
#include <join.hpp>
template<class A, unsigned N> void granged(bool ext, bool lv)
{
  scene<N> s(ext); s.reach = true;
  std::vector<A> v; v.reserve(N);
  for (auto &o : s.o) v.push_back(A{{&o}});
  auto rec = [&](outcome &o, auto r) { o.set(outcome::value, 0); VP_CHECK(r.size() == N, "one result per awaitable"); for (unsigned i = 0; i < N; i++) gather_one(s.o[i], r[i]); };
  if (lv) client([&] { return cobalt::gather(v); }, rec, s.out, &s.after);
  else client([&] { return cobalt::gather(std::move(v)); }, rec, s.out, &s.after);
  s.pump();
  gather_post(s);
  VP_COVER("end");
}
VP_CONTRACT(gather_range_1) { granged<aw<>, 1>(true, true); }
VP_CONTRACT(gather_range_2) { granged<aw<>, 2>(true, true); }
VP_CONTRACT(gather_range_2_rvalue) { granged<iaw<>, 2>(true, false); }
VP_CONTRACT(gather_range_2_void) { granged<aw<void>, 2>(true, true); }
VP_CONTRACT(gather_range_3) { granged<aw<>, 3>(false, true); }
VP_CONTRACT(gather_range_empty)
{
  env_t env; outcome out;
  std::vector<aw<>> v;
  client([&] { return cobalt::gather(v); }, [&](outcome &o, auto r) { VP_CHECK(r.size() == 0, "no results"); o.set(outcome::value, 0); }, out, nullptr);
  while (env.ctx.run_one());
  VP_CHECK(out.is_value(0), "gathering nothing completes at once");
  VP_COVER("end");
}
VP_CONTRACT(gather_range_interrupted)
{
  scene<3> s(false, 2);
  std::vector<iaw<>> v{iaw<>{{&s.o[0]}}, iaw<>{{&s.o[1]}}}; aw<> c{{&s.o[2]}};
  client([&] { return cobalt::left_race(c, cobalt::gather(v)); },
         [&](outcome &o, auto v) { s.idx = v.index(); o.set(outcome::value, s.idx == 0 ? get<0>(v) : 0); }, s.out, &s.after);
  interrupted_pump(s, false);
  VP_COVER("end");
}
