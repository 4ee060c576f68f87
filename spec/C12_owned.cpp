// vp-level: proof
// vp-bounded join_range_owned: ranges of 2 awaitables
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/result.hpp>
#include <join.hpp>
// results that own memory: all are moved out on success, those that came before a failure are destroyed
VP_CONTRACT(join_owned)
{
  scene<2> s(false);
  auto rec = [&](outcome &o, std::tuple<box, box> v) { s.idx = 0; VP_CHECK(held(std::get<0>(v)) == s.o[0].v && held(std::get<1>(v)) == s.o[1].v, "the values are yielded in argument order"); o.set(outcome::value, 0); };
  if (vp_bool("kept")) { aw<box> a{{&s.o[0]}}; iaw<box> b{{&s.o[1]}}; client([&] { return cobalt::join(a, b); }, rec, s.out, &s.after); s.pump(); join_post(s); }
  else { client([&] { return cobalt::join(aw<box>{{&s.o[0]}}, aw<box>{{&s.o[1]}}); }, rec, s.out, &s.after); s.pump(); join_post(s); }
  VP_CHECK(vp_live() == 0, "every result is destroyed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(join_owned_result)
{
  scene<2> s(false);
  aw<box> a{{&s.o[0]}}; aw<void> b{{&s.o[1]}};
  client([&] { return cobalt::as_result(cobalt::join(a, b)); },
         [&](outcome &o, auto r) { if (r.has_error()) from_exception(o, r.error()); else { s.idx = 0; VP_CHECK(held(std::get<0>(*r)) == s.o[0].v, "the values are yielded in argument order"); o.set(outcome::value, 0); } }, s.out, &s.after);
  s.pump(); join_post(s);
  VP_CHECK(vp_live() == 0, "every result is destroyed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(join_range_owned)
{
  scene<2> s(false);
  {
    std::vector<aw<box>> v{{{&s.o[0]}}, {{&s.o[1]}}};
    client([&] { return cobalt::join(v); }, [&](outcome &o, auto r) { s.idx = 0; VP_CHECK(r.size() == 2 && held(r[0]) == s.o[0].v && held(r[1]) == s.o[1].v, "the values are yielded in argument order"); o.set(outcome::value, 0); }, s.out, &s.after);
    s.pump(); join_post(s);
  }
  VP_CHECK(vp_live() == 0, "every result is destroyed exactly once");
  VP_COVER("end");
}
