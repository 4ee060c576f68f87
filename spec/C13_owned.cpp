// vp-level: proof
// vp-bounded gather_range_owned: ranges of 2 awaitables
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/race.hpp>
#include <gather.hpp>
#include <join.hpp>
template<class R> void one(const op &o, R &r)
{
  if ((o.fail | o.aborted) == 0) { VP_CHECK(r.has_value(), "a successful awaitable is reported as such"); VP_CHECK(held(*r) == o.v, "each value is reported in argument order"); }
  else { VP_CHECK(r.has_error(), "a failed awaitable is reported as failed"); outcome x; from_exception(x, r.error()); VP_CHECK(o.aborted ? x.is_sys(asio::error::operation_aborted) : x.is_exc(o.v), "each failure is reported with its own exception"); }
}
VP_CONTRACT(gather_owned)
{
  scene<2> s(false); s.reach = true;
  auto rec = [&](outcome &o, auto v) { o.set(outcome::value, 0); one(s.o[0], std::get<0>(v)); one(s.o[1], std::get<1>(v)); };
  if (vp_bool("kept")) { aw<box> a{{&s.o[0]}}; iaw<box> b{{&s.o[1]}}; client([&] { return cobalt::gather(a, b); }, rec, s.out, &s.after); s.pump(); gather_post(s); }
  else { client([&] { return cobalt::gather(aw<box>{{&s.o[0]}}, aw<box>{{&s.o[1]}}); }, rec, s.out, &s.after); s.pump(); gather_post(s); }
  VP_CHECK(vp_live() == 0, "every result is destroyed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(gather_range_owned)
{
  scene<2> s(false); s.reach = true;
  {
    std::vector<aw<box>> v{{{&s.o[0]}}, {{&s.o[1]}}};
    client([&] { return cobalt::gather(v); }, [&](outcome &o, auto r) { o.set(outcome::value, 0); VP_CHECK(r.size() == 2, "one result per awaitable"); one(s.o[0], r[0]); one(s.o[1], r[1]); }, s.out, &s.after);
    s.pump(); gather_post(s);
  }
  VP_CHECK(vp_live() == 0, "every result is destroyed exactly once");
  VP_COVER("end");
}
