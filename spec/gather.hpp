#pragma once
#include <comb.hpp>
template<class R> void gather_one(const op &o, const R &r)
{
  if (o.fail | o.aborted)
  {
    VP_CHECK(r.has_error(), "a failed awaitable is reported as failed");
    outcome x; from_exception(x, r.error());
    VP_CHECK(o.aborted ? x.is_sys(asio::error::operation_aborted) : x.is_exc(o.v), "each failure is reported with its own exception");
  }
  else
  {
    VP_CHECK(r.has_value(), "a successful awaitable is reported as such");
    if constexpr (requires { *r == o.v; }) VP_CHECK(*r == o.v, "each value is reported in argument order");
  }
}
template<unsigned N> void gather_post(scene<N> &s, bool cancelled_by_others = false)
{
  VP_CHECK(s.out.kind == outcome::value, "gather itself never fails");
  for (unsigned i = 0; i < N; i++)
  {
    VP_CHECK(s.o[i].completed && s.o[i].readies == 1 && s.o[i].resumes == 1, "every awaitable is awaited to its end, once");
    if (!s.cancelled) VP_CHECK(s.o[i].cancels + s.o[i].interrupts == 0, "a failure does not cancel the others");
  }
  s.close();
}
