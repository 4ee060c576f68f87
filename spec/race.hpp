#pragma once
#include <boost/cobalt/race.hpp>
#include <comb.hpp>
template<unsigned M> struct rng   // drives every permutation of up to 3 elements
{
  using result_type = std::uint8_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 255; }
  result_type operator()() { return result_type(vp_choice("rng", M) * (M == 2 ? 128 : 43)); }
};
template<unsigned N> void race_post(scene<N> &s, bool isvoid = false, bool ordered = false, bool losers = true, unsigned voidmask = 0)
{
  op *w = s.first();
  VP_CHECK(w && w->completed, "some awaitable completed");
  unsigned wi = unsigned(w - s.o);
  VP_CHECK(s.is_of(w, isvoid || (voidmask >> wi & 1)), "the outcome is the one of the awaitable that completed first");
  if (!(w->fail | w->aborted)) VP_CHECK(s.idx == wi, "the index is the one of the winner");
  if (losers)
    for (unsigned i = 0; i < N; i++)
      if (&s.o[i] != w && s.o[i].suspends && s.o[i].mode == 1)
        VP_CHECK(s.o[i].cancels + s.o[i].interrupts > 0, "every other started awaitable is cancelled or interrupted");
  if (ordered)
    for (unsigned i = 0; i < N; i++)
      if (s.o[i].readies && s.o[i].mode == 0) { VP_CHECK(wi <= i || s.o[wi].order < s.o[i].order, "the leftmost ready awaitable wins"); for (unsigned k = i + 1; k < N; k++) VP_CHECK(!s.o[k].started, "nothing right of a ready awaitable is started"); }
  s.close();
}
