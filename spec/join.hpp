#pragma once
#include <comb.hpp>
template<unsigned N> void join_post(scene<N> &s)
{
  op *f = nullptr;   // the first failure
  for (unsigned i = 0; i < N; i++)
  {
    VP_CHECK(s.o[i].completed && s.o[i].readies == 1 && s.o[i].resumes == 1, "every awaitable is awaited to its end, once");
    if ((s.o[i].fail | s.o[i].aborted) && (!f || s.o[i].order < f->order)) f = &s.o[i];
  }
  if (!f) VP_CHECK(s.out.kind == outcome::value, "it succeeds if all succeed");
  else
  {
    VP_CHECK(s.is_of(f), "the exception is the one of the first failure");
    for (unsigned i = 0; i < N; i++)
      if (s.o[i].suspends && s.o[i].mode == 1 && s.o[i].order > f->order) VP_CHECK(s.o[i].cancels + s.o[i].interrupts > 0, "the first failure cancels or interrupts the remaining ones");
  }
  s.close();
}
// s.o[2] races against a combination of the interruptible o[0], o[1]
inline void interrupted_pump(scene<3> &s, bool cancels = true)
{
  while (true)
  {
    bool pend = s.o[0].pending | s.o[1].pending | s.o[2].pending;
    bool p0 = s.o[0].pending, p1 = s.o[1].pending, both = cancels & (s.o[0].fail | s.o[0].aborted | s.o[1].fail | s.o[1].aborted), before = s.o[2].completed;
    VP_CHECK(s.out.count == 0 || !pend, "the awaiter is not resumed before every started awaitable finished");
    if (!step(s.p, 3)) break;
    if (!before && s.o[2].completed && !s.o[2].aborted && !both)
    {
      if (p0) VP_CHECK(s.o[0].interrupts + s.o[0].cancels > 0, "interrupting the combination interrupts what it waits for");
      if (p1) VP_CHECK(s.o[1].interrupts + s.o[1].cancels > 0, "interrupting the combination interrupts what it waits for");
    }
  }
  VP_CHECK(s.out.count == 1, "the awaiter is resumed exactly once");
  s.close();
}
