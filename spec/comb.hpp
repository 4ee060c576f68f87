// Scenes for the combinators: N arbitrary awaitables (ghost contract) under one subject awaited by an arbitrary client.
#pragma once
#include <ghost.hpp>
#include <boost/system/result.hpp>
#include <vector>
namespace cobalt = boost::cobalt;
using namespace vp;
using u32 = std::uint32_t;

template<unsigned N> struct scene
{
  env_t env; op o[N]; op *p[N]; op after; outcome out; unsigned idx = 99; bool ext, cancelled = false; bool reach = false;
  asio::cancellation_type ect = asio::cancellation_type::total;
  scene(bool ext, int modes = 3) : ext(ext)
  {
    for (unsigned i = 0; i < N; i++) { p[i] = &o[i]; o[i].mode = -modes; o[i].lazy_fail = true; o[i].v = vp_u32("v"); }
    after.use_slot = false;
    vp_mark();
  }
  void ext_cancel()
  {
    cancelled = true;
    bool pend[N]; unsigned c[N]; bool none = true;
    for (unsigned i = 0; i < N; i++) { none = none & !o[i].completed & !o[i].began; c[i] = o[i].cancels; pend[i] = o[i].pending; }
    env.sig.emit(ect);
    for (unsigned i = 0; i < N; i++)
      if (pend[i] && (none || reach)) { VP_CHECK(o[i].cancels > c[i], "cancellation from outside reaches every pending awaitable"); VP_CHECK((o[i].ct & ect) == ect, "cancellation from outside keeps its type"); }
  }
  void pump()
  {
    while (true)
    {
      if (ext && !cancelled && !out.count && vp_bool("cancel now")) ext_cancel();
      bool pend = false;
      for (unsigned i = 0; i < N; i++) pend = pend | o[i].pending;
      VP_CHECK(out.count == 0 || !pend, "the awaiter is not resumed before every started awaitable finished");
      if (!step(p, N)) break;
    }
    VP_CHECK(out.count == 1, "the awaiter is resumed exactly once");
  }
  // afterwards, cancelling the awaiter must be harmless, and everything is freed
  void close()
  {
    for (unsigned i = 0; i < N; i++) VP_CHECK(o[i].readies <= 1 && o[i].resumes <= 1, "each awaitable is awaited at most once");
    env.sig.emit(asio::cancellation_type::terminal);
    after.complete();
  }
  op *first()
  {
    op *w = nullptr;
    for (unsigned i = 0; i < N; i++) if (o[i].began) return &o[i];
    for (unsigned i = 0; i < N; i++) if (o[i].completed && (!w || o[i].order < w->order)) w = &o[i];
    return w;
  }
  // the recorded outcome is the one of w
  bool is_of(op *w, bool isvoid = false)
  {
    if (w->aborted) return out.is_sys(asio::error::operation_aborted);
    if (w->fail) return out.is_exc(w->v);
    return isvoid ? out.kind == outcome::value : out.is_value(w->v);
  }
};
