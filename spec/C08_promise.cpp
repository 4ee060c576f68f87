// vp-level: bounded
// vp-bound: histories of at most 6 events (await, second await, complete, cancel, move, detach, drop, shut down) of one promise with one suspension point
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/error.hpp>
#include <comb.hpp>
#include <optional>
using P = cobalt::promise<u32>;
struct probe { unsigned *n; ~probe() { ++*n; } };
P body(op *o, unsigned *dead) { probe p{dead}; co_return co_await aw<>{{o}}; }
P quiet(op *o, unsigned *dead, outcome *in)
{
  probe p{dead};
  try { auto v = co_await aw<>{{o}}; in->set(outcome::value, v); co_return v; } catch (...) { from_current_exception(*in); }
  co_return 7;
}
// the owner keeps the promise until it is done
VP_CONTRACT(promise_kept)
{
  env_t env; op o, after; after.use_slot = false;
  o.mode = -3; o.lazy_fail = true; o.v = vp_u32("v");
  unsigned dead = 0; outcome a, b; bool awaited = false, second = false, cancelled = false, moved = false, got = false;
  vp_mark();
  {
  std::optional<P> h[2]; unsigned c = 0;
  h[0].emplace(body(&o, &dead));
  VP_CHECK(o.started, "a promise starts immediately");
  auto inv = [&]
  {
    VP_CHECK(h[c]->ready() == o.completed, "ready() says whether it is done");
    VP_CHECK(bool(*h[c]) == !(o.completed && (a.count || got)), "the bool conversion says whether a result can be had");
    VP_CHECK(dead == (o.completed ? 1u : 0u), "the frame goes away exactly when it is done");
    VP_CHECK(a.count == (awaited && o.completed ? 1u : 0u), "the awaiter is resumed exactly once, when it is done");
    VP_CHECK(b.count == (second ? 1u : 0u), "a second await fails at once");
    VP_CHECK(h[c]->attached(), "a promise stays attached");
  };
  auto result = [&](outcome &x) { VP_CHECK(o.aborted ? x.is_sys(asio::error::operation_aborted) : o.fail ? x.is_exc(o.v) : x.is_value(o.v), "the result is the one of the coroutine"); };
  for (unsigned n = 0; n < 6; n++)
  {
    inv();
    enum { end, await_, await2, complete, abort_, cancel_p, cancel_a, move_, get_ } what[10]; unsigned k = 0;
    what[k++] = end;
    if (!awaited && !got) what[k++] = await_;
    if (awaited && !o.completed && !second) what[k++] = await2;
    if (o.pending) what[k++] = complete;
    if (o.pending && o.abort_req) what[k++] = abort_;
    if (!cancelled) { what[k++] = cancel_p; if (awaited) what[k++] = cancel_a; }
    if (!moved && !(awaited && !o.completed)) what[k++] = move_;
    if (o.completed && !got) what[k++] = get_;
    auto w = what[vp_choice("event", k)];
    if (w == end) break;
    unsigned oc = o.cancels; bool op_ = o.pending;
    switch (w)
    {
    case await_: awaited = true; client([&]() -> P & { return *h[c]; }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, a, &after); if (o.completed) result(a); break;
    case await2: second = true; client([&]() -> P & { return *h[c]; }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, b, nullptr); VP_CHECK(b.is_sys(cobalt::error::already_awaited), "a second await fails with already_awaited"); break;
    case complete: o.complete(); if (awaited) result(a); break;
    case abort_: o.abort(); if (awaited) result(a); break;
    case cancel_p: cancelled = true; h[c]->cancel(); VP_CHECK(o.cancels == oc + op_, "cancel() reaches what the promise waits on, unless it is done"); break;
    case cancel_a: cancelled = true; env.sig.emit(asio::cancellation_type::total); VP_CHECK(o.cancels == oc + op_, "cancelling the awaiter reaches what the promise waits on"); break;
    case move_: moved = true; if (vp_bool("assign")) { op d; d.mode = 0; unsigned dd = 0; h[1].emplace(body(&d, &dd)); *h[1] = std::move(*h[0]); } else h[1].emplace(std::move(*h[0])); c = 1; h[0].reset(); VP_CHECK(o.cancels == oc, "moving does not cancel"); break;
    case get_: { got = true; outcome x; try { u32 v = h[c]->get(); x.set(outcome::value, v); } catch (...) { from_current_exception(x); } result(x); break; }
    default: break;
    }
  }
  inv();
  if (o.pending) { o.complete(); inv(); if (awaited) result(a); }
  if (after.pending) { unsigned oc = o.cancels; env.sig.emit(asio::cancellation_type::total); VP_CHECK(o.cancels == oc, "a finished promise is not cancelled through its former awaiter"); after.complete(); }
  inv();
  }
  VP_CHECK(dead == 1, "the frame is freed exactly once");
  VP_CHECK(vp_live() == 0, "nothing is leaked");
  VP_COVER("end");
}
// the owner drops or detaches it while it is running
VP_CONTRACT(promise_dropped)
{
  env_t env; op o;
  o.mode = -3; o.lazy_fail = true; o.v = vp_u32("v");
  unsigned dead = 0; outcome in;
  vp_mark();
  {
    std::optional<P> h{quiet(&o, &dead, &in)};
    bool det = false; unsigned explicit_cancels = 0;
    if (vp_bool("cancel")) { h->cancel(); explicit_cancels += o.pending; }
    switch (vp_choice("how", 5))
    {
    case 0: break;
    case 1: h->detach(); det = true; break;
    case 2: h->detach(); h->attach(); break;
    case 3: +std::move(*h); det = true; break;
    case 4: { std::optional<P> g; h->detach(); g.emplace(std::move(*h)); VP_CHECK(!g->attached(), "moving keeps it detached"); h.reset(); h.emplace(std::move(*g)); det = true; break; }
    }
    VP_CHECK(h->attached() == !det, "attached() says whether it is attached");
    bool pend = o.pending;
    VP_CHECK(o.cancels == explicit_cancels, "only cancel() has cancelled so far");
    if (vp_bool("overwrite")) { op d; d.mode = 0; unsigned dd = 0; outcome x; *h = quiet(&d, &dd, &x); }
    else h.reset();
    VP_CHECK(o.cancels == explicit_cancels + (pend && !det), "dropping cancels exactly if it is attached and running");
    VP_CHECK(dead == (pend ? 0u : 1u), "dropping does not end a running coroutine");
    if (pend) { if (o.abort_req && vp_bool("abort")) o.abort(); else o.complete(); }
    VP_CHECK(in.count == 1, "the coroutine runs to its end");
    VP_CHECK(o.aborted ? in.is_sys(asio::error::operation_aborted) : o.fail ? in.is_exc(o.v) : in.is_value(o.v), "the coroutine sees the result of its operation");
  }
  VP_CHECK(dead == 1, "the frame is freed exactly once");
  VP_CHECK(vp_live() == 0, "nothing is leaked");
  VP_COVER("end");
}
// the operation it waits on is destroyed (the execution context is shut down)
VP_CONTRACT(promise_shutdown)
{
  env_t env; op o, after;
  unsigned dead = 0; outcome a;
  vp_mark();
  {
    std::optional<P> h{body(&o, &dead)};
    bool awaited = vp_bool("awaited");
    if (awaited) client([&]() -> P & { return *h; }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, a, &after);
    else if (vp_bool("move")) { P q(std::move(*h)); h.reset(); h.emplace(std::move(q)); }
    else if (vp_bool("drop")) h.reset();
    o.sl.clear(); o.pending = false; o.h.destroy();
    VP_CHECK(dead == 1, "the frame is freed exactly once");
    VP_CHECK(a.count == 0, "a destroyed awaiter is not resumed");
    if (h && !awaited)
    {
      VP_CHECK(h->ready(), "it is done");
      outcome x; try { h->get(); } catch (...) { from_current_exception(x); }
      VP_CHECK(x.is_sys(cobalt::error::completed_unexpected), "get() reports completed_unexpected");
    }
  }
  VP_CHECK(dead == 1, "the frame is freed exactly once");
  VP_CHECK(vp_live() == 0, "nothing is leaked");
  VP_COVER("end");
}
cobalt::promise<void> vbody(op *o, unsigned *dead) { probe p{dead}; co_await aw<>{{o}}; }
VP_CONTRACT(promise_void)
{
  env_t env; op o, after; after.use_slot = false;
  o.mode = -3; o.lazy_fail = true; o.v = vp_u32("v");
  unsigned dead = 0; outcome a;
  vp_mark();
  {
    auto h = vbody(&o, &dead);
    if (o.pending && vp_bool("complete before the await")) o.complete();
    client_void([&]() -> cobalt::promise<void> & { return h; }, a, &after);
    if (o.pending) { if (vp_bool("cancel")) env.sig.emit(asio::cancellation_type::terminal); if (o.abort_req && vp_bool("abort")) o.abort(); else o.complete(); }
    VP_CHECK(a.count == 1, "the awaiter is resumed exactly once");
    VP_CHECK(o.aborted ? a.is_sys(asio::error::operation_aborted) : o.fail ? a.is_exc(o.v) : a.kind == outcome::value, "the result is the one of the coroutine");
    VP_CHECK(!h && h.ready(), "nothing is left");
    after.complete();
  }
  VP_CHECK(dead == 1 && vp_live() == 0, "the frame is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(promise_noop)
{
  env_t env; op after; after.use_slot = false; outcome a; u32 v = vp_u32("v");
  {
    P p{cobalt::noop<u32>(v)};
    VP_CHECK(p.ready() && p && !p.attached(), "a noop promise is ready");
    if (vp_bool("move")) { P q(std::move(p)); p = std::move(q); }
    if (vp_bool("cancel")) p.cancel();
    client([&]() -> P & { return p; }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, a, nullptr);
    VP_CHECK(a.is_value(v) && !p, "a noop promise yields its value");
  }
  VP_COVER("end");
}
#include <boost/cobalt/race.hpp>
// losing a race interrupts the wait on the promise, not the promise: it can be awaited again
VP_CONTRACT(promise_interrupted)
{
  env_t env; op o, c, after; after.use_slot = false;
  o.mode = -2; o.lazy_fail = true; o.v = vp_u32("v"); c.mode = 1; c.v = vp_u32("c");
  unsigned dead = 0; outcome r, a; unsigned idx = 9;
  vp_mark();
  {
    P h = body(&o, &dead); aw<> cw{{&c}};
    client([&] { return cobalt::left_race(cw, h); }, [&](outcome &x, auto v) { idx = v.index(); x.set(outcome::value, idx == 0 ? get<0>(v) : get<1>(v)); }, r, nullptr);
    if (o.completed) { VP_CHECK(c.cancels > 0, "the other is cancelled"); if (c.pending) c.complete(); VP_CHECK(o.fail ? r.is_exc(o.v) : r.is_value(o.v), "the ready promise wins"); }
    else if (vp_bool("promise first"))
    {
      o.complete(); VP_CHECK(c.cancels > 0, "the other is cancelled"); c.complete();
      VP_CHECK(o.fail ? r.is_exc(o.v) : r.is_value(o.v), "the promise wins");
    }
    else
    {
      c.complete();
      VP_CHECK(r.is_value(c.v) && idx == 0, "the other wins");
      VP_CHECK(!h.ready() && o.pending && bool(h), "the promise keeps running");
      VP_CHECK(o.cancels == 0, "the promise is interrupted, not cancelled");
      if (vp_bool("move")) { P q(std::move(h)); h = std::move(q); }
      client([&]() -> P & { return h; }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, a, &after);
      VP_CHECK(a.count == 0, "awaiting it again waits");
      o.complete();
      VP_CHECK(a.count == 1 && (o.fail ? a.is_exc(o.v) : a.is_value(o.v)), "awaiting it again yields its result");
      after.complete();
    }
  }
  VP_CHECK(dead == 1 && vp_live() == 0, "the frame is freed exactly once");
  VP_COVER("end");
}
// nobody is left to receive the exception: it goes to whoever resumed the coroutine
VP_CONTRACT(promise_ownerless_throw)
{
  env_t env; op o; o.fail = true; o.v = vp_u32("v");
  unsigned dead = 0; outcome r;
  vp_mark();
  { P h = body(&o, &dead); h.detach(); }
  try { o.complete(); } catch (...) { from_current_exception(r); }
  VP_CHECK(r.is_exc(o.v), "the exception reaches the resumer");
  VP_CHECK(dead == 1, "the coroutine is unwound");
  VP_CHECK(vp_live() == 0, "the frame of an ownerless promise that throws is freed");
  VP_COVER("end");
}
