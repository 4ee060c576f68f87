// vp-level: bounded
// vp-bound: histories of at most 6 events (move, await, second await, complete, cancel, shut down) of one task with one suspension point
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/error.hpp>
#include <comb.hpp>
#include <optional>
using T = cobalt::task<u32>;
struct probe { unsigned *n; ~probe() { ++*n; } };
struct seen { unsigned started = 0, dead = 0; bool exec = false; };
T body(op *o, seen *s)
{
  probe p{&s->dead}; s->started++;
  s->exec = (co_await cobalt::this_coro::executor) == E().exec;
  co_return co_await aw<>{{o}};
}
cobalt::task<void> vbody(op *o, seen *s) { probe p{&s->dead}; s->started++; s->exec = (co_await cobalt::this_coro::executor) == E().exec; co_await aw<>{{o}}; }
template<class TT, class B> void kept(B bd)
{
  env_t env; op o, after; after.use_slot = false;
  cobalt::executor other{gexec(env.ctx, 1)}; cobalt::this_thread::set_executor(other);
  o.mode = -3; o.lazy_fail = true; o.v = vp_u32("v");
  seen s; outcome a, b; bool awaited = false, second = false, cancelled = false;
  vp_mark();
  {
  std::optional<TT> h[2]; unsigned c = 0;
  h[0].emplace(bd(&o, &s));
  if (vp_bool("move first")) { h[1].emplace(std::move(*h[0])); h[0].reset(); c = 1; }
  auto inv = [&]
  {
    VP_CHECK(s.started == (awaited ? 1u : 0u), "a task starts when it is awaited, not before, and once");
    VP_CHECK(!awaited || s.exec, "a task runs on the executor of its awaiter");
    VP_CHECK(s.dead == (o.completed ? 1u : 0u), "the frame goes away exactly when it is done");
    VP_CHECK(a.count == (awaited && o.completed ? 1u : 0u), "the awaiter is resumed exactly once, when it is done");
    VP_CHECK(b.count == (second ? 1u : 0u), "a second await fails at once");
  };
  auto result = [&](outcome &x) { VP_CHECK(o.aborted ? x.is_sys(asio::error::operation_aborted) : o.fail ? x.is_exc(o.v) : (x.kind == outcome::value && (std::is_same_v<TT, cobalt::task<void>> || x.v == o.v)), "the result is the one of the coroutine"); };
  auto await = [&](outcome &x, op *aft)
  {
    if constexpr (std::is_same_v<TT, cobalt::task<void>>) client_void([&]() -> TT & { return *h[c]; }, x, aft);
    else client([&]() -> TT & { return *h[c]; }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, x, aft);
  };
  for (unsigned n = 0; n < 6; n++)
  {
    inv();
    enum { end, await_, await2, complete, abort_, cancel_a, move_ } what[10]; unsigned k = 0;
    what[k++] = end;
    if (!awaited) what[k++] = await_;
    if (awaited && !o.completed && !second) what[k++] = await2;
    if (o.pending) what[k++] = complete;
    if (o.pending && o.abort_req) what[k++] = abort_;
    if (!cancelled && awaited) what[k++] = cancel_a;
    auto w = what[vp_choice("event", k)];
    if (w == end) break;
    unsigned oc = o.cancels; bool op_ = o.pending;
    switch (w)
    {
    case await_: awaited = true; await(a, &after); if (o.completed) result(a); break;
    case await2: second = true; await(b, nullptr); VP_CHECK(b.is_sys(cobalt::error::already_awaited), "a second await fails with already_awaited"); break;
    case complete: o.complete(); result(a); break;
    case abort_: o.abort(); result(a); break;
    case cancel_a: cancelled = true; env.sig.emit(asio::cancellation_type::total); VP_CHECK(o.cancels == oc + op_, "cancelling the awaiter reaches what the task waits on"); break;
    default: break;
    }
  }
  inv();
  if (o.pending) { o.complete(); inv(); result(a); }
  if (after.pending) { unsigned oc = o.cancels; env.sig.emit(asio::cancellation_type::total); VP_CHECK(o.cancels == oc, "a finished task is not cancelled through its former awaiter"); after.complete(); }
  inv();
  }
  VP_CHECK(s.started == (awaited ? 1u : 0u), "a task destroyed before it is awaited never runs");
  VP_CHECK(vp_live() == 0, "the frame is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(task_kept) { kept<T>(body); VP_COVER("end"); }
VP_CONTRACT(task_void) { kept<cobalt::task<void>>(vbody); VP_COVER("end"); }
VP_CONTRACT(task_shutdown)
{
  env_t env; op o, after; seen s; outcome a;
  vp_mark();
  {
    T h = body(&o, &s);
    client([&]() -> T & { return h; }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, a, &after);
    o.sl.clear(); o.pending = false; o.h.destroy();
    VP_CHECK(s.dead == 1 && a.count == 0, "a destroyed awaiter is not resumed");
  }
  VP_CHECK(s.dead == 1 && vp_live() == 0, "the frame is freed exactly once");
  VP_COVER("end");
}
// a temporary task awaited by another task: the usual call chain
T outer(op *o, seen *s, seen *s2) { probe p{&s2->dead}; s2->started++; co_return co_await body(o, s); }
VP_CONTRACT(task_chain)
{
  env_t env; op o, after; after.use_slot = false; o.mode = -3; o.lazy_fail = true; o.v = vp_u32("v"); seen s, s2; outcome a;
  vp_mark();
  client([&] { return outer(&o, &s, &s2); }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, a, &after);
  if (o.pending && vp_bool("cancel")) { env.sig.emit(asio::cancellation_type::partial); VP_CHECK(o.cancels == 1 && o.ct == asio::cancellation_type::partial, "cancellation passes through the chain"); }
  if (o.pending) { if (vp_bool("shutdown")) { o.sl.clear(); o.pending = false; o.h.destroy(); VP_CHECK(a.count == 0 && s.dead == 1 && s2.dead == 1 && vp_live() == 0, "shutting down frees the whole chain"); VP_COVER("shutdown"); return; }
    VP_CHECK(a.count == 0, "nobody is resumed before it is done"); if (o.abort_req && vp_bool("abort")) o.abort(); else o.complete(); }
  VP_CHECK(s.exec, "a task runs on the executor of its awaiter");
  VP_CHECK(a.count == 1 && s.dead == 1 && s2.dead == 1, "the chain ends exactly once");
  VP_CHECK(o.aborted ? a.is_sys(asio::error::operation_aborted) : o.fail ? a.is_exc(o.v) : a.is_value(o.v), "the result is the one of the innermost coroutine");
  env.sig.emit(asio::cancellation_type::partial);
  after.complete();
  VP_CHECK(vp_live() == 0, "the frames are freed");
  VP_COVER("end");
}
// a task that lost a race: interrupted if it is kept by its owner, cancelled if it belongs to the race; it ends once either way
T quiet(op *o, seen *s) { probe p{&s->dead}; s->started++; try { co_return co_await aw<>{{o}}; } catch (...) {} co_return 0; }
VP_CONTRACT(task_race)
{
  env_t env; op o, c, after; after.use_slot = false; o.mode = 1; o.lazy_fail = true; o.v = vp_u32("v"); c.mode = 1; c.v = vp_u32("c"); seen s; outcome r, b;
  unsigned idx = 9; bool kept = vp_bool("kept");
  vp_mark();
  {
    aw<> cw{{&c}};
    T h = quiet(&o, &s);
    auto rec = [&](outcome &x, auto v) { idx = v.index(); x.set(outcome::value, idx == 0 ? get<0>(v) : get<1>(v)); };
    if (kept) client([&] { return cobalt::left_race(cw, h); }, rec, r, &after);
    else client([&] { return cobalt::left_race(cw, std::move(h)); }, rec, r, &after);
    if (vp_bool("task first")) { o.complete(); VP_CHECK(c.cancels == 1, "the other is cancelled"); c.complete(); VP_CHECK(idx == 1 && r.is_value(o.fail ? 0 : o.v), "the task wins"); }
    else
    {
      c.complete();
      VP_CHECK(kept ? r.count == 1 && o.cancels == 0 : r.count == 0 && o.cancels == 1, "a kept task is interrupted, an owned one is cancelled and waited for");
      if (kept)
      {
        client([&]() -> T & { return h; }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, b, nullptr);
        VP_CHECK(b.is_sys(cobalt::error::already_awaited), "a running task cannot be awaited again");
      }
      if (kept && vp_bool("drop")) { T g(std::move(h)); }
      o.complete();
      VP_CHECK(r.count == 1 && r.is_value(c.v) && idx == 0, "the other wins");
    }
    after.complete();
  }
  VP_CHECK(s.started == 1 && s.dead == 1 && vp_live() == 0, "the frame is freed exactly once");
  VP_COVER("end");
}
