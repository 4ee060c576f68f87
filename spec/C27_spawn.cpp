// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/noop.hpp>
#include <boost/cobalt/error.hpp>
#include <comb.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/bind_allocator.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/detached.hpp>
using T = cobalt::task<u32>; using V = cobalt::task<void>; using boost::system::error_code;
struct probe { unsigned *n; ~probe() { ++*n; } };
struct heap_t : cobalt::pmr::memory_resource
{
  unsigned n = 0, total = 0;
  void *do_allocate(std::size_t s, std::size_t) override { n++; total++; return ::operator new(s); }
  void do_deallocate(void *p, std::size_t, std::size_t) override { n--; ::operator delete(p); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
struct context { cobalt::executor e; using executor_type = cobalt::executor; executor_type get_executor() { return e; } };
struct seen_t { unsigned started = 0, dead = 0, frames = 0; bool exec = false; int tag = -2; };
// the sp_t: a task spawned on executor 1, its handler bound to executor 2
struct sp_t
{
  env_t env; cobalt::executor on{gexec(env.ctx, 1)}, back{gexec(env.ctx, 2)}; op o; seen_t s; heap_t res; asio::cancellation_signal sig; unsigned called = 0, gone = 0; outcome out; bool has_slot;
  sp_t() { o.mode = -3; o.lazy_fail = true; o.v = vp_u32("v"); has_slot = vp_bool("slot"); vp_mark(); }
};
T body(sp_t *c) { probe p{&c->s.dead}; c->s.started++; c->s.tag = c->env.ctx.running; c->s.exec = (co_await cobalt::this_coro::executor) == c->on; co_return co_await aw<>{{&c->o}}; }
V vbody(sp_t *c) { probe p{&c->s.dead}; c->s.started++; c->s.tag = c->env.ctx.running; c->s.exec = (co_await cobalt::this_coro::executor) == c->on; co_await aw<>{{&c->o}}; }
// the completion handler: it counts its calls, and its last copy to go away
struct last { unsigned *n; explicit last(unsigned *n) : n(n) {} last(last &&l) : n(l.n) { l.n = nullptr; } ~last() { if (n) ++*n; } };
struct done
{
  sp_t *c; last l; unsigned char big[16];
  void seen()
  {
    VP_CHECK(++c->called == 1, "the completion handler is invoked exactly once"); VP_CHECK(c->env.ctx.running == 2, "the completion runs on the executor of the handler, posted");
    VP_CHECK(c->res.n == 0, "the memory of the operation is released before its completion"); VP_CHECK(c->s.dead == c->s.started, "the task is gone when its completion runs");
  }
  void operator()(std::exception_ptr e, u32 v) { seen(); if (e) from_exception(c->out, e); else c->out.set(outcome::value, v); }
  void operator()(std::exception_ptr e) { seen(); if (e) from_exception(c->out, e); else c->out.set(outcome::value, 0); }
};
template<typename TT> void start(sp_t &c, TT t)
{
  auto h = asio::bind_executor(c.back, asio::bind_allocator(cobalt::pmr::polymorphic_allocator<void>(&c.res), done{&c, last(&c.gone)}));
  bool ctx = vp_bool("context"); context k{c.on};
  if (c.has_slot) { auto hs = asio::bind_cancellation_slot(c.sig.slot(), std::move(h)); if (ctx) cobalt::spawn(k, std::move(t), std::move(hs)); else cobalt::spawn(c.on, std::move(t), std::move(hs)); }
  else if (ctx) cobalt::spawn(k, std::move(t), std::move(h)); else cobalt::spawn(c.on, std::move(t), std::move(h));
  VP_CHECK(c.called == 0, "the completion is never run inline of the initiation");
}
void ends(sp_t &c)
{
  c.sig.slot().clear(); c.env.ctx.clear();
  VP_CHECK(c.gone == 1, "the handler is destroyed exactly once"); VP_CHECK(c.res.n == 0 && vp_live() == 0, "everything is freed exactly once");
}
template<typename TT, typename B> void run_spawn(B b)
{
  sp_t c; bool cancelled = false;
  start<TT>(c, b(&c));
  VP_CHECK(c.s.started == 0, "ghost: nothing runs inline on this executor");
  if (vp_bool("discard at once")) { c.env.ctx.clear(); VP_CHECK(c.called == 0 && c.s.started == 0, "discarded work is destroyed, not run"); ends(c); vp_cover_("discarded"); return; }
  if (c.has_slot && vp_bool("cancel before")) { cancelled = true; c.sig.emit(asio::cancellation_type::terminal); }
  while (c.env.ctx.head && !c.s.started) c.env.ctx.run_one();
  // a task that is cancelled before its first await ends in that await
  bool early = cancelled && !c.o.started;
  VP_CHECK(c.s.started == 1 && c.s.tag == 1 && (early || c.s.exec), "the task runs on the executor it was spawned on");
  if (cancelled) while (c.env.ctx.head && c.env.ctx.head->tag == 1) c.env.ctx.run_one();
  if (c.o.pending)
  {
    VP_CHECK(c.called == 0, "the completion follows the end of the task");
    if (c.has_slot && !cancelled && vp_bool("cancel"))
    {
      cancelled = true; unsigned n = c.o.cancels; c.sig.emit(asio::cancellation_type::partial); while (c.env.ctx.run_one());
      VP_CHECK(c.o.cancels == n + 1 && c.o.ct == asio::cancellation_type::partial, "a cancellation reaches the task");
    }
    if (vp_bool("destroy")) { c.o.sl.clear(); c.o.pending = false; c.o.h.destroy(); c.env.ctx.run(); VP_CHECK(c.called == 0 && c.s.dead == 1, "a destroyed task does not complete"); ends(c); vp_cover_("destroyed"); return; }
    if (c.o.abort_req) c.o.abort(); else c.o.complete();
  }
  VP_CHECK(c.s.dead == 1 && c.called == 0, "the completion is posted");
  if (c.has_slot && vp_bool("cancel after the end"))
  {
    c.sig.emit(asio::cancellation_type::partial);
    while (c.env.ctx.head && c.env.ctx.head->tag == 1) c.env.ctx.run_one();
  }
  if (vp_bool("discard completion")) { c.env.ctx.clear(); VP_CHECK(c.called == 0, "discarded work is destroyed, not run"); ends(c); vp_cover_("discarded completion"); return; }
  c.env.ctx.run();
  VP_CHECK(c.called == 1, "the completion handler is invoked exactly once");
  VP_CHECK(early || c.o.aborted ? c.out.is_sys(asio::error::operation_aborted) : c.o.fail ? c.out.is_exc(c.o.v) : (c.out.kind == outcome::value && (std::is_same_v<TT, V> || c.out.v == c.o.v)), "the completion has the value or the exception of the task");
  if (c.has_slot) { c.sig.emit(asio::cancellation_type::total); c.env.ctx.run(); }
  ends(c);
}
VP_CONTRACT(spawn_value) { run_spawn<T>(body); VP_COVER("end"); }
VP_CONTRACT(spawn_void) { run_spawn<V>(vbody); VP_COVER("end"); }

// tasks that are done already: not run, and completed with what they have
VP_CONTRACT(spawn_done)
{
  sp_t c; u32 v = vp_u32("value"); bool is_void = vp_bool("void"), moved = vp_bool("moved"); if (is_void) v = 0;
  c.s.dead = 0;
  if (moved)
  {
    // the task was moved away before
    if (is_void) { V t = vbody(&c); { V u(std::move(t)); } start<V>(c, std::move(t)); } else { T t = body(&c); { T u(std::move(t)); } start<T>(c, std::move(t)); }
  }
  else if (is_void) start<V>(c, V(cobalt::noop())); else start<T>(c, T(cobalt::noop<u32>(v)));
  if (vp_bool("discard")) { c.env.ctx.clear(); VP_CHECK(c.called == 0, "discarded work is destroyed, not run"); ends(c); VP_COVER("discarded"); return; }
  c.env.ctx.run();
  VP_CHECK(c.called == 1 && c.s.started == 0, "the completion handler is invoked exactly once");
  if (moved) VP_CHECK(c.out.kind == outcome::sys, "a task that was moved away is an error"); else VP_CHECK(c.out.is_value(v), "the completion has the value of the task");
  ends(c); VP_COVER("end");
}

// awaited from a coroutine on another executor
template<typename TT, typename B, typename R> void awaited(B b, R rec, bool discard = false)
{
  sp_t c; c.has_slot = true; outcome r; op after; after.use_slot = false; bool cancelled = false;
  if constexpr (std::is_same_v<TT, V>) client_void([&] { return cobalt::spawn(c.on, b(&c), cobalt::use_op); }, r, &after);
  else client([&] { return cobalt::spawn(c.on, b(&c), cobalt::use_op); }, rec, r, &after);
  VP_CHECK(r.count == 0 && c.s.started == 0, "ghost: nothing runs inline on this executor");
  while (c.env.ctx.head && !c.s.started) c.env.ctx.run_one();
  VP_CHECK(c.s.started == 1 && c.s.tag == 1 && c.s.exec, "the task runs on the executor it was spawned on");
  if (c.o.pending)
  {
    VP_CHECK(r.count == 0, "the awaiter is resumed after the end of the task");
    if (vp_bool("cancel")) { c.env.sig.emit(asio::cancellation_type::partial); while (c.env.ctx.run_one()); VP_CHECK(c.o.cancels == 1 && c.o.ct == asio::cancellation_type::partial, "a cancellation reaches the task"); }
    if (c.o.abort_req) c.o.abort(); else c.o.complete();
  }
  VP_CHECK(r.count == 0, "the completion is posted");
  if (discard) { c.env.ctx.clear(); VP_CHECK(r.count == 0, "discarded work is destroyed, not run"); c.env.sig.slot().clear(); VP_CHECK(c.s.dead == 1 && vp_live() == 0, "everything is freed exactly once"); return; }
  // a cancellation that comes after the task ended is left behind by the completion
  if (vp_bool("cancel after the end")) { c.env.sig.emit(asio::cancellation_type::partial); c.env.ctx.run_one(); } else c.env.ctx.run();
  VP_CHECK(r.count == 1 && c.s.dead == 1, "the awaiter is resumed exactly once");
  VP_CHECK(c.o.aborted ? r.is_sys(asio::error::operation_aborted) : c.o.fail ? r.is_exc(c.o.v) : (r.kind == outcome::value && (std::is_same_v<TT, V> || r.v == c.o.v)), "the result is the value or the exception of the task");
  after.complete(); c.env.ctx.run(); c.env.sig.slot().clear(); VP_CHECK(vp_live() == 0, "everything is freed exactly once");
}
VP_CONTRACT(spawn_awaited) { awaited<T>(body, [](outcome &x, u32 v) { x.set(outcome::value, v); }); VP_COVER("end"); }
VP_CONTRACT(spawn_awaited_void) { awaited<V>(vbody, [](outcome &, u32) {}); VP_COVER("end"); }
// the completion of an awaited spawn is discarded (its execution context goes away)
VP_CONTRACT(spawn_awaited_discard) { awaited<T>(body, [](outcome &x, u32 v) { x.set(outcome::value, v); }, true); VP_COVER("end"); }
VP_CONTRACT(spawn_awaited_void_discard) { awaited<V>(vbody, [](outcome &, u32) {}, true); VP_COVER("end"); }
VP_CONTRACT(spawn_and_forget)
{
  sp_t c; c.o.lazy_fail = true; cobalt::spawn(c.on, body(&c), asio::detached); c.env.ctx.run(); if (c.o.pending) c.o.complete(); c.env.ctx.run();
  VP_CHECK(c.s.dead == 1 && vp_live() == 0, "everything is freed exactly once"); VP_COVER("end");
}

// ---- detached
struct dscene
{
  env_t env; op o, p; unsigned dead = 0, started = 0, ended = 0, caught = 0; bool exec = false; asio::cancellation_signal sig; cobalt::executor other{gexec(env.ctx, 3)}; bool throws = false; outcome out;
  dscene() { o.mode = -3; p.mode = -3; o.v = vp_u32("v"); o.lazy_fail = true; vp_mark(); }
};
cobalt::detached det(dscene *s)
{
  probe p{&s->dead}; s->started++; s->exec = (co_await cobalt::this_coro::executor) == s->env.exec;
  try { u32 v = co_await aw<>{{&s->o}}; s->out.set(outcome::value, v); } catch (...) { from_current_exception(s->out); }
  co_await aw<>{{&s->p}};
  s->ended++;
}
cobalt::detached det_on(dscene *s, asio::executor_arg_t, cobalt::executor)
{
  probe p{&s->dead}; s->started++; s->exec = (co_await cobalt::this_coro::executor) == s->other;
  try { u32 v = co_await aw<>{{&s->o}}; s->out.set(outcome::value, v); } catch (...) { from_current_exception(s->out); }
  co_await aw<>{{&s->p}};
  s->ended++;
}
VP_CONTRACT(detached_runs)
{
  dscene s; if (vp_bool("on")) det_on(&s, asio::executor_arg, s.other); else det(&s);
  VP_CHECK(s.started == 1, "a detached coroutine starts at once"); VP_CHECK(s.exec, "a detached coroutine has its executor");
  for (int i = 0; i < 2; i++)
  {
    op &o = i ? s.p : s.o;
    if (!o.pending) continue;
    VP_CHECK(s.dead == 0 && s.ended == 0, "a suspended coroutine stays alive on its own");
    if (vp_bool("destroy")) { o.pending = false; o.h.destroy(); VP_CHECK(s.dead == 1 && s.ended == 0 && vp_live() == 0, "the frame is freed exactly once"); VP_COVER("destroyed"); return; }
    o.complete();
  }
  VP_CHECK(s.out.count == 1 && (s.o.fail ? s.out.is_exc(s.o.v) : s.out.is_value(s.o.v)), "its awaits have their results");
  VP_CHECK(s.ended == 1 && s.dead == 1, "a detached coroutine runs to its end"); VP_CHECK(vp_live() == 0, "the frame is freed exactly once"); VP_CHECK(!s.env.ctx.head, "nothing is left behind");
  VP_COVER("end");
}
cobalt::detached det_cancel(dscene *s)
{
  probe p{&s->dead}; co_await cobalt::this_coro::reset_cancellation_source(s->sig.slot());
  try { u32 v = co_await aw<>{{&s->o}}; s->out.set(outcome::value, v); } catch (...) { from_current_exception(s->out); }
  s->ended++;
}
VP_CONTRACT(detached_cancel)
{
  dscene s; s.o.mode = 1; det_cancel(&s);
  auto ct = (asio::cancellation_type)(1 + vp_choice("type", 7));
  if (vp_bool("cancel")) { s.sig.emit(ct); VP_CHECK(s.o.cancels == 1 && s.o.ct == ct, "a cancellation of the source it was given reaches the coroutine"); VP_CHECK(s.dead == 0, "it ends on its own"); }
  if (s.o.abort_req && vp_bool("abort")) { s.o.abort(); VP_CHECK(s.out.is_sys(asio::error::operation_aborted), "its await is cancelled"); } else s.o.complete();
  VP_CHECK(s.ended == 1 && s.dead == 1, "a detached coroutine runs to its end"); s.sig.emit(ct); s.sig.slot().clear(); VP_CHECK(vp_live() == 0, "the frame is freed exactly once");
  VP_COVER("end");
}
cobalt::detached det_throw(dscene *s) { s->started++; u32 v = co_await aw<>{{&s->o}}; s->out.set(outcome::value, v); }
VP_CONTRACT(detached_throws)
{
  dscene s; s.o.mode = -2; bool threw = false;
  try { det_throw(&s); if (s.o.pending) s.o.complete(); } catch (thrown &t) { threw = t.id == s.o.v; }
  VP_CHECK(threw == s.o.fail, "an exception that leaves it reaches whoever started or resumed it"); VP_CHECK(s.o.fail || s.out.is_value(s.o.v), "its awaits have their results");
  VP_COVER("end");
}
// a result that owns memory
cobalt::task<box> obody(sp_t *c) { probe p{&c->s.dead}; c->s.started++; c->s.tag = c->env.ctx.running; c->s.exec = (co_await cobalt::this_coro::executor) == c->on; co_return co_await aw<box>{{&c->o}}; }
VP_CONTRACT(spawn_awaited_owned) { awaited<cobalt::task<box>>(obody, [](outcome &x, box b) { x.set(outcome::value, held(b)); }); VP_COVER("end"); }
VP_CONTRACT(spawn_awaited_owned_discard) { awaited<cobalt::task<box>>(obody, [](outcome &x, box b) { x.set(outcome::value, held(b)); }, true); VP_COVER("end"); }
