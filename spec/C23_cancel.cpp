// vp-level: bounded
// vp-bound: scripts of at most 4 steps (await, cancel during an await, reset the state, switch throw_if_cancelled); every cancellation type value
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <comb.hpp>
using ct_t = asio::cancellation_type;
inline ct_t mask(unsigned f) { return f == 0 ? ct_t::none : f == 1 ? ct_t::terminal : f == 2 ? ct_t::terminal | ct_t::partial : ct_t::terminal | ct_t::partial | ct_t::total; }
enum { max_ops = 8 };
struct script
{
  env_t env; op o[max_ops]; unsigned n = 0, steps; op *cur_op = nullptr; unsigned gone = 0, ended = 0; bool detached = false;
  // the specified state
  ct_t cur{}, in = mask(3), out = mask(3); bool flag = true;
  script(unsigned steps) : steps(steps) { vp_mark(); }
  void cancelled(ct_t t) { cur = in & t; }
  // emit: how the environment cancels the coroutine
  template<class Emit> void run(Emit emit)
  {
    while (cur_op)
    {
      auto p = cur_op; cur_op = nullptr;
      for (unsigned k = 0; k < 2 && vp_bool("cancel"); k++)
      {
        ct_t t = (ct_t)vp_u32("type"); unsigned c = p->cancels; p->ct = ct_t::none;
        ct_t seen = in & t, fwd = out & seen;
        emit(t); cancelled(t);
        VP_CHECK(p->cancels == c + (fwd != ct_t::none), "a cancellation reaches the operation exactly if no filter blocks it");
        VP_CHECK(p->ct == fwd, "the operation sees the filtered cancellation type");
      }
      p->complete();
    }
  }
};
struct guard { unsigned *n; ~guard() { ++*n; } };
// the body, the same for every kind of coroutine
#define VP_SCRIPT(s) \
  guard g{&s->gone}; \
  for (unsigned i = 0; i < s->steps; i++) \
  { \
    VP_CHECK((co_await cobalt::this_coro::cancelled) == s->cur, "this_coro::cancelled tells the cancellation so far"); \
    VP_CHECK((co_await asio::this_coro::cancellation_state).cancelled() == s->cur, "the cancellation state tells the cancellation so far"); \
    VP_CHECK((co_await asio::this_coro::throw_if_cancelled()) == s->flag, "throw_if_cancelled tells the setting"); \
    unsigned what = vp_choice("step", 8); \
    if (what == 0) break; \
    else if (what == 1) \
    { \
      op *o = &s->o[s->n++]; o->mode = vp_choice("mode", 2); o->react = false; \
      bool must = (s->cur != ct_t::none) & s->flag, threw = false; \
      if (o->mode == 1 && !must) s->cur_op = o; \
      try { co_await aw<void>{{o}}; } \
      catch (boost::system::system_error &e) { threw = true; VP_CHECK(e.code() == asio::error::operation_aborted, "it throws operation_aborted"); } \
      VP_CHECK(threw == must, "an await throws exactly if the coroutine was cancelled and is to throw"); \
      VP_CHECK(o->started == !must, "the awaitable is not touched in this case"); \
    } \
    else if (what == 2) { co_await asio::this_coro::reset_cancellation_state(); s->cur = ct_t::none; s->in = s->out = mask(3); } \
    else if (what == 3) { co_await asio::this_coro::reset_cancellation_state(asio::disable_cancellation()); s->cur = ct_t::none; s->in = s->out = mask(0); } \
    else if (what == 4) { co_await asio::this_coro::reset_cancellation_state(asio::enable_terminal_cancellation()); s->cur = ct_t::none; s->in = s->out = mask(1); } \
    else if (what == 5) { co_await asio::this_coro::reset_cancellation_state(asio::enable_partial_cancellation(), asio::disable_cancellation()); s->cur = ct_t::none; s->in = mask(2); s->out = mask(0); } \
    else if (what == 6) { co_await asio::this_coro::throw_if_cancelled(false); s->flag = false; } \
    else { co_await asio::this_coro::throw_if_cancelled(true); s->flag = true; } \
  } \
  s->ended++;

cobalt::promise<void> pbody(script *s) { VP_SCRIPT(s) }
cobalt::task<void> tbody(script *s) { VP_SCRIPT(s) }
cobalt::generator<u32> gbody(script *s) { VP_SCRIPT(s) co_return 0; }
cobalt::detached dbody(script *s, asio::cancellation_slot sl) { co_await cobalt::this_coro::reset_cancellation_source(sl); VP_SCRIPT(s) }
VP_CONTRACT(cancel_promise)
{
  script s(4);
  {
    auto p = pbody(&s);
    s.run([&](ct_t t) { p.cancel(t); });
    VP_CHECK(s.ended == 1 && s.gone == 1, "the coroutine ends");
    p.cancel((ct_t)vp_u32("late")); VP_CHECK(p.ready(), "cancelling a finished coroutine has no effect"); p.get();
  }
  VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end");
}
VP_CONTRACT(cancel_task)
{
  script s(3); outcome out; op after;
  client_void([&] { return tbody(&s); }, out, &after);
  s.run([&](ct_t t) { s.env.sig.emit(t); });
  VP_CHECK(s.ended == 1 && s.gone == 1 && out.kind == outcome::value, "the coroutine ends");
  s.env.sig.slot().clear(); after.complete();
  VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end");
}
VP_CONTRACT(cancel_generator)
{
  script s(3); outcome out; op after;
  client_void([&] { return gbody(&s); }, out, &after);
  s.run([&](ct_t t) { s.env.sig.emit(t); });
  VP_CHECK(s.ended == 1 && s.gone == 1 && out.kind == outcome::value, "the coroutine ends");
  s.env.sig.slot().clear(); after.complete();
  VP_CHECK(vp_live() == 0, "everything is freed"); VP_COVER("end");
}
VP_CONTRACT(cancel_detached)
{
  script s(3);
  dbody(&s, s.env.sig.slot());
  s.run([&](ct_t t) { s.env.sig.emit(t); });
  VP_CHECK(s.ended == 1 && s.gone == 1, "the coroutine ends");
  VP_CHECK(vp_live() == 0 || s.env.sig.slot().has_handler(), "everything is freed"); s.env.sig.slot().clear();
  VP_COVER("end");
}
