// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/error.hpp>
#include <comb.hpp>

// the resource: alive until the teardown completed, wherever it was moved to
struct res
{
  static unsigned &alive() { static unsigned n; return n; }
  bool owner = true;
  res() { alive()++; }
  res(res &&r) : owner(r.owner) { r.owner = false; }
  ~res() { if (owner) alive()--; }
};
struct with_env
{
  env_t env; op body, down, after; op *p[2]{&body, &down}; outcome out;
  unsigned bodies = 0, downs = 0; bool sync_throw_body = false, sync_throw_down = false; std::uint32_t bv, dv; bool async;
  with_env(bool async) : async(async)
  {
    res::alive() = 0; after.mode = 1;
    body.mode = async ? -3 : 0; down.mode = -3; body.v = bv = vp_u32("body"); down.v = dv = vp_u32("teardown");
    body.fail = vp_bool("body fails"); down.fail = vp_bool("teardown fails");
    if (body.fail) sync_throw_body = !async || vp_bool("body throws when called");
    if (down.fail) sync_throw_down = vp_bool("teardown throws when called");
    body.react = vp_bool("body reacts"); 
    vp_mark();
  }
  void on_body() { bodies++; VP_CHECK(res::alive() == 1, "the resource is alive in the body"); if (sync_throw_body) { throw thrown{bv}; } }
  bool body_failed() const { return body.fail | body.aborted; }
  void on_down(std::exception_ptr e)
  {
    downs++;
    VP_CHECK(bodies == 1, "the teardown follows the body");
    VP_CHECK(!async || sync_throw_body || body.completed, "the teardown runs after the body finished");
    VP_CHECK(res::alive() == 1, "the resource is alive in the teardown");
    VP_CHECK(!!e == body_failed(), "the teardown gets an exception exactly if the body failed");
    if (e)
    {
      outcome o; from_exception(o, e);
      VP_CHECK(body.aborted ? o.is_sys(asio::error::operation_aborted) : o.is_exc(bv), "the teardown gets the exception of the body");
    }
    e = nullptr;
    if (sync_throw_down) throw thrown{dv};
  }
  void inv()
  {
    VP_CHECK(bodies <= 1, "the body runs once"); VP_CHECK(downs <= 1, "the teardown runs once");
    bool done = bodies == 1 && (sync_throw_body || !async || body.completed) && downs == 1 && (sync_throw_down || down.completed);
    VP_CHECK(out.count == done, "with completes once, exactly when the teardown completed");
    if (!done) VP_CHECK(res::alive() == 1, "the resource lives until the teardown completed");
  }
  template<bool Value> void finish()
  {
    bool cancelled = false, ext = vp_bool("external cancellation");
    for (unsigned i = 0; i < 4; i++)
    {
      inv();
      if (out.count) break;
      if (ext && !cancelled && vp_bool("cancel now"))
      {
        cancelled = true; unsigned b = body.cancels, d = down.cancels; bool bp = body.pending, dp = down.pending;
        env.sig.emit(asio::cancellation_type::terminal);
        VP_CHECK(body.cancels == b + bp && down.cancels == d + dp, "cancellation reaches the part that is running");
        continue;
      }
      if (!step(p, 2)) break;
    }
    inv();
    VP_CHECK(out.count == 1, "with completes");
    VP_CHECK(res::alive() == 0, "the resource is gone afterwards");
    VP_CHECK(body.cancels + down.cancels <= cancelled, "nothing is cancelled without a request");
    if (body_failed())
      VP_CHECK(body.aborted ? out.is_sys(asio::error::operation_aborted) : out.is_exc(bv), "the exception of the body reaches the awaiter");
    else if (down.fail | down.aborted)
      VP_CHECK(down.aborted ? out.is_sys(asio::error::operation_aborted) : out.is_exc(dv), "the exception of the teardown reaches the awaiter");
    else
      VP_CHECK(out.is_value(Value ? bv : 0), "the result of the body is returned");
    after.complete();
    VP_CHECK(vp_live() == 0, "everything is freed exactly once");
    VP_COVER("end");
  }
};
auto rec = [](outcome &o, std::uint32_t v) { o.set(outcome::value, v); };
struct teardown { with_env *e; aw<void> operator()(res &&, std::exception_ptr x) && { e->on_down(x); return {{&e->down}}; } aw<void> operator()(res &, std::exception_ptr x) && { e->on_down(x); return {{&e->down}}; } };
VP_CONTRACT(with_async_void)
{
  with_env e(true);
  client_void([&] { return cobalt::with(res{}, [&e](res &) -> aw<void> { e.on_body(); return {{&e.body}}; }, teardown{&e}); }, e.out, &e.after);
  e.finish<false>(); VP_COVER("end");
}
VP_CONTRACT(with_async_value)
{
  with_env e(true);
  client([&] { return cobalt::with(res{}, [&e](res &) -> aw<> { e.on_body(); return {{&e.body}}; }, teardown{&e}); }, rec, e.out, &e.after);
  e.finish<true>(); VP_COVER("end");
}
VP_CONTRACT(with_sync_void)
{
  with_env e(false);
  client_void([&] { return cobalt::with(res{}, [&e](res &) -> void { e.on_body(); }, teardown{&e}); }, e.out, &e.after);
  e.finish<false>(); VP_COVER("end");
}
VP_CONTRACT(with_sync_value)
{
  with_env e(false);
  client([&] { return cobalt::with(res{}, [&e](res &) -> std::uint32_t { e.on_body(); return e.bv; }, teardown{&e}); }, rec, e.out, &e.after);
  e.finish<true>(); VP_COVER("end");
}
// the two-argument form uses await_exit of the resource
struct exiting : res { with_env *e; exiting(with_env *e) : e(e) {} exiting(exiting &&) = default; aw<void> await_exit(std::exception_ptr x) { e->on_down(x); return {{&e->down}}; } };
VP_CONTRACT(with_await_exit)
{
  with_env e(true);
  client([&] { return cobalt::with(exiting{&e}, [&e](res &) -> aw<> { e.on_body(); return {{&e.body}}; }); }, rec, e.out, &e.after);
  e.finish<true>(); VP_COVER("end");
}
// the executor discards what the body or the teardown waits on
VP_CONTRACT(with_shutdown)
{
  with_env e(true); vp_assume(e.body.mode < 0); bool in_body = vp_bool("in body"); unsigned gone = 0;
  e.body.mode = in_body; e.down.mode = 1;
  [](with_env &e, unsigned *gone) -> root
  {
    struct d { unsigned *n; ~d() { ++*n; } } g{gone};
    try { rec(e.out, co_await cobalt::with(res{}, [&e](res &) -> aw<> { e.on_body(); return {{&e.body}}; }, teardown{&e})); } catch (...) { from_current_exception(e.out); }
  }(e, &gone);
  op *o = e.body.pending ? &e.body : e.down.pending ? &e.down : nullptr;
  if (o)
  {
    VP_CHECK(gone == 0 && e.out.count == 0, "the awaiter waits");
    o->sl.clear(); o->pending = false; o->h.destroy();
    VP_CHECK(e.out.count == 0 && e.downs == (o == &e.down), "a destroyed awaiter is not resumed");
    VP_COVER("discarded");
  }
  VP_CHECK(gone == 1, "the awaiter ends exactly once");
  VP_CHECK(res::alive() == 0, "the resource is gone afterwards");
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
// a result that owns memory
VP_CONTRACT(with_owned)
{
  bool async = vp_bool("async"); with_env e(async);
  auto rb = [](outcome &o, box b) { o.set(outcome::value, held(b)); };
  if (async) client([&] { return cobalt::with(res{}, [&e](res &) -> aw<box> { e.on_body(); return {{&e.body}}; }, teardown{&e}); }, rb, e.out, &e.after);
  else client([&] { return cobalt::with(res{}, [&e](res &) -> box { e.on_body(); return box(e.bv); }, teardown{&e}); }, rb, e.out, &e.after);
  e.finish<true>(); VP_COVER("end");
}
