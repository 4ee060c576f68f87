// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error
// vp-assume: run() is verified against asio's real single threaded io_context and std::future; the pool resource of the standard library is modelled (lib/rt.cpp) as passing every block through to its upstream
#include <boost/cobalt/run.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/asio/executor.hpp>
#include <boost/asio/post.hpp>
#include <comb.hpp>
#include <optional>
namespace tt = cobalt::this_thread; namespace pmr = std::pmr;
struct seen_t
{
  unsigned n = 0, dead = 0, done = 0; pmr::memory_resource *before = nullptr; std::optional<cobalt::executor> old;
  void inside(cobalt::executor x, pmr::memory_resource *mine = nullptr)
  {
    VP_CHECK(tt::has_executor() && tt::get_executor() == x, "the executor of the thread is the one the coroutine runs on");
    VP_CHECK(!old || x != *old, "the coroutine runs on a context of its own");
    VP_CHECK(tt::get_default_resource() != before && (!mine || tt::get_default_resource() == mine), "the coroutine has a default resource of its own");
  }
};
struct probe { unsigned *n; ~probe() { ++*n; } };
struct later { cobalt::executor x; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { asio::post(x, [h] { h.resume(); }); } void await_resume() {} };
cobalt::promise<u32> inner(u32 v, cobalt::executor x, bool wait) { if (wait) co_await later{x}; co_return v; }
template<typename T> cobalt::task<T> body(seen_t *s, u32 v, bool fail, bool wait)
{
  probe p{&s->dead}; s->n++;
  auto x = co_await cobalt::this_coro::executor; auto r = tt::get_default_resource();
  s->inside(x);
  if (wait) { co_await later{x}; s->inside(x, r); }
  VP_CHECK(co_await inner(v, x, wait) == v, "a promise inside works");
  s->inside(x, r); s->done++;
  if (fail) throw thrown{v};
  if constexpr (!std::is_void_v<T>) co_return v;
}
// before: nothing or an executor set, the default resource of the program or another one
struct before
{
  gctx c; pmr::monotonic_buffer_resource other{pmr::new_delete_resource()}; pmr::memory_resource *r0 = tt::get_default_resource(); bool set, res;
  before(seen_t &s) : set(vp_bool("executor set")), res(vp_bool("resource set"))
  {
    if (set) { cobalt::executor x = gexec(c, 5); tt::set_executor(x); s.old.emplace(x); }
    if (res) tt::set_default_resource(&other);
    s.before = tt::get_default_resource();
  }
  void restored(seen_t &s)
  {
    VP_CHECK(tt::has_executor() == set, "the executor is restored");
    if (set) VP_CHECK(tt::get_executor() == *s.old, "the executor is restored");
    VP_CHECK(tt::get_default_resource() == s.before, "the default resource is restored");
    VP_CHECK(c.queued == 0 && c.executed == 0, "nothing runs on the executor of the caller");
  }
  ~before() { tt::set_default_resource(r0); }
};
template<typename T> void run_once()
{
  seen_t s; before b(s); outcome o; u32 v = vp_u32("v"); bool fail = vp_bool("fail"), wait = vp_bool("wait");
  try { if constexpr (std::is_void_v<T>) { cobalt::run(body<T>(&s, v, fail, wait)); o.set(outcome::value, 0); } else o.set(outcome::value, cobalt::run(body<T>(&s, v, fail, wait))); } catch (...) { from_current_exception(o); }
  VP_CHECK(s.n == 1 && s.dead == 1 && s.done == 1, "run runs the task to its end");
  VP_CHECK(fail ? o.is_exc(v) : o.is_value(std::is_void_v<T> ? 0 : v), "run yields the result of the task");
  b.restored(s);
}
VP_CONTRACT(run_value) { run_once<u32>(); VP_COVER("end"); }
VP_CONTRACT(run_void) { run_once<void>(); VP_COVER("end"); }
// a result that owns memory
cobalt::task<box> obody(u32 v, bool fail, bool wait) { auto x = co_await cobalt::this_coro::executor; if (wait) co_await later{x}; if (fail) throw thrown{v}; co_return box(v); }
VP_CONTRACT(run_owned)
{
  outcome o; u32 v = vp_u32("v"); bool fail = vp_bool("fail"), wait = vp_bool("wait");
  vp_mark();
  try { auto b = cobalt::run(obody(v, fail, wait)); o.set(outcome::value, held(b)); } catch (...) { from_current_exception(o); }
  VP_CHECK(fail ? o.is_exc(v) : o.is_value(v), "run yields the result of the task");
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
cobalt::task<u32> outer(seen_t *so, seen_t *si, u32 v, bool fail, bool wait)
{
  probe p{&so->dead}; so->n++; auto x = co_await cobalt::this_coro::executor; auto r = tt::get_default_resource(); so->inside(x);
  outcome o; si->old.emplace(x); si->before = r;
  try { o.set(outcome::value, cobalt::run(body<u32>(si, v, fail, wait))); } catch (...) { from_current_exception(o); }
  VP_CHECK(si->n == 1 && si->dead == 1, "run runs the task to its end");
  VP_CHECK(fail ? o.is_exc(v) : o.is_value(v), "run yields the result of the task");
  so->inside(x, r);
  co_await later{x};
  so->inside(x, r); so->done++;
  co_return v;
}
VP_CONTRACT(run_nested)
{
  seen_t so, si; before b(so); u32 v = vp_u32("v");
  VP_CHECK(cobalt::run(outer(&so, &si, v, vp_bool("fail"), vp_bool("wait"))) == v, "the outer run yields its result");
  VP_CHECK(so.dead == 1 && so.done == 1, "run runs the task to its end");
  b.restored(so);
  VP_COVER("end");
}
// one run after the other
VP_CONTRACT(run_twice)
{
  seen_t s, t; before b(s); t.old = s.old; t.before = s.before; u32 v = vp_u32("v"); outcome o; bool fail = vp_bool("fail");
  try { o.set(outcome::value, cobalt::run(body<u32>(&s, v, fail, false))); } catch (...) { from_current_exception(o); }
  b.restored(s);
  VP_CHECK(cobalt::run(body<u32>(&t, v, false, true)) == v, "run yields the result of the task");
  b.restored(t);
  VP_COVER("end");
}
