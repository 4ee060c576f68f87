// vp-level: bounded
// vp-bound: a chain of two tasks with one suspension point whose result owns memory
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/error.hpp>
#include <boost/cobalt/result.hpp>
#include <comb.hpp>
#include <optional>
using T = cobalt::task<box>;
struct probe { unsigned *n; ~probe() { ++*n; } };
T body(op *o, unsigned *dead) { probe p{dead}; co_return co_await aw<box>{{o}}; }
T outer(op *o, unsigned *d1, unsigned *d2, box arg) { probe p{d2}; box r = co_await body(o, d1); VP_CHECK(held(arg) == 7, "an argument lives as long as its coroutine"); co_return std::move(r); }
VP_CONTRACT(task_owned)
{
  env_t env; op o, after; after.use_slot = false; o.mode = -3; o.lazy_fail = true; o.v = vp_u32("v"); outcome a; unsigned d1 = 0, d2 = 0;
  vp_mark();
  {
    auto rec = [](outcome &x, box b) { x.set(outcome::value, held(b)); };
    auto rr = [](outcome &x, boost::system::result<box, std::exception_ptr> r) { if (r.has_value()) x.set(outcome::value, held(*r)); else from_exception(x, r.error()); };
    std::optional<T> h; unsigned how = vp_choice("awaited: temporary, kept, as_result, never", 4);
    if (how == 0) client([&] { return outer(&o, &d1, &d2, box(7)); }, rec, a, &after);
    else
    {
      h.emplace(outer(&o, &d1, &d2, box(7)));
      if (vp_bool("moved")) { T g(std::move(*h)); h.reset(); h.emplace(std::move(g)); }
      if (how == 1) { if (vp_bool("lvalue")) client([&]() -> T & { return *h; }, rec, a, &after); else client([&]() -> T && { return std::move(*h); }, rec, a, &after); }
      if (how == 2) client([&] { return cobalt::as_result(std::move(*h)); }, rr, a, &after);
    }
    if (how != 3)
    {
      bool destroyed = false;
      if (o.pending && vp_bool("destroy")) { destroyed = true; o.sl.clear(); o.pending = false; o.h.destroy(); }
      if (o.pending) { VP_CHECK(a.count == 0, "the awaiter is not resumed early"); o.complete(); }
      if (!destroyed) VP_CHECK(a.count == 1 && (o.fail ? a.is_exc(o.v) : a.is_value(o.v)), "the result is the one of the coroutine");
      else VP_CHECK(a.count == 0, "a destroyed awaiter is not resumed");
      VP_CHECK(d1 == 1 && d2 == 1, "the frames go away once");
      if (after.pending) after.complete();
    }
  }
  VP_CHECK(vp_live() == 0, "the result, the arguments and the frames are freed exactly once");
  VP_COVER("end");
}
