// vp-level: bounded
// vp-bound: one promise with one suspension point whose result owns memory, awaited or read once at any time
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/error.hpp>
#include <boost/cobalt/result.hpp>
#include <comb.hpp>
#include <optional>
struct probe { unsigned *n; ~probe() { ++*n; } };
cobalt::promise<box> body(op *o, unsigned *dead) { probe p{dead}; co_return co_await aw<box>{{o}}; }
VP_CONTRACT(promise_owned)
{
  env_t env; op o, after; after.use_slot = false; o.mode = -3; o.lazy_fail = true; o.v = vp_u32("v"); outcome a; unsigned dead = 0;
  vp_mark();
  {
    std::optional<cobalt::promise<box>> h; h.emplace(body(&o, &dead));
    auto rec = [&](outcome &x, box b) { x.set(outcome::value, held(b)); };
    unsigned how = vp_choice("awaited: before the end, after it, get(), as_result, never", 5); bool lv = vp_bool("lvalue");
    if (how == 4)
    {
      if (vp_bool("dropped early")) { +std::move(*h); h.reset(); }
      if (o.pending) { o.fail = false; o.lazy_fail = false; o.complete(); }
    }
    else
    {
      auto start = [&]
      {
        if (how == 3)
        {
          auto rr = [&](outcome &x, boost::system::result<box, std::exception_ptr> r) { if (r.has_value()) x.set(outcome::value, held(*r)); else from_exception(x, r.error()); };
          if (lv) client([&] { return cobalt::as_result(*h); }, rr, a, &after); else client([&] { return cobalt::as_result(std::move(*h)); }, rr, a, &after);
        }
        else if (lv) client([&]() -> cobalt::promise<box> & { return *h; }, rec, a, &after); else client([&]() -> cobalt::promise<box> && { return std::move(*h); }, rec, a, &after);
      };
      bool late = how == 1 || how == 2 || (how == 3 && vp_bool("late"));
      if (!late) start();
      if (o.pending) { VP_CHECK(a.count == 0, "the awaiter is not resumed early"); o.complete(); }
      if (how == 2) { VP_CHECK(h->ready(), "a promise that ended is ready"); try { rec(a, h->get()); } catch (...) { from_current_exception(a); } }
      else if (late) start();
      VP_CHECK(a.count == 1 && (o.fail ? a.is_exc(o.v) : a.is_value(o.v)), "the result is the one of the coroutine");
      if (after.pending) after.complete();
    }
  }
  VP_CHECK(dead == 1, "the frame goes away once");
  VP_CHECK(vp_live() == 0, "the result and the frame are freed exactly once");
  VP_COVER("end");
}
