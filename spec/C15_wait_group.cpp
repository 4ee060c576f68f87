// vp-level: bounded
// vp-bound: at most 2 promises, histories of at most 6 events (push, completion, cancellation, reap, wait_one, wait)
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/wait_group.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/error.hpp>
#include <comb.hpp>
#include <optional>

inline cobalt::promise<void> job(op *o, unsigned *dead) { struct d { unsigned *n; ~d() { ++*n; } } g{dead}; co_await aw<void>{{o}}; }
template<unsigned M> struct group_hist
{
  env_t env; std::optional<cobalt::wait_group> wg; unsigned dead = 0;
  op o[M]; op *p[M]; unsigned n = 0; bool gone[M] = {};    // gone: removed from the group, according to the specification
  outcome out; enum { none, one, all, exit_ } waiting = none; unsigned size0 = 0; bool cancelled = false, ext = false;
  asio::cancellation_type normal, except; bool with_cancel;
  group_hist(bool with_cancel) : with_cancel(with_cancel)
  {
    for (unsigned i = 0; i < M; i++) { p[i] = &o[i]; o[i].mode = -2; o[i].lazy_fail = !with_cancel; o[i].v = vp_u32("v"); }
    normal = asio::cancellation_type::none; except = asio::cancellation_type::all;
    if (with_cancel) { if (vp_bool("cancel normally")) { normal = asio::cancellation_type::partial; except = asio::cancellation_type::none; } }
    vp_mark();
    wg.emplace(normal, except);
  }
  unsigned size() const { unsigned k = 0; for (unsigned i = 0; i < n; i++) k += !gone[i]; return k; }
  unsigned finished() const { unsigned k = 0; for (unsigned i = 0; i < n; i++) k += !gone[i] && o[i].completed; return k; }
  bool failed(unsigned i) const { return o[i].fail | o[i].aborted; }
  void push() { unsigned i = n++; wg->push_back(job(&o[i], &dead)); VP_CHECK(o[i].started, "a pushed promise runs"); }
  // the wait ended: which promise left the group is observed by the size and by which one was done
  void settle()
  {
    if (waiting == none || !out.count) return;
    auto w = waiting; waiting = none;
    if (w == one)
    {
      VP_CHECK(wg->size() == size() - (size() > 0), "wait_one() removes exactly one promise");
      if (size())
      {
        VP_CHECK(finished() > 0, "wait_one() completes only when a promise completed");
        bool found = false;
        // one of the completed promises with this outcome is gone
        for (unsigned i = 0; i < n && !found; i++) if (!gone[i] && o[i].completed)
        {
          bool match = o[i].aborted ? out.is_sys(asio::error::operation_aborted) : o[i].fail ? out.is_exc(o[i].v) : out.kind == outcome::value;
          if (match && candidates() == 1) { gone[i] = true; found = true; }
          else if (match && vp_bool("this one")) { gone[i] = true; found = true; }
        }
        if (!found) { unsigned m = 0; for (unsigned i = 0; i < n; i++) m += matches(i); if (m) vp_assume(false); }
        VP_CHECK(found, "wait_one() reports the outcome of a promise that completed");
      }
      else VP_CHECK(out.kind == outcome::value, "waiting on an empty group succeeds");
    }
    else
    {
      VP_CHECK(out.kind == outcome::value, "waiting for all promises does not fail");
      VP_CHECK(finished() == size(), "wait() completes only when every promise completed");
      for (unsigned i = 0; i < n; i++) gone[i] = true;
      VP_CHECK(wg->size() == 0, "wait() leaves the group empty");
    }
    out = {};
  }
  bool matches(unsigned i) const { return !gone[i] && o[i].completed && (o[i].aborted ? out.is_sys(asio::error::operation_aborted) : o[i].fail ? out.is_exc(o[i].v) : out.kind == outcome::value); }
  unsigned candidates() const { unsigned k = 0; for (unsigned i = 0; i < n; i++) k += matches(i); return k; }
  void inv()
  {
    settle();
    if (waiting == none) VP_CHECK(wg->size() == size(), "size() counts the promises not yet removed");
    else
    {
      VP_CHECK(waiting != one || finished() == 0, "wait_one() does not wait while a promise is ready");
      VP_CHECK(waiting == one || finished() < size(), "wait() does not wait once every promise completed");
    }
  }
  void await_()
  {
    unsigned w = with_cancel ? 3 * vp_choice("wait", 2) : vp_choice("wait", n == 1 ? 3 : 2);
    if (w == 0) { waiting = one; client_void([&]() -> decltype(auto) { return wg->wait_one(); }, out, nullptr); }
    else if (w == 1) { waiting = all; client_void([&]() -> decltype(auto) { return wg->wait(); }, out, nullptr); }
    else if (w == 2) { waiting = all; client_void([&]() -> decltype(auto) { return *wg; }, out, nullptr); }
    else
    {
      waiting = exit_; bool ex = vp_bool("exception"); auto ct = ex ? except : normal;
      unsigned c[M]; bool pe[M]; for (unsigned i = 0; i < n; i++) { c[i] = o[i].cancels; pe[i] = o[i].pending; }
      auto aw = wg->await_exit(ex ? std::make_exception_ptr(thrown{7}) : nullptr);
      for (unsigned i = 0; i < n; i++)
      {
        VP_CHECK(o[i].cancels == c[i] + (pe[i] && ct != asio::cancellation_type::none), "await_exit() cancels every running promise as configured");
        if (o[i].cancels > c[i]) VP_CHECK(o[i].ct == (ct & (asio::cancellation_type::terminal | asio::cancellation_type::partial | asio::cancellation_type::total)) || o[i].cancels > 1, "await_exit() uses the configured cancellation type");
      }
      client_void([&]() -> decltype(auto) { return aw; }, out, nullptr);
    }
  }
  void run(unsigned events)
  {
    for (unsigned e = 0; e < events; e++)
    {
      inv();
      enum { push_, step_, reap_, await__, cancel_, ext_, end_ } what[8]; unsigned k = 0;
      what[k++] = end_;
      if (n < M && waiting == none) what[k++] = push_;
      if (pending() || env.ctx.head) what[k++] = step_;
      if (waiting == none && n) what[k++] = reap_;
      if (waiting == none) what[k++] = await__;
      if (with_cancel && !cancelled && n) what[k++] = cancel_;
      if (with_cancel && !ext && waiting != none) what[k++] = ext_;
      auto w = what[vp_choice("event", k)];
      if (w == end_) break;
      if (w == push_) push();
      else if (w == step_) vp::step(p, n);
      else if (w == await__) await_();
      else if (w == reap_)
      {
        unsigned f = finished(), s = size();
        VP_CHECK(wg->reap() == f, "reap() removes exactly the completed promises");
        for (unsigned i = 0; i < n; i++) if (o[i].completed) gone[i] = true;
        VP_CHECK(wg->size() == s - f, "reap() keeps the others");
      }
      else
      {
        unsigned c[M]; bool pe[M]; for (unsigned i = 0; i < n; i++) { c[i] = o[i].cancels; pe[i] = o[i].pending && !gone[i]; }
        if (w == cancel_) { cancelled = true; wg->cancel(); } else { ext = true; env.sig.emit(asio::cancellation_type::total); }
        for (unsigned i = 0; i < n; i++) VP_CHECK(o[i].cancels >= c[i] + pe[i], "cancellation reaches every promise of the group");
      }
    }
    inv();
    for (unsigned e = 0; e < 8 && waiting != none; e++) { if (!vp::step(p, n)) break; inv(); }
    VP_CHECK(waiting == none, "a wait on a group ends once its promises did");
    unsigned c[M]; bool pe[M]; for (unsigned i = 0; i < n; i++) { c[i] = o[i].cancels; pe[i] = o[i].pending; }
    wg.reset();
    for (unsigned i = 0; i < n; i++) { VP_CHECK(o[i].cancels == c[i] + pe[i], "destroying the group cancels the promises in it"); o[i].lazy_fail = false; if (o[i].pending) o[i].complete(); }
    while (env.ctx.run_one());
    VP_CHECK(dead == n, "every promise ends");
    VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  }
  bool pending() const { bool x = false; for (unsigned i = 0; i < n; i++) x = x | o[i].pending; return x; }
};
VP_CONTRACT(group_history) { group_hist<2> g(false); g.run(6); VP_COVER("end"); }
VP_CONTRACT(group_cancel) { group_hist<2> g(true); g.run(5); VP_COVER("end"); }
