// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error
// vp-assume: the members of thread_state other than the mutex, the waiter and the done flag are not used by the awaiter; the thread itself completes the waiter as run_thread does
#include <boost/cobalt/thread.hpp>
#include <adapt.hpp>
#include <boost/asio/append.hpp>
using state = cobalt::detail::thread_state;
auto novalue = [] { return 0; };
VP_CONTRACT(thread_forms)
{
  env_t env; probe_t p; u32 v = vp_u32("v");
  alignas(state) static char mem[sizeof(state)];
  auto st = reinterpret_cast<state *>(mem);
  new (&st->mtx) std::mutex; new (&st->waitor) decltype(st->waitor); new (&st->done) std::atomic<bool>(false);
  bool before = vp_bool("finished before"), fails = !before && vp_bool("fails");
  if (before) st->done = true;
  vp_mark();
  {
    std::shared_ptr<state> sp(st, [](state *) {});
    env.slot = false;
    p.start([&] { return cobalt::detail::thread_awaitable{sp}; }, novalue);
    if (!before)
    {
      VP_CHECK(p.o.count == 0 && st->waitor.has_value(), "it waits for the thread");
      std::exception_ptr ep = fails ? std::make_exception_ptr(thrown{v}) : nullptr;
      st->done = true;
      asio::post(env.exec, asio::append(*std::exchange(st->waitor, std::nullopt), ep));
      VP_CHECK(p.o.count == 0, "the awaiter is resumed by its own executor");
    }
    env.ctx.run();
    p.verdict();
    VP_CHECK(fails ? p.o.is_exc(v) : p.o.is_value(0), "all forms report the outcome of the thread");
    p.after.complete();
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
