// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error
#include <boost/cobalt/this_thread.hpp>
#include <boost/cobalt/detail/this_thread.hpp>
#include <boost/asio/executor.hpp>
#include <comb.hpp>
#include <optional>
namespace pmr = std::pmr; namespace tt = cobalt::this_thread;
struct fake final : pmr::memory_resource
{
  void *do_allocate(std::size_t, std::size_t) override { vp_fail_("nothing is allocated"); }
  void do_deallocate(void *, std::size_t, std::size_t) override { vp_fail_("nothing is freed"); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
// the whole state: an optional executor on one of the living contexts, contexts that were used before or not, and the default resource.
struct world
{
  std::optional<gctx> c[3]; int cur = -1; int tag = 0;
  cobalt::executor at(int i, int t) { return gexec(*c[i], t); }
  void set(int i, int t) { tt::set_executor(at(i, t)); cur = i; tag = t; }
  void kill(int i) { c[i].reset(); if (cur == i) cur = -1; }
  void check()
  {
    VP_CHECK(tt::has_executor() == (cur >= 0), "has_executor says whether an executor is set");
    bool threw = false;
    try
    {
      auto &x = tt::get_executor();
      VP_CHECK(cur >= 0, "an unset executor is never returned");
      VP_CHECK(x == at(cur, tag), "get_executor returns what was set last");
      VP_CHECK(&tt::get_executor() == &x, "get_executor refers to the executor of the thread");
    }
    catch (boost::asio::bad_executor &) { threw = true; } catch (boost::asio::execution::bad_executor &) { threw = true; }
    VP_CHECK(threw == (cur < 0), "using an unset executor fails with bad_executor");
  }
  // any state: reached through a set on a context (with any others registered before), or by the end of that context
  void any()
  {
    for (auto &x : c) x.emplace();
    if (vp_bool("other used before")) set(1, (int)vp_u32("t"));
    switch (vp_choice("state", 3)) { case 0: break; case 1: set(0, (int)vp_u32("tag")); break; default: set(2, 0); kill(2); c[2].emplace(); }
    check();
  }
};
VP_CONTRACT(executor_set)
{
  world w; w.any(); int i = (int)vp_choice("context", 3), t = (int)vp_u32("new tag");
  w.set(i, t); w.check();
  VP_COVER("end");
}
VP_CONTRACT(executor_set_from_itself)
{
  world w; w.any();
  if (w.cur >= 0) { tt::set_executor(tt::get_executor()); VP_COVER("set"); }
  w.check();
  VP_COVER("end");
}
VP_CONTRACT(context_ends)
{
  world w; w.any(); int i = (int)vp_choice("context", 3); bool mine = i == w.cur;
  w.kill(i); w.check();
  if (mine) VP_COVER("current"); else VP_COVER("other");
  w.c[i].emplace(); w.check(); w.set(i, 3); w.check();
  VP_COVER("end");
}
VP_CONTRACT(default_resource)
{
  fake f[3]; auto *r0 = tt::get_default_resource();
  VP_CHECK(r0 == pmr::get_default_resource(), "the default is the one of the program");
  pmr::memory_resource *cur = r0;
  for (int n = 0; n < 2; n++)
  {
    int k = (int)vp_choice("resource", 4); pmr::memory_resource *nw = k < 3 ? &f[k] : r0;
    VP_CHECK(tt::set_default_resource(nw) == cur, "set_default_resource returns the one before");
    cur = nw;
    VP_CHECK(tt::get_default_resource() == cur, "get_default_resource returns what was set last");
    VP_CHECK(tt::get_allocator().resource() == cur, "get_allocator uses the default resource");
    VP_CHECK(pmr::get_default_resource() == r0, "the default of the program is not touched");
  }
  tt::set_default_resource(r0);
  VP_COVER("end");
}
// executor and resource taken from the arguments of a coroutine
VP_CONTRACT(from_arguments)
{
  world w; w.any(); fake g, d; auto *old = tt::set_default_resource(&d); pmr::polymorphic_allocator<void> al(&g);
  asio::executor_arg_t xa; std::allocator_arg_t aa; int i = (int)vp_choice("context", 3), t = (int)vp_u32("given tag"); cobalt::executor x = w.at(i, t); int a = 1; const char *b = ""; namespace D = cobalt::detail;
  switch (vp_choice("form", 4))
  {
  case 0: VP_CHECK(D::get_executor_from_args(xa, x, a) == x, "the executor argument is used"); VP_CHECK(D::get_memory_resource_from_args(xa, x, a) == &d, "without an allocator the default of the thread is used"); break;
  case 1: VP_CHECK(D::get_executor_from_args(a, aa, al, xa, x, b) == x, "the executor argument is used"); VP_CHECK(D::get_memory_resource_from_args(a, aa, al, xa, x, b) == &g, "the allocator argument is used"); break;
  case 2: VP_CHECK(D::get_memory_resource_from_args_global(b, aa, al) == &g, "the allocator argument is used"); VP_CHECK(D::get_memory_resource_from_args_global(a, b) == pmr::get_default_resource(), "a task uses the default of the program"); break;
  default:
    {
      bool threw = false;
      try { auto y = D::get_executor_from_args(a, aa, al); VP_CHECK(w.cur >= 0 && y == w.at(w.cur, w.tag), "without an argument the executor of the thread is used"); } catch (boost::asio::bad_executor &) { threw = true; } catch (boost::asio::execution::bad_executor &) { threw = true; }
      VP_CHECK(threw == (w.cur < 0), "using an unset executor fails with bad_executor");
    }
  }
  w.check(); tt::set_default_resource(old);
  VP_COVER("end");
}
