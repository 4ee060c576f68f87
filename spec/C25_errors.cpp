// vp-level: proof
// vp-sources: error this_thread detail/exception detail/util
#include <boost/cobalt/error.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/asio/executor.hpp>
#include <comb.hpp>
#include <optional>
namespace sys = boost::system;
// the documented table: value and message of every error
struct entry { cobalt::error e; int value; const char *text; };
static const entry table[] = {
  {cobalt::error::moved_from, 0, "moved from"}, {cobalt::error::detached, 1, "detached"}, {cobalt::error::completed_unexpected, 2, "completed unexpected"},
  {cobalt::error::wait_not_ready, 3, "wait not ready"}, {cobalt::error::already_awaited, 4, "already awaited"}, {cobalt::error::allocation_failed, 5, "allocation failed"}};
static const char *expected(int v) { return v >= 0 && v < 6 ? table[v].text : "unknown cobalt error"; }
static bool same(const char *a, const char *b) { for (unsigned i = 0;; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; } }

// every integer, every buffer length: the message is the documented one and nothing is written outside the buffer
VP_CONTRACT(category_message)
{
  int ev = (int)vp_u32("error value");
  std::size_t len = vp_input("buffer length", 40);
  char *buf = (char *)vp_arena(len); char guard = 'g';
  const sys::error_category &c = cobalt::cobalt_category();
  const char *m = vp_bool("empty buffer") ? c.message(ev, &guard, 0) : c.message(ev, buf, len);
  VP_CHECK(m != nullptr, "a message is never null");
  VP_CHECK(m[0] != 0, "a message is never empty");
  VP_CHECK(same(m, expected(ev)), "the message is the documented one");
  VP_CHECK(guard == 'g', "nothing is written to an empty buffer");

  VP_COVER("end");
}
VP_CONTRACT(category_message_string)
{
  int ev = (int)vp_u32("error value");
  std::string m = vp_bool("by code") ? sys::error_code(ev, cobalt::cobalt_category()).message() : cobalt::cobalt_category().message(ev);
  VP_CHECK(!m.empty(), "a message is never empty");
  VP_CHECK(same(m.c_str(), expected(ev)), "the message is the documented one");
  VP_CHECK(same(cobalt::cobalt_category().name(), "boost.cobalt"), "the category has its name");
  VP_COVER("end");
}
VP_CONTRACT(codes)
{
  for (auto &t : table)
  {
    sys::error_code a = cobalt::make_error_code(t.e), b = t.e;
    VP_CHECK(a.value() == t.value && &a.category() == &cobalt::cobalt_category(), "every error has its documented code");
    VP_CHECK(a == b, "equal codes compare equal");
    for (auto &u : table) VP_CHECK((cobalt::make_error_code(u.e) == a) == (&u == &t), "different errors compare different");
    VP_CHECK(a != sys::error_code(t.value, sys::generic_category()), "a code differs from the same number of another category");
  }
  int i = (int)vp_u32("i"), j = (int)vp_u32("j");
  auto a = cobalt::make_error_code((cobalt::error)i), b = cobalt::make_error_code((cobalt::error)j);
  VP_CHECK((a == b) == (i == j), "codes are equal exactly if their values are");
  VP_CHECK(a.value() == i && &a.category() == &cobalt::cobalt_category(), "the value and the category are kept");
  sys::error_condition ca = a.default_error_condition();
  VP_CHECK(ca.value() == i && a == ca, "a code is equivalent to its own condition");
  VP_COVER("end");
}
// the factories: every one yields its own error, every time
static void factory(std::exception_ptr (*f)(), cobalt::error e)
{
  for (unsigned i = 0; i < 2; i++) { outcome o; from_exception(o, f()); VP_CHECK(o.is_sys(e), "every failure raises its own documented error"); }
}
VP_CONTRACT(factories)
{
  using namespace cobalt::detail; using E_ = cobalt::error;
  factory(&moved_from_exception, E_::moved_from); factory(&detached_exception, E_::detached); factory(&completed_unexpected, E_::completed_unexpected);
  factory(&wait_not_ready, E_::wait_not_ready); factory(&already_awaited, E_::already_awaited); factory(&allocation_failed, E_::allocation_failed);
  bool ok = false;
  try { throw_bad_executor(BOOST_CURRENT_LOCATION); } catch (boost::asio::bad_executor &) { ok = true; } catch (boost::asio::execution::bad_executor &) { ok = true; } catch (...) {}
  VP_CHECK(ok, "a missing executor raises bad_executor");
  VP_COVER("end");
}
// ---- the places that raise them
cobalt::promise<u32> pr(op *o) { co_return co_await aw<>{{o}}; }
cobalt::promise<void> pv(op *o) { co_await aw<>{{o}}; }
cobalt::task<u32> ta(op *o) { co_return co_await aw<>{{o}}; }
cobalt::task<void> tv(op *o) { co_await aw<>{{o}}; }
cobalt::generator<u32> ge(op *o) { co_yield co_await aw<>{{o}}; co_return 0; }
struct val { void operator()(outcome &x, u32 v) const { x.set(outcome::value, v); } };
template<typename T> void await(T &t, outcome &out, op *after = nullptr)
{
  if constexpr (std::is_same_v<T, cobalt::promise<void>> || std::is_same_v<T, cobalt::task<void>>) client_void([&]() -> T & { return t; }, out, after);
  else client([&]() -> T & { return t; }, val{}, out, after);
}
template<typename T, typename F> void sites(F make)
{
  env_t env; op o, q, r; o.v = vp_u32("v"); outcome a, b, c; q.use_slot = r.use_slot = false;
  vp_mark();
  switch (vp_choice("site", 3))
  {
  case 0: // moved from, by construction or by assignment
    {
      T x = make(&o); std::optional<T> y;
      if constexpr (std::is_move_assignable_v<T>) { if (vp_bool("assign")) { y.emplace(make(&q)); q.complete(); *y = std::move(x); } }
      if (!y) y.emplace(std::move(x));
      await(x, a);
      VP_CHECK(a.is_sys(cobalt::error::moved_from), "awaiting an object that was moved from fails with moved_from");
      await(*y, b);
      o.complete();
      VP_CHECK(b.is_value(std::is_same_v<T, cobalt::promise<void>> || std::is_same_v<T, cobalt::task<void>> ? 0 : o.v), "the object it was moved to is not affected");
      vp_cover_("moved");
      break;
    }
  case 1: // awaited twice
    {
      T x = make(&o);
      await(x, a); await(x, b);
      VP_CHECK(a.count == 0 && b.is_sys(cobalt::error::already_awaited), "a second await fails with already_awaited");
      o.complete();
      VP_CHECK(a.count == 1 && a.kind == outcome::value, "the first await is not affected");
      vp_cover_("twice");
      break;
    }
  default: // interrupted: it loses a race
    {
      T x = make(&o); outcome w; unsigned idx = 9; q.v = vp_u32("q"); aw<> qa{{&q}};
      client([&] { return cobalt::left_race(qa, x); }, [&](outcome &z, auto v) { idx = v.index(); z.set(outcome::value, get<0>(v)); }, w, nullptr);
      q.complete();
      VP_CHECK(w.is_value(q.v) && idx == 0, "the interruption is not reported by the race");
      o.complete();
      vp_cover_("interrupted");
    }
  }
  while (env.ctx.run_one());
  VP_CHECK(vp_live() == 0, "nothing is leaked");
}
VP_CONTRACT(promise_sites) { sites<cobalt::promise<u32>>(pr); VP_COVER("end"); }
VP_CONTRACT(promise_void_sites) { sites<cobalt::promise<void>>(pv); VP_COVER("end"); }
VP_CONTRACT(task_sites) { sites<cobalt::task<u32>>(ta); VP_COVER("end"); }
VP_CONTRACT(task_void_sites) { sites<cobalt::task<void>>(tv); VP_COVER("end"); }
VP_CONTRACT(generator_sites) { sites<cobalt::generator<u32>>(ge); VP_COVER("end"); }
// the coroutine is destroyed while its object is kept: the object reports completed_unexpected
template<typename T, typename F> void lost(F make)
{
  env_t env; op o; outcome a; vp_mark();
  {
    T x = make(&o);
    o.sl.clear(); o.pending = false; o.h.destroy();
    await(x, a);
    VP_CHECK(a.is_sys(cobalt::error::completed_unexpected), "a coroutine that was destroyed reports completed_unexpected");
  }
  VP_CHECK(vp_live() == 0, "nothing is leaked");
}
VP_CONTRACT(promise_lost) { lost<cobalt::promise<u32>>(pr); VP_COVER("end"); }
VP_CONTRACT(generator_lost) { lost<cobalt::generator<u32>>(ge); VP_COVER("end"); }
