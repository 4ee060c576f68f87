// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error main
// vp-flags: -Dmain=program
// vp-bounded signals_while_waiting: at most two signals
// vp-bounded signals_while_detached: at most two signals
// vp-bounded signal_at_the_end: at most three signals, up to four steps after the last one
// vp-assume: main() is verified against asio's real io_context and signal sets on a ghost operating system (spec/os.hpp): signals are delivered while the program waits or by the program itself
#include <iodata.hpp>
#include <boost/asio/signal_set.hpp>
#include <boost/cobalt/main.hpp>
#include <boost/cobalt/promise.hpp>
#include <memory>
#include <comb.hpp>
namespace tt = cobalt::this_thread;
struct probe { unsigned *n; ~probe() { ++*n; } };
// a handler that waits for its completion
struct pending { virtual void complete(cobalt::executor x) = 0; virtual ~pending() = default; };
template<class H> struct pending_ final : pending { H h; pending_(H h) : h(std::move(h)) {} void complete(cobalt::executor x) override { asio::post(x, std::move(h)); } };
// the program and what it does
enum kind { returns, posts, waits, cancellable, throws, leaves, n_ };
struct run_
{
  kind k; int argc; char **argv; int v; unsigned self = 0, hops = 0;    // a signal it sends to itself before it ends, and what it does after that
  unsigned n = 0, dead = 0, ndead = 0, ended = 0, idles = 0, signals = 0; bool again = false;
  unsigned cancelled = 0; u32 type[4]; u32 sent[4]; unsigned nsent = 0;
  std::unique_ptr<pending> h[2]; std::optional<asio::executor_work_guard<cobalt::executor>> w[2]; std::optional<cobalt::executor> x; std::pmr::memory_resource *before = nullptr;
};
static run_ *R;
static void raise_(int n)
{
  VP_CHECK(K.handler[n] != nullptr, "the program listens to SIGINT and SIGTERM");
  if (R->nsent >= 4) vp_fail_("too many signals");
  R->sent[R->nsent++] = (u32)(n == SIGINT ? asio::cancellation_type::total : asio::cancellation_type::terminal);
  K.handler[n](n);
  for (auto &r : K.r) if (r.fd == kernel::SR) r.fire = EPOLLIN;
}
static void complete(unsigned i) { auto h = std::move(R->h[i]); h->complete(*R->x); R->w[i].reset(); }
// until something completes the program waits; signals may come first
static void environment()
{
  VP_CHECK(R->h[0] || R->h[1], "the program ends once its coroutines are done");
  if (R->signals < 2)
  {
    unsigned e = vp_choice("event", 3);
    if (e) { R->signals++; raise_(e == 1 ? SIGINT : SIGTERM); return; }
  }
  complete(R->h[0] ? 0 : 1);
  // wakes the context up
  for (auto &r : K.r) if (r.fd == kernel::SR) r.fire = 0;
}
// never completes by itself unless the environment says so
static auto wait_(unsigned i, bool can)
{
  return asio::async_initiate<const cobalt::use_op_t &, void()>([](auto h, unsigned i, bool can)
  {
    auto cl = asio::get_associated_cancellation_slot(h);
    if (cl.is_connected())
      cl.assign([i, can](asio::cancellation_type t) { if (R->cancelled >= 4) vp_fail_("too many cancellations"); R->type[R->cancelled++] = (u32)t; if (can && R->h[i]) complete(i); });
    R->h[i] = std::make_unique<pending_<decltype(h)>>(std::move(h)); R->w[i].emplace(*R->x);
  }, cobalt::use_op, i, can);
}
static cobalt::promise<void> background() { probe p{&R->ndead}; co_await wait_(1, false); }
static void inside(cobalt::executor x)
{
  VP_CHECK(tt::has_executor() && tt::get_executor() == x, "the executor of the thread is the one of the program");
  VP_CHECK(tt::get_default_resource() != R->before, "the program has a default resource of its own");
}
cobalt::main co_main(int argc, char *argv[])
{
  probe p{&R->dead}; R->n++;
  VP_CHECK(argc == R->argc && argv == R->argv, "the program gets its arguments");
  auto x = co_await cobalt::this_coro::executor; R->x = x; inside(x);
  auto al = co_await cobalt::this_coro::allocator;
  VP_CHECK(al.resource() != R->before && al.resource() != tt::get_default_resource(), "the program's coroutine has memory of its own");
  { std::pmr::vector<u32> v(3, 7, al.resource()); VP_CHECK(v[2] == 7, "the memory of the program's coroutine can be used"); }
  if (R->k == posts) { co_await asio::post(x, cobalt::use_op); inside(x); }
  if (R->k == leaves) +background();
  if (R->k == waits) co_await wait_(0, false);
  if (R->k == cancellable)
  {
    try { co_await wait_(0, true); R->again = true; } catch (boost::system::system_error &e) { VP_CHECK(e.code() == asio::error::operation_aborted, "a cancelled program is told"); }
  }
  if (R->self) raise_(R->self == 1 ? SIGINT : SIGTERM);
  if (R->hops) co_await cobalt::this_coro::throw_if_cancelled(false);
  for (unsigned i = 0; i < R->hops; i++) co_await asio::post(x, cobalt::use_op);   // the signal is on its way
  R->ended++;
  if (R->k == throws) throw thrown{(u32)R->v};
  co_return R->v;
}
static void program_(run_ &r, outcome &o)
{
  R = &r; K.reset(); K.signals = K.sure = true; K.idle = environment; r.before = tt::get_default_resource();
  r.argc = (int)vp_u32("argc"); r.argv = (char **)vp_u64("argv"); r.v = (int)vp_u32("v");
  try { o.set(outcome::value, (u32)cobalt::detail::main(r.argc, r.argv)); } catch (...) { from_current_exception(o); }
  VP_CHECK(r.n == 1 && r.dead == 1, "the program runs once");
  VP_CHECK(tt::get_default_resource() == r.before, "the default resource is restored");
  for (auto h : K.handler) VP_CHECK(!h, "no signal handler is left");
}
// no signals of its own: the environment sends up to two while the program waits
VP_CONTRACT(result)
{
  run_ r; r.k = (kind)vp_choice("kind", n_); r.signals = 2; outcome o; vp_mark();
  program_(r, o);
  VP_CHECK(r.ended == 1, "the program runs to its end");
  if (r.k != throws) VP_CHECK(vp_live() == 0, "the program frees everything it has allocated");
  VP_CHECK(r.k == throws ? o.is_exc((u32)r.v) : o.is_value((u32)r.v), "the program returns what co_main returned");
  VP_CHECK(r.ndead == (r.k == leaves), "what the program has started ends before it does");
  VP_COVER("end");
}

// the environment sends up to two signals while the program waits, and the program one to itself
static void signals(kind k, unsigned self, unsigned hops = 0)
{
  run_ r; r.k = k; r.self = self; r.hops = hops; outcome o; vp_mark();
  program_(r, o);
  VP_CHECK(o.count == 1, "the program ends");
  VP_CHECK(vp_live() == 0, "the program frees everything it has allocated");
  VP_CHECK(r.ended == 1, "the program runs to its end");
  if (k != throws) VP_CHECK(o.is_value((u32)r.v), "the program returns what co_main returned");
  VP_CHECK(r.ndead == (r.k == leaves), "what the program has started ends before it does");
  if (k == waits || k == cancellable)
  {
    // the operation sees every signal that came while it was under way
    VP_CHECK(r.cancelled <= r.nsent, "a program is cancelled by signals only");
    for (unsigned i = 0; i < r.cancelled; i++) VP_CHECK(r.type[i] == r.sent[i], "SIGINT becomes total, SIGTERM terminal cancellation");
    unsigned while_waiting = r.nsent - (r.self != 0);
    VP_CHECK(k == waits ? r.cancelled == while_waiting : r.cancelled == (while_waiting > 0), "every signal reaches the operation the program waits for");
  }
  else VP_CHECK(r.cancelled == 0, "the cancellation is not forwarded to what is detached");
}
VP_CONTRACT(signals_while_waiting) { signals(vp_bool("cancellable") ? cancellable : waits, 0); VP_COVER("end"); }
VP_CONTRACT(signals_while_detached) { signals(leaves, 0); VP_COVER("end"); }
// a signal is under way when the program ends
VP_CONTRACT(signal_at_the_end) { unsigned k = vp_choice("kind", 3), s = 1 + vp_choice("signal", 2); signals(k == 0 ? returns : k == 1 ? posts : waits, s, vp_choice("steps", 5)); VP_COVER("end"); }
