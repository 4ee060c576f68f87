// The contract of a forwarding I/O object: against the same operating system it makes the same calls and reports the same results as
// the asio object it wraps.
#pragma once
#include <os.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/cancellation_signal.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/cobalt/io/endpoint.hpp>
#include <boost/cobalt/this_thread.hpp>
#include <coroutine>
#include <tuple>
namespace asio = boost::asio; namespace cobalt = boost::cobalt; namespace io = boost::cobalt::io;
using boost::system::error_code;
struct world
{
  asio::io_context ctx{1}; asio::cancellation_signal sig; unsigned done = 0;
  world() { cobalt::this_thread::set_executor(ctx.get_executor()); }
  cobalt::executor exec() { return ctx.get_executor(); }
  void poll() { ctx.restart(); ctx.poll(); }
  void put(error_code ec) { K.put(S_result); K.put((u64)(std::int64_t)ec.value()); K.put((u64)&ec.category()); }
  void put(u64 v) { K.put(v); }
  void put(const io::endpoint &e) { put((u64)e.size()); bytes(e.data(), e.size()); put((u64)(u32)e.protocol().family()); put((u64)(u32)e.protocol().type()); put((u64)(u32)e.protocol().protocol()); }
  template<typename S> requires requires (S &s) { s.native_handle(); } void put(S &&s) { put(s.is_open()); put((u64)s.native_handle()); }
  template<typename T> void put(boost::system::result<T> r) { put(r.has_error() ? r.error() : error_code()); if constexpr (!std::is_void_v<T>) { if (r.has_value()) put(*r); } }
  // everything ready: the descriptor reports it
  void fire(u32 ev) { for (auto &r : K.r) if (r.fd != -1) r.fire = ev & r.ev; poll(); }
};
inline world *W;
struct io_root
{
  struct promise_type
  {
    using executor_type = cobalt::executor; executor_type get_executor() const { return W->exec(); }
    using cancellation_slot_type = asio::cancellation_slot; cancellation_slot_type get_cancellation_slot() const { return W->sig.slot(); }
    io_root get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vp_fail_("an exception escaped into the client"); }
  };
};
template<typename Op> io_root await_(Op op) { auto t = co_await cobalt::as_tuple(std::move(op)); W->done++; std::apply([](auto &&...a) { (W->put(std::forward<decltype(a)>(a)), ...); }, std::move(t)); }
struct raw_ { template<typename... A> void operator()(A &&...a) const { W->done++; (W->put(std::forward<A>(a)), ...); } };
inline auto raw() { return asio::bind_cancellation_slot(W->sig.slot(), raw_{}); }
// f(world): one run of the scenario; g the same on asio's own object
template<typename F, typename G> void same(F f, G g, const char *what)
{
  u64 w[160]; unsigned n, d;
  { world x; W = &x; K.reset(); f(x); n = K.n; d = x.done; for (unsigned i = 0; i < n; i++) w[i] = K.w[i]; }
  world x; W = &x; K.reset(); g(x);
  VP_CHECK(d == x.done, "every operation completes as often as that of asio");
  VP_CHECK(n == K.n, what);
  for (unsigned i = 0; i < n; i++) VP_CHECK(w[i] == K.w[i], what);
}
