// Ghost environment: the assumed contract of the executor (asio) and of arbitrary awaitables.
#pragma once
#include <vp.hpp>
#include <boost/asio/execution_context.hpp>
#include <boost/asio/execution.hpp>
#include <boost/asio/any_io_executor.hpp>
#include <boost/asio/cancellation_signal.hpp>
#include <boost/asio/error.hpp>
#include <boost/cobalt/this_thread.hpp>
#include <boost/system/system_error.hpp>
#include <coroutine>
#include <exception>
#include <utility>

namespace vp
{
namespace asio = boost::asio;

// ---- executor: execute() enqueues; run_one() runs the oldest.  That is asio's single threaded FIFO contract.
struct item { item *next = nullptr; int tag = 0; virtual void run() = 0; virtual ~item() = default; };
struct gctx : asio::execution_context
{
  item *head = nullptr, *tail = nullptr; unsigned queued = 0, executed = 0; bool inside = false; int running = -1; // tag of the executor that is running a handler
  ~gctx() { clear(); shutdown(); destroy(); }
  void push(item *i) { if (tail) tail->next = i; else head = i; tail = i; queued++; }
  bool run_one()
  {
    if (!head) return false;
    item *i = head; head = i->next; if (!head) tail = nullptr;
    executed++; queued--;
    inside = true; running = i->tag;
    struct d { item *i; gctx *c; ~d() { delete i; c->inside = false; c->running = -1; } } guard{i, this};
    i->run();
    return true;
  }
  unsigned run(unsigned lim = 1000) { unsigned n = 0; while (n < lim && run_one()) n++; return n; }
  void clear() { while (head) { item *i = head; head = i->next; delete i; } tail = nullptr; queued = 0; }
};
struct gexec
{
  gctx *c; int tag;
  explicit gexec(gctx &c, int tag = 0) : c(&c), tag(tag) {}
  asio::execution_context &query(asio::execution::context_t) const noexcept { return *c; }
  static constexpr auto query(asio::execution::blocking_t) noexcept { return asio::execution::blocking.never; }
  gexec require(asio::execution::blocking_t::never_t) const noexcept { return *this; }
  bool operator==(const gexec &o) const noexcept { return c == o.c && tag == o.tag; }
  bool operator!=(const gexec &o) const noexcept { return !(*this == o); }
  template<typename F> void execute(F &&f) const
  {
    struct impl : item { std::decay_t<F> f; impl(F &&f) : f(std::forward<F>(f)) {} void run() override { auto g = std::move(f); std::move(g)(); } };
    item *i = new impl(std::forward<F>(f)); i->tag = tag; c->push(i);
  }
};


// ---- outcomes
struct thrown { std::uint32_t id; };
struct outcome
{
  enum kind_t { none, value, exc, sys, std_exc, other } kind = none;
  std::uint64_t v = 0; const void *cat = nullptr; unsigned count = 0;
  void set(kind_t k, std::uint64_t x, const void *c = nullptr) { kind = k; v = x; cat = c; count++; }
  bool is_value(std::uint64_t x) const { return kind == value && v == x; }
  bool is_exc(std::uint64_t x) const { return kind == exc && v == x; }
  bool is_sys(boost::system::error_code ec) const { return kind == sys && (int)v == ec.value() && cat == &ec.category(); }
};
inline void from_current_exception(outcome &o)
{
  try { throw; }
  catch (thrown &t) { o.set(outcome::exc, t.id); }
  catch (boost::system::system_error &e) { o.set(outcome::sys, (std::uint64_t)(std::int64_t)e.code().value(), &e.code().category()); }
  catch (std::exception &) { o.set(outcome::std_exc, 0); }
  catch (...) { o.set(outcome::other, 0); }
}
inline void from_exception(outcome &o, std::exception_ptr e)
{
  if (!e) { o.set(outcome::other, 1); return; }
  try { std::rethrow_exception(e); } catch (...) { from_current_exception(o); }
}

// ---- a value that owns memory and can only be moved: losing, duplicating or not destroying one is seen
struct box
{
  std::uint32_t *p = nullptr;
  box() = default;
  explicit box(std::uint32_t v) : p(new std::uint32_t(v)) {}
  box(box &&o) noexcept : p(std::exchange(o.p, nullptr)) {}
  box &operator=(box &&o) noexcept { auto q = std::exchange(o.p, nullptr); delete p; p = q; return *this; }
  ~box() { delete p; }
};
inline std::uint32_t held(std::uint32_t v) { return v; }
inline std::uint32_t held(const box &b) { VP_CHECK(b.p, "a value is not lost while it is transferred"); return *b.p; }

// ---- environment
struct env_t
{
  gctx ctx; boost::cobalt::executor exec{gexec(ctx)}; asio::cancellation_signal sig, *cur = &sig; bool slot = true; unsigned stamp = 0;
  env_t() { boost::cobalt::this_thread::set_executor(exec); me() = this; }
  ~env_t() { me() = nullptr; }
  static env_t *&me() { static env_t *p; return p; }
};
inline env_t &E() { return *env_t::me(); }

// a root coroutine: the arbitrary client.  It has an executor and a cancellation slot and frees itself at its end.
struct root
{
  bool *dead = nullptr;
  struct promise_type
  {
    using executor_type = boost::cobalt::executor;
    const executor_type &get_executor() const { return E().exec; }
    using cancellation_slot_type = asio::cancellation_slot;
    cancellation_slot_type get_cancellation_slot() const { return E().slot ? sig->slot() : asio::cancellation_slot(); }
    asio::cancellation_signal *sig = E().cur;
    root get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vp_fail_("an exception escaped into the client"); }
  };
  std::coroutine_handle<promise_type> h;
  root(std::coroutine_handle<promise_type> h) : h(h) {}
};

// ---- an arbitrary awaitable
struct op
{
  // parameters
  int mode = 1;               // 0: ready immediately, 1: suspends, 2: await_suspend declines to suspend; -k: chosen among the first k when awaited
  bool fail = false; std::uint32_t v = 0;
  bool lazy_fail = false;     // success/failure is chosen when it completes
  bool use_slot = true;       // cancellable at all
  bool react = true;          // a cancellation request makes it complete with operation_aborted (otherwise it is ignored)
  bool can_begin = false;     // may reserve the outcome of a race before it completes
  // ghost state
  std::coroutine_handle<> h; bool pending = false, started = false, completed = false, abort_req = false, aborted = false;
  bool began = false; void (*begin_)(void *) = nullptr; void *begin_p = nullptr;
  unsigned readies = 0, suspends = 0, resumes = 0, cancels = 0, interrupts = 0, order = 0, consumed = 0; asio::cancellation_type ct{};
  asio::cancellation_slot sl; void *promise = nullptr;
  void set_mode(const char *n, unsigned k = 3) { mode = vp_choice(n, k); }
  void finish() { if (completed) return; completed = true; order = ++E().stamp; if (lazy_fail & !aborted) fail = vp_bool("fail"); }
  void begin() { began = true; begin_(begin_p); }
  void complete()
  {
    VP_CHECK(pending, "ghost: only a pending operation completes");
    pending = false; finish();
    if (sl.is_connected()) sl.clear();
    h.resume();
  }
  void abort() { aborted = true; complete(); }
};
struct canceller { op *o; void operator()(asio::cancellation_type t) { o->cancels++; o->ct = o->ct | t; if (o->react) o->abort_req = true; } };
template<typename T> struct get_value { static T get(std::uint32_t v) { return T(v); } };
template<> struct get_value<void> { static void get(std::uint32_t) {} };
template<typename T> struct aw_base
{
  op *o;
  bool await_ready()
  {
    o->started = true;
    VP_CHECK(++o->readies == 1, "an awaitable is asked for readiness exactly once");
    if (o->mode < 0) o->mode = vp_choice("mode", -o->mode);
    if (o->aborted) { o->finish(); return true; }
    if (o->mode == 0) { o->finish(); return true; }
    return false;
  }
  template<typename P> bool await_suspend(std::coroutine_handle<P> h)
  {
    o->suspends++;
    VP_CHECK(!o->pending, "an awaitable is suspended on only once");
    if (o->mode == 2) { o->finish(); return false; }
    o->h = h; o->pending = true;
    if constexpr (requires { h.promise().begin_transaction(); })
    { o->begin_p = h.address(); o->begin_ = [](void *p) { std::coroutine_handle<P>::from_address(p).promise().begin_transaction(); }; }
    if constexpr (requires { h.promise().get_cancellation_slot(); }) if (o->use_slot)
    {
      o->sl = h.promise().get_cancellation_slot();
      if (o->sl.is_connected()) o->sl.template emplace<canceller>(canceller{o});
    }
    return true;
  }
  T await_resume()
  {
    o->resumes++;
    VP_CHECK(o->completed, "an awaitable is resumed only after it completed");
    if (o->aborted) throw boost::system::system_error(asio::error::operation_aborted);
    if (o->fail) throw thrown{o->v};
    return get_value<T>::get(o->v);
  }
};
template<typename T = std::uint32_t> struct aw : aw_base<T> {};
template<typename T = std::uint32_t> struct iaw : aw_base<T>
{
  void interrupt_await() { auto o = this->o; o->interrupts++; if (o->completed) return; o->aborted = true; if (o->pending) o->complete(); }
};

// runs `subject()` (which returns an awaitable) from a client coroutine, records the outcome, then waits on `after`
template<typename F, typename R> root client(F subject, R record, outcome &out, op *after)
{
  try { record(out, co_await subject()); }
  catch (...) { from_current_exception(out); }
  if (after) co_await aw<void>{{after}};
}
template<typename F> root client_void(F subject, outcome &out, op *after)
{
  try { co_await subject(); out.set(outcome::value, 0); }
  catch (...) { from_current_exception(out); }
  if (after) co_await aw<void>{{after}};
}
// one environment step: run the oldest queued handler, complete a pending operation, or let an aborted one finish
inline bool step(op **ops, unsigned n)
{
  unsigned k = 0; int what[24]; bool none = true;
  for (unsigned i = 0; i < n; i++) none = none & !ops[i]->completed & !ops[i]->began;
  if (E().ctx.head) what[k++] = -1;
  for (unsigned i = 0; i < n; i++)
    if (ops[i]->pending) { what[k++] = i; if (ops[i]->abort_req) what[k++] = 100 + i; if (ops[i]->can_begin && none) what[k++] = 200 + i; }
  if (!k) return false;
  int w = what[k == 1 ? 0 : vp_choice("next", k)];
  if (w == -1) E().ctx.run_one();
  else if (w >= 200) ops[w - 200]->begin();
  else if (w >= 100) ops[w - 100]->abort();
  else ops[w]->complete();
  return true;
}
}
