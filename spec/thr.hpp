// Two threads: the owner runs a queue of handlers that any thread may fill (the contract of an executor), the other
// one is what cobalt::thread starts.  Everything a thread does between two synchronisations is one step of a schedule.
#pragma once
#include <ghost.hpp>
#include <boost/cobalt/thread.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/any_completion_handler.hpp>
#include <boost/asio/append.hpp>
#include <boost/asio/post.hpp>
#include <pthread.h>
#include <optional>
namespace cobalt = boost::cobalt; namespace asio = boost::asio;
using namespace vp; using u32 = std::uint32_t;
struct octx : asio::execution_context
{
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; item *head = nullptr, *tail = nullptr; unsigned ran = 0;
  ~octx() { while (head) { item *i = head; head = i->next; delete i; } shutdown(); destroy(); }
  void push(item *i) { pthread_mutex_lock(&m); if (tail) tail->next = i; else head = i; tail = i; pthread_cond_signal(&c); pthread_mutex_unlock(&m); }
  void run_one()
  {
    pthread_mutex_lock(&m);
    while (!head) pthread_cond_wait(&c, &m);
    item *i = head; head = i->next; if (!head) tail = nullptr;
    pthread_mutex_unlock(&m);
    ran++; struct d { item *i; ~d() { delete i; } } g{i}; i->run();
  }
};
struct oexec
{
  octx *c;
  asio::execution_context &query(asio::execution::context_t) const noexcept { return *c; }
  static constexpr auto query(asio::execution::blocking_t) noexcept { return asio::execution::blocking.never; }
  oexec require(asio::execution::blocking_t::never_t) const noexcept { return *this; }
  bool operator==(const oexec &o) const noexcept { return c == o.c; }
  bool operator!=(const oexec &o) const noexcept { return c != o.c; }
  template<typename F> void execute(F &&f) const
  {
    struct impl : item { std::decay_t<F> f; impl(F &&f) : f(std::forward<F>(f)) {} void run() override { auto g = std::move(f); std::move(g)(); } };
    c->push(new impl(std::forward<F>(f)));
  }
};
// the owner's memory, used by its thread only
struct ores : boost::cobalt::pmr::memory_resource
{
  unsigned used = 0, live = 0;
  void *do_allocate(std::size_t n, std::size_t) override { used++; live++; return ::operator new(n); }
  void do_deallocate(void *p, std::size_t n, std::size_t) override { used++; live--; ::operator delete(p, n); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
struct owner_t
{
  octx ctx; cobalt::executor exec{oexec{&ctx}}; ores res; asio::cancellation_signal sig; bool slot = true;
  owner_t() { cobalt::this_thread::set_executor(exec); me() = this; }
  ~owner_t() { me() = nullptr; }
  static owner_t *&me() { static owner_t *p; return p; }
};
struct oroot
{
  struct promise_type
  {
    using executor_type = cobalt::executor; const executor_type &get_executor() const { return owner_t::me()->exec; }
    using cancellation_slot_type = asio::cancellation_slot; cancellation_slot_type get_cancellation_slot() const { return owner_t::me()->slot ? owner_t::me()->sig.slot() : asio::cancellation_slot(); }
    using allocator_type = cobalt::pmr::polymorphic_allocator<void>; allocator_type get_allocator() const { return allocator_type(&owner_t::me()->res); }
    oroot get_return_object() { return {}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {} void unhandled_exception() { vp_fail_("the owner's coroutine lets no exception out"); }
  };
};
// an operation of the thread's context that never completes unless it is cancelled; its handler is destroyed with the context
struct parking : asio::execution_context::service
{
  static inline asio::execution_context::id id;
  struct entry { entry *next; bool out = false; entry(entry *n) : next(n) {} virtual void complete(cobalt::executor x) = 0; virtual ~entry() = default; };
  template<class H> struct impl final : entry { H h; impl(entry *n, H h) : entry(n), h(std::move(h)) {} void complete(cobalt::executor x) override { this->out = true; asio::post(x, asio::append(std::move(h), boost::system::error_code(asio::error::operation_aborted))); } };
  entry *head = nullptr;
  explicit parking(asio::execution_context &c) : asio::execution_context::service(c) {}
  void shutdown() override { while (head) { auto e = head; head = e->next; delete e; } }
  template<class H> entry *add(H h) { return head = new impl<H>{head, std::move(h)}; }
};
template<class Seen> auto park(cobalt::executor x, Seen *s)
{
  return asio::async_initiate<const cobalt::use_op_t &, void(boost::system::error_code)>(
      [](auto h, cobalt::executor x, Seen *s)
      {
        auto cl = asio::get_associated_cancellation_slot(h);
        auto e = asio::use_service<parking>(asio::query(x, asio::execution::context)).add(std::move(h));
        if (cl.is_connected()) cl.assign([e, x, s](asio::cancellation_type t)
        {
          if (e->out) return;
          s->cancelled++; s->v = (u32)t; e->complete(x);
        });
      }, cobalt::use_op, x, s);
}
struct probe { unsigned *n; ~probe() { ++*n; } };
