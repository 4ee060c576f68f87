// vp-level: bounded
// vp-bound: at most 3 operations of the stream and 2 buffers (any sizes, addresses, offsets, split and outcomes)
// vp-sources: io/read io/write this_thread detail/exception detail/util error
// vp-assume: the stream keeps the contract of asio: a transfer without error moves at least one byte, never more than asked for, and the stream itself does not throw
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <comb.hpp>
#include <array>
#include <boost/asio/associated_immediate_executor.hpp>
namespace io = boost::cobalt::io; using u64 = std::uint64_t; using boost::system::error_code;
template<typename B> bool same(const B &a, const B &b) { return (a.data() == b.data()) & (a.size() == b.size()); }

// the bytes asked for, and a stream that transfers any part of them in every step
template<typename B, typename S> struct world
{
  env_t env; unsigned len, steps = 0, max_steps, gone = 0; u64 total = 0, done = 0, offset = 0; std::array<B, 3> b; std::array<u64, 4> before{};
  bool failed = false, at, cancelled = false, may_ready = true; error_code ec; unsigned reached = 0;
  std::optional<cobalt::completion_handler<error_code, std::size_t>> pending; u64 pn = 0; bool inside = false, resumed = false;
  outcome out; std::optional<std::tuple<error_code, std::size_t>> res; op after;
  world(unsigned len, bool at, unsigned max_steps) : len(len), max_steps(max_steps), at(at)
  {
    for (unsigned i = 0; i < len; i++) { u64 e = vp_input("end", 44); vp_assume(e >= total); before[i + 1] = e; b[i] = B((char *)vp_u64("address"), e - total); total = e; }
    if (at) offset = vp_u64("offset");
    vp_mark();
  }
  S seq() const { if (len == 1) return S(b[0]); return S(std::span<const B>(b.data(), len)); }
  // the sequence describes exactly the rest
  void check(const S &s)
  {
    VP_CHECK(!failed, "no operation after an error"); VP_CHECK(!cancelled, "no operation after a cancellation"); VP_CHECK(done < total, "no operation after the buffers are exhausted");
    VP_CHECK(!pending && !inside, "one operation at a time");
    VP_CHECK(steps < max_steps, "ghost: within the bound"); steps++;
    auto i = s.begin(), e = s.end(); bool first = true;
    for (unsigned j = 0; j < len; j++)
    {
      if (before[j + 1] <= done) continue;
      B want = b[j]; if (first) want = B((char *)want.data() + (done - before[j]), want.size() - (done - before[j]));
      if (want.size() == 0) continue;
      first = false;
      while (i != e && i->size() == 0) ++i;
      VP_CHECK(i != e, "every step is asked for exactly the bytes that are left"); VP_CHECK(same(*i, want), "every step is asked for exactly the bytes that are left"); ++i;
    }
    while (i != e && i->size() == 0) ++i;
    VP_CHECK(i == e, "every step is asked for exactly the bytes that are left");
  }
  // the outcome of a step
  u64 outcome_()
  {
    u64 upto = vp_input("upto", 44), was = done; vp_assume(upto <= total); vp_assume(upto >= done);
    if (vp_bool("fails")) { failed = true; int c = (int)vp_u32("code"); vp_assume(c != 0); ec = error_code(c, boost::system::system_category()); }
    else { ec = {}; vp_assume(upto > done); if (steps == max_steps && !cancelled) vp_assume(upto == total); }
    // the buffer the transfer ends in is case-split, to keep the conditions simple
    unsigned k = vp_choice("ends in", len); vp_assume(upto >= before[k]); vp_assume(upto <= before[k + 1]);
    done = upto; return upto - was;
  }
  void ready(cobalt::handler<error_code, std::size_t> h, u64 off, S s)
  {
    if (!may_ready || !vp_bool("ready")) return;
    check(s); VP_CHECK(off == offset + done, "every step is asked for at the offset of its first byte");
    u64 n = outcome_(); h(ec, n);
  }
  void initiate(cobalt::completion_handler<error_code, std::size_t> h, u64 off, S s)
  {
    check(s); VP_CHECK(off == offset + done, "every step is asked for at the offset of its first byte");
    VP_CHECK(asio::get_associated_executor(h) == E().exec, "a step runs on the executor of the awaiter");
    if (vp_bool("at once"))
    {
      u64 n = outcome_(); auto ex = asio::get_associated_immediate_executor(h, E().exec); inside = true;
      ex.execute([this, n, e = ec, h = std::move(h)]() mutable { inside = false; std::move(h)(e, n); });
      return;
    }
    auto slot = asio::get_associated_cancellation_slot(h);
    if (slot.is_connected()) slot.assign([this](asio::cancellation_type t) { reached++; });
    pending.emplace(std::move(h));
  }
  void fire()
  {
    auto h = std::move(*pending); pending.reset();
    auto slot = h.get_cancellation_slot(); if (slot.is_connected()) slot.clear();
    u64 n;
    if (cancelled && reached && vp_bool("aborts")) { u64 upto = vp_input("upto", 44); vp_assume(upto <= total); vp_assume(upto >= done); failed = true; ec = asio::error::operation_aborted; n = upto - done; done = upto; }
    else n = outcome_();
    auto e = ec; std::move(h)(e, n);
  }
  void pump()
  {
    while (true)
    {
      if (res) break;
      if (env.ctx.head) { env.ctx.run_one(); continue; }
      if (!pending) break;
      if (!cancelled && vp_bool("cancel")) { cancelled = true; env.sig.emit(asio::cancellation_type::terminal); VP_CHECK(reached == 1, "a cancellation reaches the current step"); }
      fire();
    }
    VP_CHECK(resumed && res, "the awaiter is resumed"); VP_CHECK(!env.ctx.head && !pending, "nothing is left behind");
    auto [e, m] = *res;
    VP_CHECK(m == done, "the result has exactly the number of bytes transferred");
    if (failed) { VP_CHECK(e == ec, "an error is reported"); VP_COVER("failed"); }
    else if (cancelled) { VP_CHECK(e == asio::error::operation_aborted || (!e && done == total), "a cancellation completes the operation"); VP_COVER("cancelled"); }
    else { VP_CHECK(!e, "success without an error"); VP_CHECK(m == total, "everything is transferred if there is no error"); VP_COVER("all"); }
    VP_CHECK(gone == 0, "the awaiter is alive"); after.complete(); VP_CHECK(gone == 1, "the awaiter ends once"); VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  }
};
// the four kinds behind one interface, through the public functions
using wr = world<asio::mutable_buffer, io::mutable_buffer_sequence>; using ww = world<asio::const_buffer, io::const_buffer_sequence>;
struct rstream { wr *w; io::read_op read_some(io::mutable_buffer_sequence b) { return {b, w, [](void *p, io::mutable_buffer_sequence s, cobalt::completion_handler<error_code, std::size_t> h) { ((wr *)p)->initiate(std::move(h), 0 + ((wr *)p)->done, s); }, [](void *p, io::mutable_buffer_sequence s, cobalt::handler<error_code, std::size_t> h) { ((wr *)p)->ready(std::move(h), ((wr *)p)->done, s); }}; } };
struct wstream { ww *w; io::write_op write_some(io::const_buffer_sequence b) { return {b, w, [](void *p, io::const_buffer_sequence s, cobalt::completion_handler<error_code, std::size_t> h) { ((ww *)p)->initiate(std::move(h), 0 + ((ww *)p)->done, s); }, [](void *p, io::const_buffer_sequence s, cobalt::handler<error_code, std::size_t> h) { ((ww *)p)->ready(std::move(h), ((ww *)p)->done, s); }}; } };
struct rdevice { wr *w; io::read_at_op read_some_at(u64 o, io::mutable_buffer_sequence b) { return {o, b, w, [](void *p, u64 o, io::mutable_buffer_sequence s, cobalt::completion_handler<error_code, std::size_t> h) { ((wr *)p)->initiate(std::move(h), o, s); }, [](void *p, u64 o, io::mutable_buffer_sequence s, cobalt::handler<error_code, std::size_t> h) { ((wr *)p)->ready(std::move(h), o, s); }}; } };
struct wdevice { ww *w; io::write_at_op write_some_at(u64 o, io::const_buffer_sequence b) { return {o, b, w, [](void *p, u64 o, io::const_buffer_sequence s, cobalt::completion_handler<error_code, std::size_t> h) { ((ww *)p)->initiate(std::move(h), o, s); }, [](void *p, u64 o, io::const_buffer_sequence s, cobalt::handler<error_code, std::size_t> h) { ((ww *)p)->ready(std::move(h), o, s); }}; } };

// the frame of the operation comes from the heap, to see every access after its end
struct heap_t : cobalt::pmr::memory_resource
{
  unsigned n = 0;
  void *do_allocate(std::size_t s, std::size_t) override { n++; return ::operator new(s); }
  void do_deallocate(void *p, std::size_t s, std::size_t) override { n--; ::operator delete(p); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
template<typename O> struct on_heap { O o; heap_t *r; auto operator co_await() { return o.operator co_await().replace_resource(r); } };
template<typename W, typename F> root user_heap(W &w, F f)
{
  struct d { unsigned *n; ~d() { ++*n; } } g{&w.gone};
  heap_t res;
  auto r = co_await cobalt::as_tuple(on_heap<decltype(f())>{f(), &res}); VP_CHECK(res.n == 0, "the memory of the operation is released before the awaiter is resumed");
  w.res.emplace(std::get<0>(r), std::get<1>(r)); w.resumed = true;
  co_await aw<void>{{&w.after}};
}
template<typename W, typename F> root user(W &w, F f)
{
  struct d { unsigned *n; ~d() { ++*n; } } g{&w.gone};
  auto r = co_await cobalt::as_tuple(f()); w.res.emplace(std::get<0>(r), std::get<1>(r)); w.resumed = true;
  co_await aw<void>{{&w.after}};
}
VP_CONTRACT(read_single) { wr w(1, false, 3); rstream s{&w}; user(w, [&] { return io::read(s, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(write_single) { ww w(1, false, 3); wstream s{&w}; user(w, [&] { return io::write(s, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(read_two) { wr w(2, false, 2); rstream s{&w}; user(w, [&] { return io::read(s, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(write_two) { ww w(2, false, 2); wstream s{&w}; user(w, [&] { return io::write(s, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(read_at_single) { wr w(1, true, 3); rdevice s{&w}; user(w, [&] { return io::read_at(s, w.offset, w.seq()); }); w.pump(); VP_COVER("end"); }
template<typename D> auto write_at_(D &s, u64 o, io::const_buffer_sequence b)
{
  if constexpr (requires { io::write_at(s, o, b); }) return io::write_at(s, o, b);
  else { vp_fail_("write_at accepts a stream"); return io::write_all_at(s.write_some_at(o, b)); }
}
VP_CONTRACT(write_at_single) { ww w(1, true, 3); wdevice s{&w}; user(w, [&] { return write_at_(s, w.offset, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(read_at_two) { wr w(2, true, 2); rdevice s{&w}; user(w, [&] { return io::read_at(s, w.offset, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(write_at_two) { ww w(2, true, 2); wdevice s{&w}; user(w, [&] { return write_at_(s, w.offset, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(read_heap) { wr w(1, false, 2); rstream s{&w}; user_heap(w, [&] { return io::read(s, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(write_heap) { ww w(1, false, 2); wstream s{&w}; user_heap(w, [&] { return io::write(s, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(read_at_heap) { wr w(1, true, 2); rdevice s{&w}; user_heap(w, [&] { return io::read_at(s, w.offset, w.seq()); }); w.pump(); VP_COVER("end"); }
VP_CONTRACT(write_at_heap) { ww w(1, true, 2); wdevice s{&w}; user_heap(w, [&] { return write_at_(s, w.offset, w.seq()); }); w.pump(); VP_COVER("end"); }
