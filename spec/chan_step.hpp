// One operation on a channel in an arbitrary state: any limit, any fill, any position of the ring buffer, any number of
// operations that are already woken up, up to two operations waiting on either side.
#pragma once
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/error.hpp>
#include <comb.hpp>
using u64 = std::uint64_t;
using vp::asio::error::broken_pipe;
struct parked { struct promise_type { unsigned *dead; promise_type(unsigned &d) : dead(&d) {} ~promise_type() { ++*dead; } parked get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
  std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { vp_fail_("unexpected"); } };
  std::coroutine_handle<promise_type> h; };
inline parked park(unsigned &dead) { co_return; }

template<class T> struct chan_state;
template<> struct chan_state<u32>
{
  using C = cobalt::channel<u32>;
  env_t env; C ch{0, env.exec};
  u64 cap, first, size, wr, ww; u32 *buf; u64 k; u32 at_k, front;
  bool closed;
  u64 slot(u64 i) const { return i < cap ? i : i - cap; }
  chan_state()
  {
    cap = vp_input("limit", 30); first = vp_input("first", 30); size = vp_input("size", 30); wr = vp_input("woken readers", 30); ww = vp_input("woken writers", 30); k = vp_input("k", 30);
    vp_assume(cap > 0); vp_assume(first < cap); vp_assume(size <= cap); vp_assume(wr <= size); vp_assume(ww <= cap - size); vp_assume(k < cap);
    closed = vp_bool("closed");
    buf = (u32 *)vp_arena(cap * 4);
    auto &b = ch.buffer_; b.m_buff = buf; b.m_end = buf + cap; b.m_first = buf + first; b.m_last = buf + slot(first + size); b.m_size = size;
    ch.waking_readers_ = wr; ch.waking_writers_ = ww; ch.is_closed_ = closed;
    at_k = buf[k]; front = buf[first];
  }
  ~chan_state() { auto &b = ch.buffer_; b.m_buff = b.m_end = b.m_first = b.m_last = nullptr; b.m_size = 0; }
  u64 limit() const { return cap; }
  u64 fill() const { return ch.buffer_.size(); }
  void check(const char *ob, u64 nfirst, u64 nsize)
  {
    auto &b = ch.buffer_;
    VP_CHECK((b.m_buff == buf) & (b.m_end == buf + cap), "the buffer stays in place");
    VP_CHECK((b.m_first == buf + nfirst) & (b.m_size == nsize) & (b.m_last == buf + slot(nfirst + nsize)), ob);
  }
  void unchanged() { check("nothing is added or removed", first, size); VP_CHECK(buf[k] == at_k, "no stored value changes"); }
  auto read() { return ch.read(); }
  auto write(u32 &v) { return ch.write(v); }
  void read_ok(boost::system::result<u32> r)
  {
    VP_CHECK(!r.has_error(), "a ready read succeeds");
    VP_CHECK(*r == front, "a read yields the oldest value");
    check("a read removes exactly the oldest value", slot(first + 1), size - 1);
    VP_CHECK((k == first) | (buf[k] == at_k), "no other stored value changes");
  }
  void write_ok(boost::system::result<void> r, u32 v)
  {
    VP_CHECK(!r.has_error(), "a ready write succeeds");
    check("a write appends exactly one value", first, size + 1);
    VP_CHECK(buf[slot(first + size)] == v, "the value written is stored last");
    VP_CHECK((k == slot(first + size)) | (buf[k] == at_k), "no other stored value changes");
  }
};
template<> struct chan_state<void>
{
  using C = cobalt::channel<void>;
  env_t env; C ch{0, env.exec};
  u64 cap, size, wr, ww; bool closed;
  chan_state()
  {
    cap = vp_u64("limit"); size = vp_u64("units"); wr = vp_u64("woken readers"); ww = vp_u64("woken writers");
    vp_assume(cap > 0); vp_assume(size <= cap); vp_assume(wr <= size); vp_assume(ww <= cap - size);
    closed = vp_bool("closed");
    ch.limit_ = cap; ch.n_ = size; ch.waking_readers_ = wr; ch.waking_writers_ = ww; ch.is_closed_ = closed;
  }
  void unchanged() { VP_CHECK((ch.n_ == size) & (ch.limit_ == cap), "nothing is added or removed"); }
  auto read() { return ch.read(); }
  auto write(u32 &) { return ch.write(); }
  void read_ok(boost::system::result<void> r) { VP_CHECK(!r.has_error(), "a ready read succeeds"); VP_CHECK((ch.n_ == size - 1) & (ch.limit_ == cap), "a read takes one unit"); }
  void write_ok(boost::system::result<void> r, u32) { VP_CHECK(!r.has_error(), "a ready write succeeds"); VP_CHECK((ch.n_ == size + 1) & (ch.limit_ == cap), "a write adds one unit"); }
};
template<class R> bool broken(const R &r) { return r.has_error() && r.error() == boost::system::error_code(vp::asio::error::broken_pipe); }
template<class R> bool aborted(const R &r) { return r.has_error() && r.error() == boost::system::error_code(vp::asio::error::operation_aborted); }

// reading / writing: `waiting` operations wait on the other side
template<class T> void read_contract()
{
  unsigned dead = 0;
  {
    chan_state<T> s; u32 vals[2] = {1, 2};
    unsigned n = s.closed ? 0 : vp_choice("waiting writers", 3);
    auto w0 = s.write(vals[0]), w1 = s.write(vals[1]);
    if (n > 0) { vp_assume(s.size + s.ww == s.cap); w0.awaited_from.reset(park(dead).h.address()); s.ch.write_queue_.push_back(w0); }
    if (n > 1) { w1.awaited_from.reset(park(dead).h.address()); s.ch.write_queue_.push_back(w1); }
    auto r = s.read();
    bool ready = r.await_ready();
    VP_CHECK(ready == (s.closed | (s.size > s.wr)), "a read is ready exactly if an unreserved value is stored or the channel is closed");
    if (!ready) { s.unchanged(); return; }
    auto res = r.await_resume(cobalt::as_result_tag{});
    if (s.size == 0) { VP_COVER("closed"); VP_CHECK(broken(res), "reading from an empty closed channel fails with broken_pipe"); s.unchanged(); }
    else { VP_COVER("value"); s.read_ok(std::move(res)); }
    VP_CHECK(s.ch.waking_readers_ == s.wr, "no reader is woken by a read");
    VP_CHECK(s.ch.waking_writers_ == s.ww + (n > 0), "the oldest waiting writer gets the room");
    if (n > 0) { VP_COVER("writer woken"); VP_CHECK(w0.woken && !w0.is_linked() && s.env.ctx.queued == 1, "the oldest waiting writer is woken through the executor"); }
    else VP_CHECK(s.env.ctx.queued == 0, "nothing else is woken");
    if (n > 1) VP_CHECK(!w1.woken && &s.ch.write_queue_.front() == &w1 && w1.awaited_from, "the next writer goes on waiting");
    s.env.ctx.clear();
    VP_CHECK(dead == (n > 0), "the woken coroutine is handed over exactly once");
  }
}
template<class T> void write_contract()
{
  unsigned dead = 0;
  {
    chan_state<T> s; u32 v = vp_u32("value");
    unsigned n = s.closed ? 0 : vp_choice("waiting readers", 3);
    auto r0 = s.read(), r1 = s.read();
    if (n > 0) { vp_assume(s.size == s.wr); r0.awaited_from.reset(park(dead).h.address()); s.ch.read_queue_.push_back(r0); }
    if (n > 1) { r1.awaited_from.reset(park(dead).h.address()); s.ch.read_queue_.push_back(r1); }
    auto w = s.write(v); u32 v0 = v;
    bool ready = w.await_ready();
    VP_CHECK(ready == (s.closed | (s.size + s.ww < s.cap)), "a write is ready exactly if there is unreserved room or the channel is closed");
    if (!ready) { s.unchanged(); return; }
    auto res = w.await_resume(cobalt::as_result_tag{});
    if (s.closed) { VP_COVER("closed"); VP_CHECK(broken(res), "writing to a closed channel fails with broken_pipe"); s.unchanged(); }
    else { VP_COVER("stored"); s.write_ok(std::move(res), v0); }
    VP_CHECK(s.ch.waking_writers_ == s.ww, "no writer is woken by a write");
    VP_CHECK(s.ch.waking_readers_ == s.wr + (n > 0), "the oldest waiting reader gets the value");
    if (n > 0) { VP_COVER("reader woken"); VP_CHECK(r0.woken && !r0.is_linked() && s.env.ctx.queued == 1, "the oldest waiting reader is woken through the executor"); }
    else VP_CHECK(s.env.ctx.queued == 0, "nothing else is woken");
    if (n > 1) VP_CHECK(!r1.woken && &s.ch.read_queue_.front() == &r1 && r1.awaited_from, "the next reader goes on waiting");
    s.env.ctx.clear();
    VP_CHECK(dead == (n > 0), "the woken coroutine is handed over exactly once");
  }
}
// an operation that was woken up before is resumed; it may have been cancelled in between
template<class T> void woken_read_contract()
{
  unsigned dead = 0;
  {
    chan_state<T> s; vp_assume(s.wr > 0);
    bool cancelled = vp_bool("cancelled"), next = !s.closed && vp_bool("another waits");
    auto r = s.read(), r1 = s.read(); r.woken = true; r.cancelled = cancelled;
    if (next) { vp_assume(s.size == s.wr); r1.awaited_from.reset(park(dead).h.address()); s.ch.read_queue_.push_back(r1); }
    auto res = r.await_resume(cobalt::as_result_tag{});
    bool pass = cancelled & next;
    if (cancelled) { VP_COVER("cancelled"); VP_CHECK(aborted(res), "a cancelled read reports operation_aborted"); s.unchanged(); }
    else { VP_COVER("value"); s.read_ok(std::move(res)); }
    VP_CHECK(s.ch.waking_readers_ == s.wr - 1 + pass, "the reservation of a woken reader ends or is passed on");
    VP_CHECK(s.env.ctx.queued == pass && r1.woken == pass, "the next reader gets the value a cancelled one left");
    VP_COVER("end");
  }
}
template<class T> void woken_write_contract()
{
  unsigned dead = 0;
  {
    chan_state<T> s; vp_assume(s.ww > 0);
    bool cancelled = vp_bool("cancelled"), next = !s.closed && vp_bool("another waits");
    u32 v = vp_u32("value"), v0 = v, v1 = 1;
    s.ch.is_closed_ = false; auto w = s.write(v), w1 = s.write(v1); s.ch.is_closed_ = s.closed; w.woken = true; w.cancelled = cancelled;
    if (next) { vp_assume(s.size + s.ww == s.cap); w1.awaited_from.reset(park(dead).h.address()); s.ch.write_queue_.push_back(w1); }
    auto res = w.await_resume(cobalt::as_result_tag{});
    bool pass = cancelled & next;
    if (s.closed) { VP_COVER("closed"); VP_CHECK(broken(res), "a waiting write fails with broken_pipe when the channel is closed"); s.unchanged(); }
    else if (cancelled) { VP_COVER("cancelled"); VP_CHECK(aborted(res), "a cancelled write reports operation_aborted"); s.unchanged(); }
    else { VP_COVER("stored"); s.write_ok(std::move(res), v0); }
    VP_CHECK(s.ch.waking_writers_ == s.ww - 1 + pass, "the reservation of a woken writer ends or is passed on");
    VP_CHECK(s.env.ctx.queued == pass && w1.woken == pass, "the next writer gets the room a cancelled one left");
    VP_COVER("end");
  }
}
