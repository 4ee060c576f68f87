// One asynchronous operation of an I/O object from initiation to completion, cancellation, closing or destruction.
#pragma once
#include <iocmp.hpp>
#include <boost/cobalt/io/buffer.hpp>
#include <sys/epoll.h>
// arbitrary buffers
struct buffers
{
  unsigned n; asio::mutable_buffer m[2]; asio::const_buffer c[2];
  buffers()
  {
    n = 1 + vp_choice("buffers", 2);
    for (unsigned i = 0; i < 2; i++) { auto p = (void *)vp_u64("address"); auto s = vp_input("size", 40); m[i] = {p, s}; c[i] = {p, s}; if (i >= n) m[i] = {}, c[i] = {}; }
  }
  io::mutable_buffer_sequence in() const { if (n == 1) return m[0]; return std::span<const asio::mutable_buffer>(m, 2); }
  io::const_buffer_sequence out() const { if (n == 1) return c[0]; return std::span<const asio::const_buffer>(c, 2); }
  std::span<const asio::mutable_buffer> rin() const { return {m, n}; }
  std::span<const asio::const_buffer> rout() const { return {c, n}; }
};
// what happens while the operation is under way
struct event
{
  enum { nothing, readable, writable, hang_up, cancel, close, signal, destroy, n_ } k; asio::cancellation_type ct; bool composed = false;   // of an operation of several steps, which the object must outlive
  explicit event(unsigned kind) : k((decltype(k))kind), ct(asio::cancellation_type::none) {}
  event() : k((decltype(k))vp_choice("event", n_)), ct(asio::cancellation_type::none) { if (k == signal) { unsigned t = vp_choice("type", 3); ct = t == 0 ? asio::cancellation_type::terminal : t == 1 ? asio::cancellation_type::partial : asio::cancellation_type::total; } }
};
// make(w): the object; start(s): initiates; both runs call the same functions of the object for the event
template<typename Make, typename Start, typename Cancel, typename Close> auto history(event e, Make make, Start start, Cancel cancel, Close close)
{
  return [=](world &w)
  {
    auto s = make(w);
    start(w, s); w.poll(); w.put(w.done);
    switch (e.k)
    {
    case event::readable: w.fire(EPOLLIN); break;
    case event::writable: w.fire(EPOLLOUT); break;
    case event::hang_up: w.fire(EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); break;
    case event::cancel: cancel(w, *s); break;
    case event::close: close(w, *s); break;
    case event::signal: w.sig.emit(e.ct); break;
    case event::destroy: s.reset(); break;
    default: break;
    }
    w.poll(); w.put(w.done);
    if (s && e.composed) { cancel(w, *s); w.poll(); w.put(w.done); }
    if (s) { s.reset(); w.poll(); w.put(w.done); }
  };
}
inline auto c_cancel = [](world &w, auto &s) { w.put(s.cancel()); };
inline auto c_close = [](world &w, auto &s) { w.put(s.close()); };
inline auto a_cancel = [](world &w, auto &s) { error_code ec; s.cancel(ec); w.put(ec); };
inline auto a_close = [](world &w, auto &s) { error_code ec; s.close(ec); w.put(ec); };
