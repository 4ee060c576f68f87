// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/acceptor io/socket io/stream_socket io/seq_packet_socket io/endpoint
// vp-source-flags io/acceptor: -include later_asio.hpp
// vp-assume: the default completion token of asio, which Boost 1.83 lacks, is deferred as in later releases (spec/later_asio.hpp); io/acceptor.cpp does not compile without one
#include <iodata.hpp>
#include <boost/cobalt/io/acceptor.hpp>
#include <memory>
using proto = io::protocol_type; using acc = io::acceptor; using aacc = asio::basic_socket_acceptor<proto, cobalt::executor>;
static io::endpoint at() { return io::endpoint(io::tcp_v4, vp_u32("address"), vp_u16("port")); }
static auto guard = [](world &w, auto f) { try { f(); } catch (boost::system::system_error &e) { w.put(e.code()); } };
// an acceptor that has a socket: asio's own is opened the same way
static std::unique_ptr<acc> mine(world &w) { auto s = std::make_unique<acc>(w.exec()); s->acceptor_.assign(io::tcp_v4, 77); return s; }
static std::unique_ptr<aacc> theirs(world &w) { auto s = std::make_unique<aacc>(w.exec()); s->assign(io::tcp_v4, 77); return s; }
VP_CONTRACT(construct)
{
  io::endpoint ep = at(); bool open = vp_bool("endpoint");
  same([&](world &w) { guard(w, [&] { if (open) { acc a(ep, w.exec()); w.put(a.local_endpoint()); } else { acc a(w.exec()); w.put(a.local_endpoint()); } }); },
       [&](world &w) { guard(w, [&] { if (open) { aacc a(w.exec(), ep); w.put(a.local_endpoint()); } else { aacc a(w.exec()); w.put(a.local_endpoint()); } }); },
       "an acceptor is made as asio makes it");
  VP_COVER("end");
}
VP_CONTRACT(bind_listen)
{
  io::endpoint ep = at(); bool open = vp_bool("open"), b = vp_bool("bind"); int n = (int)vp_u32("backlog"); bool d = vp_bool("default");
  same([&](world &w) { auto a = open ? mine(w) : std::make_unique<acc>(w.exec()); w.put(b ? a->bind(ep) : d ? a->listen() : a->listen(n)); },
       [&](world &w) { auto a = open ? theirs(w) : std::make_unique<aacc>(w.exec()); error_code ec; b ? a->bind(ep, ec) : d ? a->listen(asio::socket_base::max_listen_connections, ec) : a->listen(n, ec); w.put(ec); },
       "bind and listen are those of the acceptor");
  VP_COVER("end");
}
static auto no_cancel = [](world &, auto &) {};
static event acc_event() { event e; K.block = 1; vp_assume((e.k != event::cancel) & (e.k != event::close)); return e; }
// into a socket of the client, which may be open already
VP_CONTRACT(accept_socket)
{
  event e = acc_event(); bool open = vp_bool("open"), seq = vp_bool("seq packet"); static std::unique_ptr<io::stream_socket> s; static std::unique_ptr<io::seq_packet_socket> q;
  static std::unique_ptr<asio::basic_stream_socket<proto, cobalt::executor>> t;
  auto rest = [](world &w, auto &x) { w.put(*x); x.reset(); };
  auto h1 = history(e, mine, [=](world &w, auto &a)
  {
    if (seq) { q = std::make_unique<io::seq_packet_socket>(w.exec()); if (open) q->assign(io::tcp_v4, 78).value(); await_(a->accept(*q)); }
    else { s = std::make_unique<io::stream_socket>(w.exec()); if (open) s->assign(io::tcp_v4, 78).value(); await_(a->accept(*s)); }
  }, no_cancel, no_cancel);
  auto h2 = history(e, theirs, [=](world &w, auto &a) { t = std::make_unique<asio::basic_stream_socket<proto, cobalt::executor>>(w.exec()); if (open) t->assign(io::tcp_v4, 78); a->async_accept(*t, raw()); }, no_cancel, no_cancel);
  same([&](world &w) { h1(w); if (seq) rest(w, q); else rest(w, s); }, [&](world &w) { h2(w); rest(w, t); }, "the connection goes into the socket given");
  VP_COVER("end");
}
// a new socket
template<typename F> static io_root accepted(F f)
{
  error_code ec; bool there = false;
  try { auto s = co_await f(); there = true; W->done++; W->put(ec); W->put(s); } catch (boost::system::system_error &e) { ec = e.code(); }
  if (!there) { W->done++; W->put(ec); }
}
VP_CONTRACT(accept_new)
{
  event e = acc_event(); bool seq = vp_bool("seq packet"); using T = asio::basic_stream_socket<proto, cobalt::executor>; static std::unique_ptr<T> t;
  struct done { void operator()(error_code ec) const { W->done++; W->put(ec); T x(std::move(*t)); if (!ec) W->put(x); } };
  same(history(e, mine, [=](world &w, auto &a) { auto p = a.get(); if (seq) accepted([p] { return p->accept(io::local_seqpacket); }); else accepted([p] { return p->accept(); }); }, no_cancel, no_cancel),
       [&](world &w) { history(e, theirs, [=](world &w, auto &a) { t = std::make_unique<T>(w.exec()); a->async_accept(*t, asio::bind_cancellation_slot(W->sig.slot(), done{})); }, no_cancel, no_cancel)(w); t.reset(); },
       "the connection is returned as a socket of its own");
  VP_COVER("end");
}
VP_CONTRACT(wait)
{
  event e = acc_event(); auto t = vp_choice("what", 3); auto wt = t == 0 ? asio::socket_base::wait_read : t == 1 ? asio::socket_base::wait_write : asio::socket_base::wait_error;
  same(history(e, mine, [=](world &, auto &a) { await_(a->wait(wt)); }, no_cancel, no_cancel), history(e, theirs, [=](world &, auto &a) { a->async_wait(wt, raw()); }, no_cancel, no_cancel),
       "wait is that of the acceptor");
  VP_COVER("end");
}
