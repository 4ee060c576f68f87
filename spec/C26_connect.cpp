// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/socket io/stream_socket io/datagram_socket io/seq_packet_socket io/endpoint
#include <iodata.hpp>
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/io/datagram_socket.hpp>
#include <boost/cobalt/io/seq_packet_socket.hpp>
#include <boost/asio/connect.hpp>
#include <memory>
using proto = io::protocol_type;
// an endpoint of any family whose type and protocol may be left open; wanted = what the socket must make of it
static std::uint8_t zero[16];
static io::endpoint any_endpoint(io::endpoint &wanted, int type, int protocol)
{
  io::endpoint ep; unsigned f = vp_choice("family", 4); bool t = vp_bool("type given"), p = vp_bool("protocol given");
  if (f == 0) ep = io::endpoint(io::ip_v4, vp_u32("address"), vp_u16("port")); else if (f == 1) ep = ep = io::endpoint(io::ip_v6, std::span(zero), vp_u16("port"));
  else if (f == 2) ep = io::endpoint(io::local_protocol, "/a"); else { ep = io::endpoint(io::ip_v4, 0u, vp_u16("port")); ((sockaddr *)ep.data())->sa_family = AF_PACKET; }
  if (t) { int v = (int)vp_u32("type"); vp_assume(v != 0); ep.set_type(static_cast<proto::type_t>(v)); }
  if (p) { int v = (int)vp_u32("protocol"); vp_assume(v != 0); ep.set_protocol(static_cast<proto::protocol_t>(v)); }
  wanted = ep;
  if (f < 3 && !t) wanted.set_type(static_cast<proto::type_t>(type));
  if (f < 2 && !p) wanted.set_protocol(static_cast<proto::protocol_t>(protocol));
  return ep;
}
template<typename S, typename A> static void connect_(event e, bool opened, proto pr, const io::endpoint &ep, const io::endpoint &wanted)
{
  same(history(e, [=](world &w) { return opened ? std::make_unique<S>(77, pr, w.exec()) : std::make_unique<S>(w.exec()); }, [=](world &, auto &s) { await_(s->connect(ep)); }, c_cancel, c_close),
       history(e, [=](world &w) { return opened ? std::make_unique<A>(w.exec(), pr, 77) : std::make_unique<A>(w.exec()); }, [=](world &, auto &s) { s->async_connect(wanted, raw()); }, a_cancel, a_close),
       "connect goes to the endpoint given, as the kind of socket it is");
}
template<typename S, typename A, int Type, int Protocol> static void adopt_()
{
  event e(event::writable); K.block = 1; io::endpoint wanted, ep = any_endpoint(wanted, Type, Protocol);
  connect_<S, A>(e, false, proto(AF_INET, static_cast<proto::type_t>(Type), static_cast<proto::protocol_t>(Protocol)), ep, wanted);
}
VP_CONTRACT(connect_stream)
{
  adopt_<io::stream_socket, asio::basic_stream_socket<proto, cobalt::executor>, SOCK_STREAM, IPPROTO_TCP>();
  VP_COVER("end");
}
VP_CONTRACT(connect_datagram)
{
  adopt_<io::datagram_socket, asio::basic_datagram_socket<proto, cobalt::executor>, SOCK_DGRAM, IPPROTO_UDP>();
  VP_COVER("end");
}
VP_CONTRACT(connect_seq_packet)
{
  adopt_<io::seq_packet_socket, asio::basic_seq_packet_socket<proto, cobalt::executor>, SOCK_SEQPACKET, IPPROTO_SCTP>();
  VP_COVER("end");
}
// what may happen while it is under way
VP_CONTRACT(connect_history)
{
  event e; K.block = 1; bool opened = vp_bool("open"); io::endpoint ep(io::tcp_v4, vp_u32("address"), vp_u16("port"));
  connect_<io::stream_socket, asio::basic_stream_socket<proto, cobalt::executor>>(e, opened, ep.protocol(), ep, ep);
  VP_COVER("end");
}
// a list of endpoints: each is tried until one takes the connection, which is reported
VP_CONTRACT(connect_range)
{
  unsigned n = vp_choice("endpoints", 3); event e; K.block = 1; e.composed = true; vp_assume((e.k != event::hang_up) & (e.k != event::destroy)); io::endpoint_sequence eps, wanted; bool opened = vp_bool("open");
  for (unsigned i = 0; i < n; i++)
  {
    auto ep = io::endpoint(io::ip_v4, vp_u32("address"), vp_u16("port")); eps.push_back(ep);
    ep.set_type(SOCK_STREAM); ep.set_protocol(static_cast<proto::protocol_t>(IPPROTO_TCP)); wanted.push_back(ep);
  }
  using S = io::stream_socket; using A = asio::basic_stream_socket<proto, cobalt::executor>; proto pr(AF_INET, SOCK_STREAM, static_cast<proto::protocol_t>(IPPROTO_TCP));
  same(history(e, [=](world &w) { return opened ? std::make_unique<S>(77, pr, w.exec()) : std::make_unique<S>(w.exec()); }, [&](world &, auto &s) { await_(s->connect(eps)); }, c_cancel, c_close),
       history(e, [=](world &w) { return opened ? std::make_unique<A>(w.exec(), pr, 77) : std::make_unique<A>(w.exec()); }, [&](world &, auto &s) { asio::async_connect(*s, wanted, raw()); }, a_cancel, a_close),
       "connect tries the endpoints given, in order");
  VP_COVER("end");
}
// two connected sockets: both hold an end, or no descriptor is left behind
VP_CONTRACT(connect_pair_fails_clean)
{
  world w; W = &w; K.reset(); unsigned k = vp_choice("which is taken", 3); proto p(AF_UNIX, (proto::type_t)vp_u32("type"), (proto::protocol_t)vp_u32("protocol"));
  {
    io::stream_socket a{w.exec()}, b{w.exec()}; if (k == 1) VP_CHECK(a.assign(p, 77).has_value(), "setup"); if (k == 2) VP_CHECK(b.assign(p, 77).has_value(), "setup");
    K.n = 0; auto r = io::connect_pair(p, a, b);
    VP_CHECK(K.n >= 4 && K.w[0] == S_socketpair && K.w[1] == AF_UNIX && K.w[2] == (u64)(std::int64_t)(int)p.type() && K.w[3] == (u64)(std::int64_t)(int)p.protocol(), "a pair of the protocol given is made");
    unsigned closed[2] = {}; for (unsigned i = 4; i + 1 < K.n; i++) if (K.w[i] == S_close && (K.w[i + 1] == 3 || K.w[i + 1] == 4)) closed[K.w[i + 1] - 3]++;
    if (K.a[0].mode) VP_CHECK(!r && r.error().value() == K.a[0].err && !closed[0] && !closed[1] && a.is_open() == (k == 1) && b.is_open() == (k == 2), "a pair that cannot be made is reported");
    else if (k == 0) VP_CHECK(r && a.native_handle() == 3 && b.native_handle() == 4 && !closed[0] && !closed[1], "both sockets hold an end");
    else VP_CHECK(!r && r.error() == asio::error::already_open && closed[0] == 1 && closed[1] == 1, "an end that cannot be kept is closed, once");
    if (k == 2 && !K.a[0].mode) VP_CHECK(!a.is_open() && b.native_handle() == 77, "a socket that was open stays so");
    if (k == 1 && !K.a[0].mode) VP_CHECK(!b.is_open() && a.native_handle() == 77, "a socket that was open stays so");
  }
  VP_COVER("end");
}
template<typename P> static void made(P proto, int type)
{
  world w; W = &w; K.reset();
  {
    auto r = io::make_pair(proto);
    VP_CHECK(K.w[0] == S_socketpair && K.w[1] == AF_UNIX && K.w[2] == (u64)type, "a local pair is made");
    VP_CHECK(r.has_value() == (K.a[0].mode == 0), "a pair is returned or the error"); if (r) VP_CHECK(r->first.native_handle() == 3 && r->second.native_handle() == 4, "both ends are in the pair");
    else VP_CHECK(r.error().value() == K.a[0].err, "a pair is returned or the error");
    K.n = 0;
  }
  w.poll(); unsigned closed = 0; for (unsigned i = 0; i + 1 < K.n; i++) closed += K.w[i] == S_close;
  VP_CHECK(closed == (K.a[0].mode ? 0 : 2), "both ends are closed with their sockets");
}
VP_CONTRACT(make_pair)
{
  if (vp_bool("stream")) made(io::local_stream, SOCK_STREAM); else made(io::local_seqpacket, SOCK_SEQPACKET);
  VP_COVER("end");
}
