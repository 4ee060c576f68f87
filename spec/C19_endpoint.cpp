// vp-level: proof
// vp-sources: io/endpoint detail/exception detail/util error
// vp-assume: inet_pton and inet_ntop convert as POSIX says (they are ghosts here: any bytes, any success; the library must pass them the right text, family, address and size)
#include <boost/cobalt/io/endpoint.hpp>
#include <boost/asio/ip/tcp.hpp>
#include <boost/asio/ip/udp.hpp>
#include <boost/asio/ip/icmp.hpp>
#include <boost/asio/local/stream_protocol.hpp>
#include <boost/asio/local/datagram_protocol.hpp>
#include <boost/asio/local/seq_packet_protocol.hpp>
#include <boost/asio/generic/stream_protocol.hpp>
#include <vp.hpp>
#include <cstring>
#include <exception>
namespace io = boost::cobalt::io; namespace asio = boost::asio;
using addr16 = std::array<std::uint8_t, 16>;

// ---- the ghosts of the C library
static const char *want_text; static std::size_t want_size; static bool text_ok; static std::uint8_t net[16]; static int pton_result, want_af; static unsigned ptons, ntops;
static const void *ntop_src; static int ntop_af; static const char *ntop_text = "";
extern "C" int inet_pton(int af, const char *src, void *dst)
{
  ptons++; if (af != want_af && want_af) return 0;
  VP_CHECK(std::strlen(src) == want_size && std::memcmp(src, want_text, want_size) == 0, "the address is parsed from the text that was given");
  if (pton_result > 0) std::memcpy(dst, net, af == AF_INET ? 4 : 16);
  return pton_result;
}
extern "C" unsigned if_nametoindex(const char *n) { return 0; }
extern "C" const char *inet_ntop(int af, const void *src, char *dst, socklen_t size)
{
  ntops++; ntop_af = af; ntop_src = src;
  VP_CHECK(vp_valid(dst, size), "the text is written into a buffer of the stated size");
  std::size_t n = std::strlen(ntop_text); VP_CHECK(n < size, "the buffer fits every address");
  std::memcpy(dst, ntop_text, n + 1); return dst;
}

template<typename P> void protocol_is(const io::endpoint &ep, int family, P p)
{
  auto q = ep.protocol();
  VP_CHECK(q.family() == family && q.type() == p.type() && q.protocol() == p.protocol(), "an endpoint reports the protocol it was built for");
}
static io::endpoint passed(const io::endpoint &ep)
{
  // unchanged by copies and assignments
  if (!vp_bool("copied")) return ep;
  io::endpoint a(ep), b; b = a; io::endpoint c(b); return c;
}
template<auto P> bool access_fails(const io::endpoint &ep)
{
  VP_CHECK(get_if<P>(&ep) == nullptr, "asking for another family yields nothing");
  try { io::get<P>(ep); return false; } catch (io::bad_endpoint_access &) { return true; }
}
#define FAILS(P) VP_CHECK(access_fails<P>(ep), "asking for another family fails with an error")

// ---- protocols: compared with the ones of asio
template<typename A, typename P> void agree(A a, P p) { io::protocol_type q(a), r(p); VP_CHECK(q == r, "a protocol is the one of asio"); VP_CHECK(q == p && !(q != p), "a protocol is the one of asio"); }
VP_CONTRACT(protocols)
{
  agree(asio::ip::tcp::v4(), io::tcp_v4); agree(asio::ip::tcp::v6(), io::tcp_v6);
  agree(asio::ip::udp::v4(), io::udp_v4); agree(asio::ip::udp::v6(), io::udp_v6);
  agree(asio::local::stream_protocol(), io::local_stream); agree(asio::local::datagram_protocol(), io::local_datagram); agree(asio::local::seq_packet_protocol(), io::local_seqpacket);
  VP_CHECK(io::tcp.family() == AF_UNSPEC && io::tcp.type() == SOCK_STREAM && io::tcp.protocol() == IPPROTO_TCP, "tcp"); VP_CHECK(io::udp.family() == AF_UNSPEC && io::udp.type() == SOCK_DGRAM && io::udp.protocol() == IPPROTO_UDP, "udp");
  VP_CHECK(io::ip.family() == AF_UNSPEC && io::ip_v4.family() == AF_INET && io::ip_v6.family() == AF_INET6 && io::ip.type() == 0 && io::ip_v4.type() == 0 && io::ip_v6.type() == 0 && io::local_protocol.family() == AF_UNIX && io::local_protocol.type() == 0, "ip");
  VP_CHECK(io::icmp.protocol() == IPPROTO_ICMP, "icmp");
  // arbitrary protocols keep their parts and their order
  int f = (int)vp_u32("f"), f2 = (int)vp_u32("f2"), zz = 0; auto p = (io::protocol_type::protocol_t)vp_u32("p"); auto t = (io::protocol_type::type_t)vp_u32("t");
  io::protocol_type x(f, t, p), y(f2, t, p), z(x);
  VP_CHECK(x.family() == f && x.type() == t && x.protocol() == p && z == x, "a protocol has the parts it was built from"); VP_CHECK((x == y) == (f == f2), "protocols are equal exactly if all parts are"); VP_CHECK((x < y) == (f < f2), "protocols are ordered by their parts");
  VP_COVER("end");
}

// ---- from an address and a port
template<typename P> void v4(P p)
{
  std::uint32_t a = vp_u32("addr"); std::uint16_t port = vp_u16("port");
  io::endpoint ep0(p, a, port); auto ep = passed(ep0);
  protocol_is(ep, AF_INET, p); VP_CHECK(ep.size() == sizeof(sockaddr_in), "the size is the one of the address");
  auto g = io::get<io::ip_v4>(ep); VP_CHECK(g.addr() == a, "the address is the one given"); VP_CHECK(g.port() == port, "the port is the one given");
  auto &q = *get_if<P{}>(&ep); VP_CHECK((q.addr() == a) & (q.port() == port), "the address and port are the ones given");
  auto i = io::get<io::ip>(ep); VP_CHECK(i.is_ipv4() && !i.is_ipv6() && i.port() == port, "the address and port are the ones given");
  auto r = i.addr(); std::uint32_t last; std::memcpy(&last, &r[12], 4); VP_CHECK(last == a, "the address is the one given"); for (int k = 0; k < 12; k++) VP_CHECK(r[k] == 0, "an ipv4 address in the last bytes");
  auto *s = (const sockaddr_in *)ep.data(); VP_CHECK(s->sin_port == __builtin_bswap16(port) && s->sin_addr.s_addr == a, "the operating system sees the address and port");
  FAILS(io::ip_v6); FAILS(io::local_stream); FAILS(io::tcp_v6); FAILS(io::local_protocol);
  want_af = AF_INET; ntop_text = "255.255.255.255"; VP_CHECK(q.addr_str() == ntop_text && ntop_af == AF_INET && !std::memcmp(ntop_src, &a, 4), "the text is the one of the address");
  auto &ii = *get_if<io::ip>(&ep); VP_CHECK(ii.addr_str() == ntop_text && ntop_af == AF_INET && !std::memcmp(ntop_src, &a, 4) && ntops == 2, "the text is the one of the address");
}
VP_CONTRACT(from_v4)
{
  switch (vp_choice("protocol", 3)) { case 0: v4(io::tcp_v4); break; case 1: v4(io::udp_v4); break; default: v4(io::ip_v4); }
  VP_COVER("end");
}
static addr16 any16() { addr16 a; for (auto &x : a) x = vp_u8("byte"); return a; }
template<typename T> bool same16(const T &a, const addr16 &b) { bool r = true; for (int i = 0; i < 16; i++) r = r & (a[i] == b[i]); return r; }
template<typename P> void check_v6(const io::endpoint &ep, P, addr16 a, std::uint16_t port, std::uint32_t scope = 0)
{
  VP_CHECK(ep.size() == sizeof(sockaddr_in6), "the size is the one of the address");
  auto g = io::get<io::ip_v6>(ep); VP_CHECK(same16(g.addr(), a), "the address is the one given"); VP_CHECK(g.port() == port, "the port is the one given");
  auto &q = *get_if<P{}>(&ep); VP_CHECK(same16(q.addr(), a) & (q.port() == port), "the address and port are the ones given");
  auto i = io::get<io::ip>(ep); VP_CHECK(!i.is_ipv4() && i.is_ipv6() && i.port() == port && same16(i.addr(), a), "the address and port are the ones given");
  auto *s = (const sockaddr_in6 *)ep.data(); VP_CHECK(s->sin6_port == __builtin_bswap16(port) && same16(s->sin6_addr.s6_addr, a) && s->sin6_flowinfo == 0 && s->sin6_scope_id == scope, "the operating system sees the address and port");
  FAILS(io::ip_v4); FAILS(io::local_stream); FAILS(io::tcp_v4); FAILS(io::local_protocol);
  unsigned n0 = ntops; auto &h = *get_if<io::ip_v6>(&ep);
  ntop_text = "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255"; VP_CHECK(h.addr_str() == ntop_text && ntop_af == AF_INET6 && same16((const std::uint8_t *)ntop_src, a), "the text is the one of the address");
  auto &ii = *get_if<io::ip>(&ep); VP_CHECK(ii.addr_str() == ntop_text && ntop_af == AF_INET6 && same16((const std::uint8_t *)ntop_src, a) && ntops == n0 + 2, "the text is the one of the address");
}
template<typename P> void v6(P p)
{
  addr16 a = any16(), b = a; std::uint16_t port = vp_u16("port");
  io::endpoint ep0(p, std::span<std::uint8_t, 16>(b), port); auto ep = passed(ep0);
  protocol_is(ep, AF_INET6, p); check_v6(ep, p, a, port);
}
VP_CONTRACT(from_v6)
{
  switch (vp_choice("protocol", 3)) { case 0: v6(io::tcp_v6); break; case 1: v6(io::udp_v6); break; default: v6(io::ip_v6); }
  VP_COVER("end");
}

// ---- from a text
struct text
{
  char buf[64]; std::size_t n;
  text(std::size_t n) : n(n) { for (std::size_t i = 0; i < sizeof(buf); i++) buf[i] = '1'; want_text = buf; want_size = n; pton_result = (int)vp_choice("parses", 2); for (auto &x : net) x = vp_u8("byte"); }
  std::string_view view() const { return {buf, n}; }
  // with a scope id
  unsigned scope = 0;
  void scoped() { if (n < 3 || !vp_bool("scope id")) return; buf[n - 2] = '%'; buf[n - 1] = '7'; want_size = n - 2; scope = 7; }
};
enum result { ok, too_long, invalid };
template<typename P> result make(io::endpoint &ep, P p, text &t, std::uint16_t port)
{
  try { ep = io::endpoint(p, t.view(), port); return ok; }
  catch (std::length_error &) { return too_long; }
  catch (boost::system::system_error &e) { VP_CHECK(e.code() == asio::error::invalid_argument, "an invalid address is an invalid argument"); return invalid; }
}
template<typename P> void text_v4(P p)
{
  text t(vp_choice("size", 18)); want_af = AF_INET; std::uint16_t port = vp_u16("port"); io::endpoint ep; std::uint32_t a; std::memcpy(&a, net, 4);
  auto r = make(ep, p, t, port);
  if (t.n > 15) VP_CHECK(r == too_long && ptons == 0, "a text that is too long is an error");
  else if (pton_result <= 0) VP_CHECK(r == invalid && ptons == 1, "an invalid address is an invalid argument");
  else
  {
    VP_CHECK(r == ok && ptons == 1, "a valid address is accepted");
    protocol_is(ep, AF_INET, p); VP_CHECK(ep.size() == sizeof(sockaddr_in), "the size is the one of the address");
    auto g = io::get<io::ip_v4>(ep); VP_CHECK(g.addr() == a, "the address is the one given"); VP_CHECK(g.port() == port, "the port is the one given");
    vp_cover_("ok");
  }
}
VP_CONTRACT(from_text_v4) { if (vp_bool("udp")) text_v4(io::udp_v4); else text_v4(io::tcp_v4); VP_COVER("end"); }
template<typename P> void text_v6(P p)
{
  text t(vp_choice("size", 48)); t.scoped(); want_af = AF_INET6; std::uint16_t port = vp_u16("port"); io::endpoint ep; addr16 a; std::memcpy(a.data(), net, 16);
  auto r = make(ep, p, t, port);
  if (t.n > 45) VP_CHECK(r == too_long && ptons == 0, "a text that is too long is an error");
  else if (pton_result <= 0) VP_CHECK(r == invalid && ptons == 1, "an invalid address is an invalid argument");
  else { VP_CHECK(r == ok && ptons == 1, "a valid address is accepted"); protocol_is(ep, AF_INET6, p); check_v6(ep, p, a, port, t.scope); vp_cover_("ok"); }
}
VP_CONTRACT(from_text_v6) { if (vp_bool("udp")) text_v6(io::udp_v6); else text_v6(io::tcp_v6); VP_COVER("end"); }
// either family
template<typename P> void text_any(P p)
{
  text t(vp_choice("size", 48)); bool six = vp_bool("six"); if (six) t.scoped(); want_af = six ? AF_INET6 : AF_INET; std::uint16_t port = vp_u16("port"); io::endpoint ep; addr16 a; std::memcpy(a.data(), net, 16);
  auto r = make(ep, p, t, port);
  if (t.n > 45) VP_CHECK(r == too_long && ptons == 0, "a text that is too long is an error");
  else if (pton_result <= 0) VP_CHECK(r == invalid, "an invalid address is an invalid argument");
  else if (six) { VP_CHECK(r == ok, "a valid address is accepted"); protocol_is(ep, AF_INET6, p); check_v6(ep, io::ip_v6, a, port, t.scope); vp_cover_("six"); }
  else
  {
    VP_CHECK(r == ok, "a valid address is accepted"); protocol_is(ep, AF_INET, p); VP_CHECK(ep.size() == sizeof(sockaddr_in), "the size is the one of the address");
    std::uint32_t v; std::memcpy(&v, net, 4); auto g = io::get<io::ip_v4>(ep); VP_CHECK(g.addr() == v, "the address is the one given"); VP_CHECK(g.port() == port, "the port is the one given");
    FAILS(io::ip_v6); FAILS(io::local_stream); vp_cover_("four");
  }
}
VP_CONTRACT(from_text_any) { if (vp_bool("udp")) text_any(io::udp); else text_any(io::tcp); VP_COVER("end"); }

// ---- local endpoints
template<typename P> void local(P p)
{
  unsigned n = vp_choice("length", 112); char path[112]; 
  // every character arbitrary up to 16, above a few of them
  for (unsigned i = 0; i < n; i++) { path[i] = 'a'; if (n <= 16 || i == 0 || i == 5 || i + 1 == n) { path[i] = (char)vp_u8("char"); vp_assume(path[i] != 0); } }
  bool thrown = false; io::endpoint ep0;
  try { ep0 = io::endpoint(p, std::string_view(path, n)); } catch (std::length_error &) { thrown = true; }
  VP_CHECK(thrown == (n >= sizeof(sockaddr_un{}.sun_path)), "a path that is too long is an error"); if (thrown) { vp_cover_("long"); return; }
  auto ep = passed(ep0);
  protocol_is(ep, AF_UNIX, p);
  VP_CHECK(ep.size() == offsetof(sockaddr_un, sun_path) + n + 1, "the size covers the whole path");
  auto &l = *get_if<P{}>(&ep); VP_CHECK(l.path().size() == n, "the path is the one given"); bool same = true; for (unsigned i = 0; i < n; i++) same = same & (l.path().data()[i] == path[i]); VP_CHECK(same, "the path is the one given");
  FAILS(io::ip); FAILS(io::ip_v4); FAILS(io::ip_v6); FAILS(io::tcp_v4);
}
VP_CONTRACT(from_path) { switch (vp_choice("protocol", 3)) { case 0: local(io::local_stream); break; case 1: local(io::local_datagram); break; default: local(io::local_seqpacket); } VP_COVER("end"); }

// ---- access is by family, and by type and protocol where both are known
template<auto P> void accessible(io::endpoint &ep, io::protocol_type q, bool family)
{
  bool want = family && (P.type() == 0 || q.type() == 0 || q.type() == P.type()) && (P.protocol() == 0 || q.protocol() == 0 || q.protocol() == P.protocol());
  auto r = get_if<P>(&ep);
  VP_CHECK((r != nullptr) == want, "an endpoint is accessible as its own protocol only"); if (r) VP_CHECK((const void *)r == ep.data(), "the access is to the bytes of the endpoint");
}
VP_CONTRACT(access)
{
  io::endpoint ep; auto f = vp_u16("family"); *(sa_family_t *)ep.data() = f; auto t = (io::protocol_type::type_t)vp_u32("type"); auto p = (io::protocol_type::protocol_t)vp_u32("protocol"); ep.set_type(t); ep.set_protocol(p);
  auto q = ep.protocol(); VP_CHECK(q.family() == f && q.type() == t && q.protocol() == p, "an endpoint reports what was set");
  switch (vp_choice("as", 7))
  {
  case 0: accessible<io::tcp_v4>(ep, q, f == AF_INET); break;
  case 1: accessible<io::tcp_v6>(ep, q, f == AF_INET6); break;
  case 2: accessible<io::udp>(ep, q, f == AF_INET || f == AF_INET6); break;
  case 3: accessible<io::ip>(ep, q, f == AF_INET || f == AF_INET6); break;
  case 4: accessible<io::local_stream>(ep, q, f == AF_UNIX); break;
  case 5: accessible<io::local_protocol>(ep, q, f == AF_UNIX); break;
  default: accessible<io::udp_v6>(ep, q, f == AF_INET6);
  }
  VP_COVER("end");
}

// ---- from other endpoints: every byte, any size up to the capacity
struct foreign
{
  unsigned char *p; std::size_t n; io::protocol_type pr;
  io::protocol_type protocol() const { return pr; } void *data() { return p; } std::size_t size() const { return n; }
};
VP_CONTRACT(from_other)
{
  io::endpoint e0; std::size_t n = vp_choice("size", 129); VP_CHECK(e0.capacity() == 128, "ghost: the capacity");
  unsigned char b[128]; for (unsigned i = 0; i < n; i++) b[i] = vp_u8("byte");
  auto t = (io::protocol_type::type_t)vp_u32("type"); auto p = (io::protocol_type::protocol_t)vp_u32("protocol"); sa_family_t f = 0; if (n >= 2) std::memcpy(&f, b, 2);
  foreign o{b, n, io::protocol_type(f, t, p)};
  io::endpoint ep0(o); auto ep = passed(ep0);
  VP_CHECK(ep.size() == n, "the size is kept"); auto d = (const unsigned char *)ep.data(); bool same = true; for (unsigned i = 0; i < n; i++) same = same & (d[i] == b[i]); VP_CHECK(same, "every byte is kept");
  VP_CHECK(ep.protocol().type() == t && ep.protocol().protocol() == p && (n < 2 || ep.protocol().family() == f), "the protocol is kept");
  VP_COVER("end");
}
VP_CONTRACT(from_asio)
{
  std::uint16_t port = vp_u16("port");
  switch (vp_choice("kind", 4))
  {
  case 0:
  {
    std::uint32_t a = vp_u32("addr"); asio::ip::tcp::endpoint e(asio::ip::address_v4(a), port); io::endpoint ep = e;
    VP_CHECK(ep.protocol() == io::tcp_v4 && ep.size() == e.size(), "the protocol is kept"); auto g = io::get<io::tcp>(ep); VP_CHECK(g.port() == port && g.is_ipv4(), "the port is kept"); VP_CHECK(io::get<io::tcp_v4>(ep).addr() == __builtin_bswap32(a), "the address is kept");
    break;
  }
  case 1:
  {
    auto a = any16(); auto scope = vp_u32("scope"); asio::ip::udp::endpoint e(asio::ip::address_v6(a, scope), port); io::endpoint ep = e;
    VP_CHECK(ep.protocol() == asio::ip::udp::v6() && ep.size() == e.size(), "the protocol is kept"); check_v6(ep, io::ip_v6, a, port, scope);
    break;
  }
  case 2:
  {
    asio::local::stream_protocol::endpoint e("/tmp/a-socket"); io::endpoint ep = e;
    VP_CHECK(ep.protocol() == io::local_stream && ep.size() == e.size() && io::get<io::local_stream>(ep).path() == "/tmp/a-socket", "the path is kept");
    break;
  }
  default:
  {
    // and back
    std::uint32_t a = vp_u32("addr"); io::endpoint ep(io::tcp_v4, a, port); asio::generic::stream_protocol::endpoint g(ep.data(), ep.size()); VP_CHECK(g.size() == ep.size() && !std::memcmp(g.data(), ep.data(), g.size()), "every byte is kept");
    asio::ip::tcp::endpoint e; e.resize(ep.size()); std::memcpy(e.data(), ep.data(), ep.size()); VP_CHECK(e.port() == port && e.address().to_v4().to_uint() == __builtin_bswap32(a), "the address and port are kept");
  }
  }
  VP_COVER("end");
}
VP_CONTRACT(resized)
{
  io::endpoint ep; std::size_t n = vp_u64("size"); vp_assume(n <= ep.capacity()); ep.resize(n); VP_CHECK(ep.size() == n, "an endpoint can be resized up to its capacity"); VP_CHECK(vp_valid(ep.data(), ep.size()), "the size never exceeds the storage");
  VP_COVER("end");
}
