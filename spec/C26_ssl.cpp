// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/endpoint io/socket io/stream_socket io/ssl
// vp-bounded handshake: at most one step that wants to read first, and two bytes to send per step
// vp-bounded handshake_buffer: at most one step that wants to read first, and two bytes to send per step
// vp-bounded read: at most one step that wants to read first, and two bytes to send per step
// vp-bounded write: at most one step that wants to read first, and two bytes to send per step
// vp-bounded shutdown: at most one step that wants to read first, and two bytes to send per step
#include <iodata.hpp>
#include <ossl.hpp>
#include <boost/cobalt/io/ssl.hpp>
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/asio/ip/tcp.hpp>
#include <memory>
using stream = io::ssl::stream; using asock = asio::basic_stream_socket<io::protocol_type, cobalt::executor>; using astream = asio::ssl::stream<asock>; using ht = asio::ssl::stream_base::handshake_type;
static asio::ssl::context &context() { static char c; static asio::ssl::context x((SSL_CTX *)&c); return x; }
static auto c_make() { return [](world &w) { L.reset(); return std::make_unique<stream>(context(), 77, io::tcp_v4, w.exec()); }; }
static auto a_make() { return [](world &w) { L.reset(); return std::make_unique<astream>(asock(w.exec(), io::tcp_v4, 77), context()); }; }
static auto a_cancel_ = [](world &w, auto &s) { error_code ec; s.lowest_layer().cancel(ec); w.put(ec); };
static auto a_close_ = [](world &w, auto &s) { error_code ec; s.lowest_layer().close(ec); w.put(ec); };
static char user[8];
template<typename F> static auto guarded(F f) { return [=](world &w) { try { f(w); } catch (boost::system::system_error &e) { w.put(e.code()); } }; }
static void scene() { L.retries = 1; K.user = user; K.nuser = sizeof(user); }
VP_CONTRACT(handshake)
{
  event e; e.composed = true; scene(); ht t = vp_bool("client") ? ht::client : ht::server; vp_assume(e.k != event::destroy);
  same(guarded(history(e, c_make(), [t](world &, auto &s) { await_(s->handshake(t)); }, c_cancel, c_close)),
       guarded(history(e, a_make(), [t](world &, auto &s) { s->async_handshake(t, raw()); }, a_cancel_, a_close_)), "a handshake is that of the stream");
  VP_CHECK(L.live == 0, "nothing of the connection is left");
  VP_COVER("end");
}

// one or two buffers of the memory named user
struct parts
{
  unsigned n; asio::mutable_buffer m[2]; asio::const_buffer c[2];
  explicit parts(bool any = true) : n(any ? 1 + vp_choice("buffers", 2) : 2) { bool empty = any && vp_bool("empty"); m[0] = {user, empty ? 0u : 4u}; m[1] = {user + 4, 3}; c[0] = m[0]; c[1] = m[1]; }
  io::mutable_buffer_sequence in() const { if (n == 1) return m[0]; return std::span<const asio::mutable_buffer>(m, 2); }
  io::const_buffer_sequence out() const { if (n == 1) return c[0]; return std::span<const asio::const_buffer>(c, 2); }
  std::span<const asio::mutable_buffer> rin() const { return {m, n}; }
  std::span<const asio::const_buffer> rout() const { return {c, n}; }
};
VP_CONTRACT(handshake_buffer)
{
  event e; e.composed = true; scene(); ht t = vp_bool("client") ? ht::client : ht::server; vp_assume(e.k != event::destroy); parts p;
  same(guarded(history(e, c_make(), [=](world &, auto &s) { await_(s->handshake(t, p.out())); }, c_cancel, c_close)),
       guarded(history(e, a_make(), [=](world &, auto &s) { s->async_handshake(t, p.rout(), raw()); }, a_cancel_, a_close_)), "a handshake is that of the stream");
  VP_CHECK(L.live == 0, "nothing of the connection is left");
  VP_COVER("end");
}
// the steps before: a handshake or none, which succeeds or not
static bool up_(world &w, stream &s) { await_(s.handshake(ht::client)); w.poll(); return s.secure(); }
static bool up_(world &w, astream &s) { static bool up; up = false; s.async_handshake(ht::client, [&w](error_code ec) { w.done++; w.put(ec); up = !ec; }); w.poll(); return up; }
template<typename Make, typename F> static auto after_(bool shake, Make make, F f)
{
  return [=](world &w)
  {
    auto s = make(w); L.quiet = true; bool up = shake && up_(w, *s); w.put(up); L.quiet = false; L.retries = 1; K.block = 0;
    if constexpr (requires { s->secure(); }) VP_CHECK(s->secure() == up, "a stream is secure once its handshake succeeded"); 
    return f(w, s, up);
  };
}
template<typename S, typename Start, typename Cancel, typename Close> static void during(world &w, event e, std::unique_ptr<S> &s, Start start, Cancel cancel, Close close) { e.composed = true; history(e, [&](world &) { return std::move(s); }, start, cancel, close)(w); }
static void transfer_(bool read)
{
  bool shake = vp_bool("handshake"); event e; scene(); L.retries = 0; vp_assume(e.k != event::destroy); e.composed = true; parts p(e.k == event::nothing);
  same(guarded(after_(shake, c_make(), [=](world &w, auto &s, bool) { during(w, e, s, [=](world &, auto &s) { if (read) await_(s->read_some(p.in())); else await_(s->write_some(p.out())); }, c_cancel, c_close); })),
       guarded(after_(shake, a_make(), [=](world &w, auto &s, bool up) { during(w, e, s, [=](world &, auto &s)
       {
         if (read) { if (up) s->async_read_some(p.rin(), raw()); else s->next_layer().async_read_some(p.rin(), raw()); }
         else { if (up) s->async_write_some(p.rout(), raw()); else s->next_layer().async_write_some(p.rout(), raw()); }
       }, a_cancel_, a_close_); })), "what is sent and received is secured once the handshake succeeded");
}
VP_CONTRACT(read)
{
  transfer_(true);
  VP_COVER("end");
}
VP_CONTRACT(write)
{
  transfer_(false);
  VP_COVER("end");
}
VP_CONTRACT(shutdown)
{
  bool shake = vp_bool("handshake"); unsigned what = vp_choice("operation", 3); event e; scene(); L.retries = 0; vp_assume(e.k != event::destroy); if (!shake || what) vp_assume(e.k == event::nothing); parts p(false); e.composed = true;
  same(guarded(after_(shake, c_make(), [=](world &w, auto &s, bool) { during(w, e, s, [=](world &, auto &s) { if (what == 0) await_(s->shutdown()); else if (what == 1) await_(s->handshake(ht::server)); else await_(s->handshake(ht::server, p.out())); }, c_cancel, c_close); })),
       guarded(after_(shake, a_make(), [=](world &w, auto &s, bool up) { during(w, e, s, [=](world &w, auto &s)
       {
         if (what == 0) { if (up) s->async_shutdown(raw()); else raw_{}(error_code(asio::error::no_protocol_option)); }
         else if (up) { if (what == 1) raw_{}(error_code(asio::error::already_started)); else raw_{}(error_code(asio::error::already_started), 0); }
         else if (what == 1) s->async_handshake(ht::server, raw());
         else s->async_handshake(ht::server, p.rout(), raw());
       }, a_cancel_, a_close_); })), "a stream is shut down if it is secure, and secured if it is not");
  VP_COVER("end");
}
// a stream that was moved is the stream it was
VP_CONTRACT(moved)
{
  bool shake = vp_bool("handshake"); unsigned k = vp_choice("function", 5); scene(); L.retries = 0; bool gone = vp_bool("old object gone");
  same(guarded(after_(shake, c_make(), [=](world &w, auto &s, bool up)
       {
         stream t(std::move(*s)); if (gone) s.reset();
         VP_CHECK(t.secure() == up, "a stream that was moved is as secure as it was");
         switch (k) { case 0: w.put(t.cancel()); break; case 1: w.put(t.close()); break; case 2: w.put(t.release()); break; case 3: await_(t.write_some(asio::const_buffer(user, 4))); w.poll(); break; default: break; }
         w.put(t); L.retries = 0; K.block = 0;
       })),
       guarded(after_(shake, a_make(), [=](world &w, auto &s, bool up)
       {
         astream t(std::move(*s)); auto &l = t.lowest_layer(); if (gone) s.reset(); error_code ec;
         switch (k) { case 0: l.cancel(ec); w.put(ec); break; case 1: l.close(ec); w.put(ec); break; case 2: { auto h = l.release(ec); w.put(ec); if (!ec) w.put(h); break; } case 3: if (up) t.async_write_some(asio::const_buffer(user, 4), raw()); else t.next_layer().async_write_some(asio::const_buffer(user, 4), raw()); w.poll(); break; default: break; }
         w.put(l); L.retries = 0; K.block = 0;
       })), "a stream that was moved is the stream it was");
  VP_COVER("end");
}
struct yes { bool operator()(bool, const asio::ssl::context &) const { return true; } bool operator()(bool, asio::ssl::verify_context &) const { return true; } };
VP_CONTRACT(functions)
{
  unsigned how = vp_choice("constructor", 4), k = vp_choice("function", 5); int n = (int)vp_u32("value"); scene();
  io::endpoint ep; ep.set_protocol(IPPROTO_TCP); ep.set_type(SOCK_STREAM); { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = (unsigned short)vp_u32("port"); a.sin_addr.s_addr = vp_u32("address"); ep.resize(sizeof(a)); std::memcpy(ep.data(), &a, sizeof(a)); }
  same(guarded([=](world &w)
       {
         L.reset(); auto &c = context();
         auto s = how == 0 ? std::make_unique<stream>(c, w.exec()) : how == 1 ? std::make_unique<stream>(c, 77, io::tcp_v4, w.exec()) : how == 2 ? std::make_unique<stream>(c, ep, w.exec()) : std::make_unique<stream>(c, io::stream_socket(77, io::tcp_v4, w.exec()));
         w.put(*s); VP_CHECK(!s->secure(), "a stream is not secure before its handshake");
         switch (k)
         {
         case 0: w.put(s->set_verify_depth(n)); break;
         case 1: w.put(s->set_verify_mode((io::ssl::verify)n)); break;
         case 2: w.put(s->set_verify_callback(yes{})); break;
         case 3: w.put(s->close()); break;
         default: break;
         }
         w.put(*s);
       }),
       guarded([=](world &w)
       {
         L.reset(); auto &c = context(); error_code ec;
         auto s = how == 0 ? std::make_unique<astream>(w.exec(), c) : how == 1 ? std::make_unique<astream>(asock(w.exec(), io::tcp_v4, 77), c) : how == 2 ? std::make_unique<astream>(asock(w.exec(), ep), c) : std::make_unique<astream>(asock(w.exec(), io::tcp_v4, 77), c);
         auto &l = s->lowest_layer(); w.put(l);
         switch (k)
         {
         case 0: s->set_verify_depth(n, ec); w.put(ec); break;
         case 1: s->set_verify_mode((asio::ssl::verify_mode)n, ec); w.put(ec); break;
         case 2: s->set_verify_callback(yes{}, ec); w.put(ec); break;
         case 3: l.close(ec); w.put(ec); break;
         default: break;
         }
         w.put(l);
       }), "the functions of a stream are those of asio's");
  VP_CHECK(L.live == 0, "nothing of the connection is left");
  VP_COVER("end");
}
