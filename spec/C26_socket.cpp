// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/socket io/stream_socket io/endpoint
#include <iocmp.hpp>
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/asio/ip/tcp.hpp>
using proto = io::protocol_type; using sock = io::stream_socket; using asock = asio::basic_stream_socket<proto, cobalt::executor>; namespace sb = asio;
static proto any_proto()
{
  auto f = vp_choice("family", 3); int p = (int)vp_u32("protocol"), t = (int)vp_u32("type");
  return proto(static_cast<proto::family_t>(f == 0 ? AF_INET : f == 1 ? AF_INET6 : AF_UNIX), static_cast<proto::type_t>(t), static_cast<proto::protocol_t>(p));
}
// a synchronous function on an open socket
template<typename F, typename G> void sync(F f, G g, const char *what)
{
  proto p(AF_INET, SOCK_STREAM, IPPROTO_TCP);
  same([&](world &w) { sock s{w.exec()}; w.put(s.assign(p, 77)); f(w, s); w.put(s.is_open()); },
       [&](world &w) { asock s{w.exec()}; error_code ec; s.assign(p, 77, ec); w.put(ec); error_code e2; g(w, s, e2); w.put(s.is_open()); }, what);
}
VP_CONTRACT(open_close)
{
  proto pr = any_proto();
  same([&](world &w) { sock s{w.exec()}; w.put(s.is_open()); w.put(s.open(pr)); w.put(s.is_open()); w.put(s.native_handle()); w.put(s.close()); w.put(s.is_open()); },
       [&](world &w) { asock s{w.exec()}; error_code ec, e2; w.put(s.is_open()); s.open(pr, ec); w.put(ec); w.put(s.is_open()); w.put(s.native_handle()); s.close(e2); w.put(e2); w.put(s.is_open()); },
       "open and close are those of the socket");
  VP_COVER("end");
}
VP_CONTRACT(close_release_cancel)
{
  auto k = vp_choice("function", 4);
  sync([&](world &w, sock &s) { if (k == 0) w.put(s.close()); else if (k == 1) w.put(s.release()); else if (k == 2) w.put(s.cancel()); else w.put(s.native_handle()); },
       [&](world &w, asock &s, error_code &ec)
       {
         if (k == 0) { s.close(ec); w.put(ec); }
         else if (k == 1) { auto h = s.release(ec); w.put(ec); if (!ec) w.put(h); }
         else if (k == 2) { s.cancel(ec); w.put(ec); }
         else w.put(s.native_handle());
       }, "closing, releasing and cancelling act on the socket and report what happened");
  VP_COVER("end");
}
VP_CONTRACT(shutdown_endpoints_readable)
{
  auto k = vp_choice("function", 4); int how = (int)vp_u32("how");
  auto ep = [](world &w, auto r) { w.put(r.has_error() ? r.error() : error_code()); if (r) { w.put((u64)r->size()); bytes(r->data(), r->size()); w.put((u64)(u32)r->protocol().family()); w.put((u64)(u32)r->protocol().type()); w.put((u64)(u32)r->protocol().protocol()); } };
  sync([&](world &w, sock &s)
       {
         if (k == 0) w.put(s.shutdown(static_cast<sock::shutdown_type>(how))); else if (k == 1) ep(w, s.local_endpoint()); else if (k == 2) ep(w, s.remote_endpoint()); else w.put(s.bytes_readable());
       },
       [&](world &w, asock &s, error_code &ec)
       {
         if (k == 0) { s.shutdown(static_cast<sock::shutdown_type>(how), ec); w.put(ec); }
         else if (k <= 2)
         {
           auto e = k == 1 ? s.local_endpoint(ec) : s.remote_endpoint(ec); boost::system::result<io::endpoint> r(e);
           if (ec) r = ec;
           ep(w, r);
         }
         else { asio::socket_base::bytes_readable b; s.io_control(b, ec); w.put(ec); if (!ec) w.put((u64)b.get()); }
       }, "shutdown, endpoints and readable bytes are those of the socket");
  VP_COVER("end");
}
#define OPTION(name, T, Opt, obl) \
  sync([&](world &w, sock &s) { if (get) w.put(s.get_##name()); else w.put(s.set_##name((T)v)); }, \
       [&](world &w, asock &s, error_code &ec) { if (get) { Opt o; s.get_option(o, ec); w.put(ec); if (!ec) w.put((T)o.value()); } else { s.set_option(Opt((T)v), ec); w.put(ec); } }, obl)
VP_CONTRACT(bool_options)
{
  bool get = vp_bool("get"); bool v = vp_u8("value") & 1; using B = asio::socket_base;
  switch (vp_choice("option", 6))
  {
  case 0: OPTION(debug, bool, B::debug, "the debug option is that of the socket"); break;
  case 1: OPTION(do_not_route, bool, B::do_not_route, "the do_not_route option is that of the socket"); break;
  case 2: OPTION(enable_connection_aborted, bool, B::enable_connection_aborted, "the enable_connection_aborted option is that of the socket"); break;
  case 3: OPTION(keep_alive, bool, B::keep_alive, "the keep_alive option is that of the socket"); break;
  case 4: OPTION(reuse_address, bool, B::reuse_address, "the reuse_address option is that of the socket"); break;
  default: OPTION(no_delay, bool, asio::ip::tcp::no_delay, "the no_delay option is that of the socket"); break;
  }
  VP_COVER("end");
}
VP_CONTRACT(int_options)
{
  bool get = vp_bool("get"); int v = (int)vp_u32("value"); using B = asio::socket_base;
  switch (vp_choice("option", 5))
  {
  case 0: OPTION(receive_buffer_size, int, B::receive_buffer_size, "the receive_buffer_size option is that of the socket"); break;
  case 1: OPTION(send_buffer_size, int, B::send_buffer_size, "the send_buffer_size option is that of the socket"); break;
  case 2: OPTION(receive_low_watermark, int, B::receive_low_watermark, "the receive_low_watermark option is that of the socket"); break;
  case 3: OPTION(send_low_watermark, int, B::send_low_watermark, "the send_low_watermark option is that of the socket"); break;
  default:
  {
    bool l = vp_u8("linger") & 1;
    sync([&](world &w, sock &s) { if (get) { auto r = s.get_linger(); w.put(r.has_error() ? r.error() : error_code()); if (r) { w.put(r->first); w.put((u64)r->second); } } else w.put(s.set_linger(l, v)); },
         [&](world &w, asock &s, error_code &ec) { if (get) { B::linger o; s.get_option(o, ec); w.put(ec); if (!ec) { w.put(o.enabled()); w.put((u64)o.timeout()); } } else { s.set_option(B::linger(l, v), ec); w.put(ec); } },
         "the linger option is that of the socket");
  }
  }
  VP_COVER("end");
}
// constructors and moves
VP_CONTRACT(construct_move)
{
  auto k = vp_choice("constructor", 3); bool throws = false; int fd = (int)vp_u32("fd"); vp_assume(fd > 0 && fd < 1000000); proto pr = any_proto();
  io::endpoint ep = io::endpoint(io::tcp_v4, vp_u32("address"), vp_u16("port"));
  auto moved = [&](world &w, auto &&s) { auto t(std::move(s)); w.put(s.is_open()); w.put(t.is_open()); w.put(t.native_handle()); error_code ec; if constexpr (requires { t.close(ec); }) t.close(ec); else { auto r = t.close(); ec = r ? error_code() : r.error(); } w.put(ec); w.put(t.is_open()); };
  auto guard = [&](world &w, auto f) { try { f(); } catch (boost::system::system_error &e) { w.put(e.code()); } };
  same([&](world &w) { guard(w, [&] { if (k == 0) moved(w, sock{w.exec()}); else if (k == 1) moved(w, sock{fd, pr, w.exec()}); else moved(w, sock{ep, w.exec()}); }); },
       [&](world &w) { guard(w, [&] { if (k == 0) moved(w, asock{w.exec()}); else if (k == 1) moved(w, asock{w.exec(), pr, fd}); else moved(w, asock{w.exec(), ep}); }); },
       "constructing and moving are those of the socket");
  VP_COVER("end");
}
