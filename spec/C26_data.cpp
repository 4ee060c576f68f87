// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/socket io/stream_socket io/datagram_socket io/seq_packet_socket io/endpoint
#include <iodata.hpp>
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/io/datagram_socket.hpp>
#include <boost/cobalt/io/seq_packet_socket.hpp>
#include <memory>
using proto = io::protocol_type;
template<typename S, typename A> struct kind
{
  static constexpr int type = std::is_same_v<S, io::stream_socket> ? SOCK_STREAM : std::is_same_v<S, io::datagram_socket> ? SOCK_DGRAM : SOCK_SEQPACKET;
  static proto p() { return proto(static_cast<proto::family_t>(AF_UNIX), static_cast<proto::type_t>(type), static_cast<proto::protocol_t>(0)); }
  template<typename F, typename G> static void run(F f, G g, const char *what, unsigned blocks = 1)
  {
    event e; K.block = blocks;
    same(history(e, [](world &w) { return std::make_unique<S>(77, p(), w.exec()); }, f, c_cancel, c_close),
         history(e, [](world &w) { return std::make_unique<A>(w.exec(), p(), 77); }, g, a_cancel, a_close), what);
  }
};
template<typename T> concept ok = true;
#define KIND(n, S, A) using n = kind<io::S, asio::A<proto, cobalt::executor>>;
KIND(stream, stream_socket, basic_stream_socket) KIND(datagram, datagram_socket, basic_datagram_socket) KIND(seqpacket, seq_packet_socket, basic_seq_packet_socket)
VP_CONTRACT(stream_read)
{
  buffers b;
  stream::run([b](world &, auto &s) { await_(s->read_some(b.in())); }, [b](world &, auto &s) { s->async_read_some(b.rin(), raw()); }, "read_some is that of the socket");
  VP_COVER("end");
}
VP_CONTRACT(stream_write)
{
  buffers b;
  stream::run([b](world &, auto &s) { await_(s->write_some(b.out())); }, [b](world &, auto &s) { s->async_write_some(b.rout(), raw()); }, "write_some is that of the socket");
  VP_COVER("end");
}
VP_CONTRACT(datagram_receive)
{
  buffers b;
  datagram::run([b](world &, auto &s) { await_(s->receive(b.in())); }, [b](world &, auto &s) { s->async_receive(b.rin(), raw()); }, "receive is that of the socket");
  VP_COVER("end");
}
VP_CONTRACT(datagram_send)
{
  buffers b;
  datagram::run([b](world &, auto &s) { await_(s->send(b.out())); }, [b](world &, auto &s) { s->async_send(b.rout(), raw()); }, "send is that of the socket");
  VP_COVER("end");
}
VP_CONTRACT(seq_packet_receive)
{
  buffers b; bool oob = vp_bool("out of band"); int fl = (int)vp_u32("flags"); fl = oob ? fl | MSG_OOB : fl & ~MSG_OOB; static int out; bool of = vp_bool("out flags");
  seqpacket::run([=](world &, auto &s) { out = 0; if (of) await_(s->receive(fl, out, b.in())); else await_(s->receive(fl, b.in())); },
                 [=](world &, auto &s) { static int o2; out = 0; if (of) s->async_receive(b.rin(), fl, out, raw()); else s->async_receive(b.rin(), fl, o2, raw()); }, "receive is that of the socket");
  VP_COVER("end");
}
VP_CONTRACT(seq_packet_send)
{
  buffers b; int fl = (int)vp_u32("flags");
  seqpacket::run([=](world &, auto &s) { await_(s->send(fl, b.out())); }, [=](world &, auto &s) { s->async_send(b.rout(), fl, raw()); }, "send is that of the socket");
  VP_COVER("end");
}
VP_CONTRACT(wait)
{
  auto t = vp_choice("what", 3); auto wt = t == 0 ? asio::socket_base::wait_read : t == 1 ? asio::socket_base::wait_write : asio::socket_base::wait_error;
  stream::run([=](world &, auto &s) { await_(s->wait(wt)); },
              [=](world &w, auto &s)
              {
                // reports at once when there is something to read
                if (wt == asio::socket_base::wait_read)
                {
                  asio::socket_base::bytes_readable br; error_code ec; s->io_control(br, ec);
                  if (!ec && br.get() > 0) return raw_{}(ec);
                }
                s->async_wait(wt, raw());
              }, "wait is that of the socket");
  VP_COVER("end");
}
