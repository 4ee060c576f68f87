// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/serial_port
// vp-bounded open: device names of at most two characters
#include <iodata.hpp>
#include <boost/cobalt/io/serial_port.hpp>
#include <memory>
#include <stdexcept>
using port = io::serial_port; using aport = asio::basic_serial_port<cobalt::executor>; using base = asio::serial_port_base;
template<typename F> static void guard(world &w, F f)
{
  try { f(); }
  catch (boost::system::system_error &e) { w.put(e.code()); }
  catch (std::out_of_range &) { w.put(0x1111); }
}
VP_CONTRACT(read)
{
  buffers b; event e; K.block = 1;
  same(history(e, [](world &w) { return std::make_unique<port>(77, w.exec()); }, [b](world &, auto &s) { await_(s->read_some(b.in())); }, c_cancel, c_close),
       history(e, [](world &w) { return std::make_unique<aport>(w.exec(), 77); }, [b](world &, auto &s) { s->async_read_some(b.rin(), raw()); }, a_cancel, a_close), "read_some is that of the port");
  VP_COVER("end");
}
VP_CONTRACT(write)
{
  buffers b; event e; K.block = 1;
  same(history(e, [](world &w) { return std::make_unique<port>(77, w.exec()); }, [b](world &, auto &s) { await_(s->write_some(b.out())); }, c_cancel, c_close),
       history(e, [](world &w) { return std::make_unique<aport>(w.exec(), 77); }, [b](world &, auto &s) { s->async_write_some(b.rout(), raw()); }, a_cancel, a_close), "write_some is that of the port");
  VP_COVER("end");
}
VP_CONTRACT(functions)
{
  unsigned k = vp_choice("function", 6); bool open = vp_bool("open"), refuse = vp_bool("refused"); int fd = (int)vp_u32("fd"); vp_assume(fd > 2 && fd < 1000000); K.refuse = refuse;
  same([&](world &w) { guard(w, [&]
       {
         auto s = open ? std::make_unique<port>(fd, w.exec()) : std::make_unique<port>(w.exec()); w.put(s->is_open());
         switch (k)
         {
         case 0: w.put(s->assign(99)); break;
         case 1: w.put(s->cancel()); break;
         case 2: w.put(s->close()); break;
         case 3: w.put(s->send_break()); break;
         case 4: { port t(std::move(*s)); w.put(s->is_open()); w.put(t); break; }
         default: break;
         }
         w.put(*s);
       }); },
       [&](world &w) { guard(w, [&]
       {
         auto s = open ? std::make_unique<aport>(w.exec(), fd) : std::make_unique<aport>(w.exec()); error_code ec; w.put(s->is_open());
         switch (k)
         {
         case 0: s->assign(99, ec); w.put(ec); break;
         case 1: s->cancel(ec); w.put(ec); break;
         case 2: s->close(ec); w.put(ec); break;
         case 3: s->send_break(ec); w.put(ec); break;
         case 4: { aport t(std::move(*s)); w.put(s->is_open()); w.put(t); break; }
         default: break;
         }
         w.put(*s);
       }); }, "the functions of a serial port are those of asio's");
  VP_COVER("end");
}
// a device is opened by its name, whatever the name; a device that cannot be set up is closed again
VP_CONTRACT(open)
{
  unsigned how = vp_choice("how", 2); bool refuse = vp_bool("refused"); K.refuse = refuse; unsigned n = vp_choice("length", 3);
  char name[3]; for (auto &c : name) { c = (char)vp_u8("name"); vp_assume(c != 0); } std::string_view dev(name, n);
  same([&](world &w) { guard(w, [&]
       {
         auto s = how == 0 ? std::make_unique<port>(dev, w.exec()) : std::make_unique<port>(w.exec());
         if (how) { w.put(s->open(dev)); }
         w.put(*s);
       }); },
       [&](world &w) { guard(w, [&]
       {
         auto s = how == 0 ? std::make_unique<aport>(w.exec(), std::string(dev)) : std::make_unique<aport>(w.exec());
         if (how) { error_code ec; s->open(std::string(dev), ec); w.put(ec); }
         w.put(*s);
       }); }, "open is that of the port");
  VP_COVER("end");
}
VP_CONTRACT(set_options)
{
  unsigned k = vp_choice("option", 4); unsigned v = vp_u32("value"); bool open = vp_bool("open");
  same([&](world &w) { guard(w, [&]
       {
         auto s = open ? std::make_unique<port>(77, w.exec()) : std::make_unique<port>(w.exec());
         switch (k)
         {
         case 0: w.put(s->set_baud_rate(v)); break;
         case 1: w.put(s->set_character_size(v)); break;
         case 2: w.put(s->set_flow_control((port::flow_control)(v & 3))); break;
         default: w.put(s->set_parity((port::parity)(v & 3))); break;
         }
       }); },
       [&](world &w) { guard(w, [&]
       {
         auto s = open ? std::make_unique<aport>(w.exec(), 77) : std::make_unique<aport>(w.exec()); error_code ec;
         switch (k)
         {
         case 0: s->set_option(base::baud_rate(v), ec); break;
         case 1: s->set_option(base::character_size(v), ec); break;
         case 2: s->set_option(base::flow_control((base::flow_control::type)(v & 3)), ec); break;
         default: s->set_option(base::parity((base::parity::type)(v & 3)), ec); break;
         }
         w.put(ec);
       }); }, "an option is set as given");
  VP_COVER("end");
}
VP_CONTRACT(get_options)
{
  unsigned k = vp_choice("option", 4); bool open = vp_bool("open");
  auto put = [](world &w, auto r) { w.put(r.has_error() ? r.error() : error_code()); if (r.has_value()) w.put((u64)*r); };
  same([&](world &w) { guard(w, [&]
       {
         auto s = open ? std::make_unique<port>(77, w.exec()) : std::make_unique<port>(w.exec());
         switch (k)
         {
         case 0: put(w, s->get_baud_rate()); break;
         case 1: put(w, s->get_character_size()); break;
         case 2: put(w, s->get_flow_control()); break;
         default: put(w, s->get_parity()); break;
         }
       }); },
       [&](world &w) { guard(w, [&]
       {
         auto s = open ? std::make_unique<aport>(w.exec(), 77) : std::make_unique<aport>(w.exec()); error_code ec;
         auto get = [&](auto o) { s->get_option(o, ec); w.put(ec); if (!ec) w.put((u64)o.value()); };
         switch (k)
         {
         case 0: get(base::baud_rate()); break;
         case 1: get(base::character_size()); break;
         case 2: get(base::flow_control()); break;
         default: get(base::parity()); break;
         }
       }); }, "an option is reported as it is");
  VP_COVER("end");
}
