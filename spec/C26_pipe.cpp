// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/pipe
#include <iodata.hpp>
#include <boost/cobalt/io/pipe.hpp>
#include <boost/asio/readable_pipe.hpp>
#include <boost/asio/writable_pipe.hpp>
#include <memory>
using rp = io::readable_pipe; using wp = io::writable_pipe; using arp = asio::basic_readable_pipe<cobalt::executor>; using awp = asio::basic_writable_pipe<cobalt::executor>;
template<typename T> static auto make() { return [](world &w) { return std::make_unique<T>(w.exec(), 77); }; }
template<typename T> static auto make_c() { return [](world &w) { return std::make_unique<T>(77, w.exec()); }; }
VP_CONTRACT(read)
{
  buffers b; event e; K.block = 1; unsigned reg = vp_choice("pollable", 2); K.regular = reg;
  same(history(e, make_c<rp>(), [b](world &, auto &s) { await_(s->read_some(b.in())); }, c_cancel, c_close),
       history(e, make<arp>(), [b](world &, auto &s) { s->async_read_some(b.rin(), raw()); }, a_cancel, a_close), "read_some is that of the pipe");
  VP_COVER("end");
}
VP_CONTRACT(write)
{
  buffers b; event e; K.block = 1; unsigned reg = vp_choice("pollable", 2); K.regular = reg;
  same(history(e, make_c<wp>(), [b](world &, auto &s) { await_(s->write_some(b.out())); }, c_cancel, c_close),
       history(e, make<awp>(), [b](world &, auto &s) { s->async_write_some(b.rout(), raw()); }, a_cancel, a_close), "write_some is that of the pipe");
  VP_COVER("end");
}
template<typename P, typename A> static void sync()
{
  unsigned k = vp_choice("function", 6); bool open = vp_bool("open"), refuse = vp_bool("refused"); int fd = (int)vp_u32("fd"); vp_assume(fd > 2 && fd < 1000000); K.refuse = refuse;
  auto guard = [](world &w, auto f) { try { f(); } catch (boost::system::system_error &e) { w.put(e.code()); } };
  same([&](world &w)
       {
         guard(w, [&]
         {
           auto s = open ? std::make_unique<P>(fd, w.exec()) : std::make_unique<P>(w.exec()); w.put(s->is_open()); w.put(s->get_executor() == w.exec());
           switch (k)
           {
           case 0: w.put(s->assign(99)); break;
           case 1: w.put(s->cancel()); break;
           case 2: w.put(s->close()); break;
           case 3: w.put(s->release()); break;
           case 4: { P t(std::move(*s)); w.put(s->is_open()); w.put(t); break; }
           default: break;
           }
           w.put(*s);
         });
       },
       [&](world &w)
       {
         guard(w, [&]
         {
           auto s = open ? std::make_unique<A>(w.exec(), fd) : std::make_unique<A>(w.exec()); error_code ec; w.put(s->is_open()); w.put(s->get_executor() == w.exec());
           switch (k)
           {
           case 0: s->assign(99, ec); w.put(ec); break;
           case 1: s->cancel(ec); w.put(ec); break;
           case 2: s->close(ec); w.put(ec); break;
           case 3: { auto h = s->release(ec); w.put(ec); if (!ec) w.put(h); break; }
           case 4: { A t(std::move(*s)); w.put(s->is_open()); w.put(t); break; }
           default: break;
           }
           w.put(*s);
         });
       }, "the functions of a pipe are those of asio's");
}
VP_CONTRACT(readable_functions)
{
  sync<rp, arp>();
  VP_COVER("end");
}
VP_CONTRACT(writable_functions)
{
  sync<wp, awp>();
  VP_COVER("end");
}
// both ends, or the error and nothing left behind
VP_CONTRACT(make_pipe)
{
  bool refuse = vp_bool("refused"); K.refuse = refuse;
  {
    world w; W = &w; K.reset();
    try
    {
      auto r = io::pipe(w.exec());
      VP_CHECK(K.w[0] == S_pipe, "a pipe is made"); bool ok = K.a[0].mode == 0 && !refuse;
      VP_CHECK(r.has_value() == ok, "both ends are returned, or the error");
      if (ok) VP_CHECK(r->first.native_handle() == 3 && r->second.native_handle() == 4, "each end is the one for its direction");
      else VP_CHECK(r.error().value() == (K.a[0].mode ? K.a[0].err : ENOMEM), "the error is that of the operating system");
    }
    catch (...) { VP_CHECK(false, "an error is returned, not thrown"); }
    unsigned closed = 0, i; for (i = 1; i + 1 < K.n; i++) closed += K.w[i] == S_close && (K.w[i + 1] == 3 || K.w[i + 1] == 4);
    VP_CHECK(closed == (K.a[0].mode ? 0 : 2), "no descriptor is left behind");
  }
  VP_COVER("end");
}
