// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/file io/stream_file io/random_access_file
#include <iodata.hpp>
#include <boost/cobalt/io/stream_file.hpp>
#include <boost/cobalt/io/random_access_file.hpp>
#include <memory>
#include <string>
#if defined(BOOST_ASIO_HAS_FILE)
#error "the contracts are those of files without io_uring"
#endif
using sf = io::stream_file; using rf = io::random_access_file; using desc = asio::posix::basic_stream_descriptor<cobalt::executor>; using file = io::file;
// a file of the client, and the descriptor it stands for
template<typename T> static auto mine() { return [](world &w) { return std::make_unique<T>(77, w.exec()); }; }
static auto theirs = [](world &w) { return std::make_unique<desc>(w.exec(), 77); };
VP_CONTRACT(stream_read)
{
  buffers b; event e; K.block = 1; unsigned reg = vp_choice("regular", 2); K.regular = reg;
  same(history(e, mine<sf>(), [b](world &, auto &s) { await_(s->read_some(b.in())); }, c_cancel, c_close),
       history(e, theirs, [b](world &, auto &s) { s->async_read_some(b.rin(), raw()); }, a_cancel, a_close), "read_some reads the file and cancel cancels it");
  VP_COVER("end");
}
VP_CONTRACT(stream_write)
{
  buffers b; event e; K.block = 1; unsigned reg = vp_choice("regular", 2); K.regular = reg;
  same(history(e, mine<sf>(), [b](world &, auto &s) { await_(s->write_some(b.out())); }, c_cancel, c_close),
       history(e, theirs, [b](world &, auto &s) { s->async_write_some(b.rout(), raw()); }, a_cancel, a_close), "write_some writes the file and cancel cancels it");
  VP_COVER("end");
}
// at an offset from the start of the file
static bool sought(u64 off) { if (os_lseek(77, (off_t)off, SEEK_SET) < 0) { raw()(error_code(errno, boost::system::system_category()), std::size_t(0)); return false; } return true; }
VP_CONTRACT(read_at)
{
  buffers b; event e; K.block = 1; unsigned reg = vp_choice("regular", 2); K.regular = reg; u64 off = vp_u64("offset");
  same(history(e, mine<rf>(), [=](world &, auto &s) { await_(s->read_some_at(off, b.in())); }, c_cancel, c_close),
       history(e, theirs, [=](world &, auto &s) { if (sought(off)) s->async_read_some(b.rin(), raw()); }, a_cancel, a_close), "read_some_at reads at the offset from the start");
  VP_COVER("end");
}
VP_CONTRACT(write_at)
{
  buffers b; event e; K.block = 1; unsigned reg = vp_choice("regular", 2); K.regular = reg; u64 off = vp_u64("offset");
  same(history(e, mine<rf>(), [=](world &, auto &s) { await_(s->write_some_at(off, b.out())); }, c_cancel, c_close),
       history(e, theirs, [=](world &, auto &s) { if (sought(off)) s->async_write_some(b.rout(), raw()); }, a_cancel, a_close), "write_some_at writes at the offset from the start");
  VP_COVER("end");
}
static unsigned closes(int fd) { unsigned n = 0; for (unsigned i = 0; i + 1 < K.n; i++) n += K.w[i] == S_close && K.w[i + 1] == (u64)fd; return n; }
static int fails(const answer &a) { return a.mode ? a.err : 0; }
// the calls that are one system call: that one, with these arguments, and its outcome
VP_CONTRACT(functions)
{
  unsigned k = vp_choice("function", 5); u64 n = vp_u64("size"); std::int64_t off = (std::int64_t)vp_u64("offset"); unsigned wh = vp_choice("whence", 3); bool open = vp_bool("open");
  world w; W = &w; K.reset();
  {
    sf f{w.exec()}; if (open) VP_CHECK(f.assign(77).has_value(), "a descriptor is taken over");
    VP_CHECK(f.is_open() == open && f.native_handle() == (open ? 77 : -1) && f.get_executor() == w.exec(), "the file holds the descriptor given"); K.n = 0; u64 fd = open ? 77 : ~0ull;
    auto is = [&](sys s, unsigned words) { return K.n == words && K.w[0] == s && K.w[1] == fd; };
    auto reports = [&](auto &r, unsigned i) { return r.has_value() == !K.a[i].mode && (r.has_value() || (r.error().value() == K.a[i].err && r.error().category() == boost::system::system_category())); };
    unsigned i = K.k;
    switch (k)
    {
    case 0: { auto r = f.size(); VP_CHECK(is(S_stat, 2), "size asks for that of the file"); VP_CHECK(reports(r, i) && (!r || *r == K.a[i].v[0]), "size reports that of the file"); break; }
    case 1: { auto r = f.resize(n); VP_CHECK(is(S_trunc, 3) && K.w[2] == n, "resize sets the size given"); VP_CHECK(reports(r, i), "resize reports the outcome"); break; }
    case 2: { auto r = f.sync_all(); VP_CHECK(is(S_fsync, 2), "sync_all writes everything back"); VP_CHECK(reports(r, i), "sync_all reports the outcome"); break; }
    case 3: { auto r = f.sync_data(); VP_CHECK(is(S_datasync, 2) | is(S_fsync, 2), "sync_data writes the data back"); VP_CHECK(reports(r, i), "sync_data reports the outcome"); break; }
    default:
    {
      auto r = f.seek(off, wh == 0 ? file::seek_set : wh == 1 ? file::seek_cur : file::seek_end);
      VP_CHECK(is(S_seek, 4) && K.w[2] == (u64)off && K.w[3] == (u64)(wh == 0 ? SEEK_SET : wh == 1 ? SEEK_CUR : SEEK_END), "seek goes where it is told"); VP_CHECK(reports(r, i), "seek reports the outcome");
      VP_CHECK(!r || *r == K.a[i].v[0], "seek reports the new position");
    }
    }
  }
  VP_COVER("end");
}
// opening takes the descriptor or reports the error, and none is left behind
template<typename F> static void opened(F open_it, u64 name, unsigned flags)
{
  bool open = vp_bool("open already"), refuse = vp_bool("refused"); unsigned opened = 0; int asked = -1;
  world w; W = &w; K.refuse = false; K.reset();
  {
    sf f{w.exec()}; if (open) VP_CHECK(f.assign(77).has_value(), "a descriptor is taken over");
    K.n = 0; K.refuse = refuse; unsigned i0 = K.k; auto r = open_it(f); unsigned i;
    if (open)
    {
      VP_CHECK(!r && r.error() == asio::error::already_open || (K.n && K.w[0] == S_open && K.a[i0].mode && r.error().value() == K.a[i0].err), "a file that is open is not opened again");
      VP_CHECK(f.native_handle() == 77 && !closes(77), "a file that is open stays as it is");
    }
    else
    {
      VP_CHECK(K.n >= 4 && K.w[0] == S_open && K.w[1] == name && K.w[2] == flags && K.w[3] == (flags & O_CREAT ? 0777u : 0u), "the path and the flags are those given");
      VP_CHECK(r.has_value() == (!K.a[i0].mode && !refuse), "a file is opened or the error reported");
      if (!r) VP_CHECK(r.error().value() == (K.a[i0].mode ? K.a[i0].err : ENOMEM) && !f.is_open(), "the error is that of the operating system");
      else VP_CHECK(f.native_handle() == 3 && f.is_open() && !closes(3), "the file holds the new descriptor");
    }
    VP_CHECK(f.is_open() && f.native_handle() == 3 || closes(3) == (K.next > 3), "no descriptor is left behind");
  }
}
VP_CONTRACT(open)
{
  unsigned fl = vp_u32("flags"); bool c = vp_bool("create"); fl = c ? fl | O_CREAT : fl & ~O_CREAT; bool str = vp_bool("string"); std::string path = "/a/b";
  u64 name = 0; for (char x : path) name = name << 8 | (unsigned char)x;
  opened([&](sf &f) { return str ? f.open(path, static_cast<file::flags>(fl)) : f.open("/a/b", static_cast<file::flags>(fl)); }, name, fl);
  VP_COVER("end");
}
// constructors, moves, release and close
template<typename T> static void life()
{
  unsigned k = vp_choice("constructor", 4), l = vp_choice("then", 4); unsigned fl = vp_u32("flags"); fl &= ~O_CREAT; bool refuse = vp_bool("refused"); K.refuse = refuse;
  auto guard = [](world &w, auto f) { try { f(); } catch (boost::system::system_error &e) { w.put(e.code()); } };
  auto flags = static_cast<file::flags>(fl);
  same([&](world &w)
       {
         guard(w, [&]
         {
           auto f = k == 0 ? std::make_unique<T>(w.exec()) : k == 1 ? std::make_unique<T>(77, w.exec()) : k == 2 ? std::make_unique<T>("/a", flags, w.exec()) : std::make_unique<T>(std::string("/a"), flags, w.exec());
           w.put(*f);
           if (l == 0) w.put(f->close()); else if (l == 1 && k) w.put(f->release()); else if (l == 2) { T g(std::move(*f)); w.put(*f); w.put(g); } else if (l == 3) w.put(f->assign(99));
           w.put(*f);
         });
       },
       [&](world &w)
       {
         guard(w, [&]
         {
           auto f = std::make_unique<desc>(w.exec()); error_code ec;
           if (k == 1) f->assign(77);
           else if (k > 1) { int fd = os_open("/a", (int)fl, 0777); if (fd < 0) throw boost::system::system_error(errno, boost::system::system_category()); f->assign(fd, ec); if (ec) { os_close(fd); throw boost::system::system_error(ec); } }
           w.put(*f);
           if (l == 0) { f->close(ec); w.put(ec); } else if (l == 1 && k) { auto h = f->release(); w.put(ec); w.put(h); } else if (l == 2) { desc g(std::move(*f)); w.put(*f); w.put(g); } else if (l == 3) { f->assign(99, ec); w.put(ec); }
           w.put(*f);
         });
       }, "constructing, moving, closing and releasing act on the descriptor");
}
VP_CONTRACT(stream_life)
{
  life<sf>();
  VP_COVER("end");
}
VP_CONTRACT(random_life)
{
  life<rf>();
  VP_COVER("end");
}
