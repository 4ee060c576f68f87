// vp-level: proof
// vp-sources: this_thread detail/exception detail/util error io/endpoint io/resolver
// vp-bounded resolve_query: host and service names of at most two characters, at most two addresses in the answer
// vp-bounded lookup: host and service names of at most two characters, at most two addresses in the answer
#include <iodata.hpp>
#include <boost/cobalt/io/resolver.hpp>
#include <memory>
#include <optional>
#include <string>
using ares = asio::ip::basic_resolver<io::protocol_type, cobalt::executor>; using rflags = io::resolver::flags; using service = asio::detail::resolver_service<io::protocol_type>;
static auto any_type() { unsigned c = vp_choice("type", 3); return c == 0 ? asio::cancellation_type::terminal : c == 1 ? asio::cancellation_type::partial : asio::cancellation_type::total; }
struct names { world *w; void operator()(error_code ec, auto &&l) const { w->done++; w->put(ec); w->put((u64)std::distance(l.begin(), l.end())); for (auto &e : l) w->put(io::endpoint(e)); } };
template<typename F> io_root names_(F f) { std::optional<std::tuple<error_code, io::endpoint_sequence>> t; t.emplace(co_await cobalt::as_tuple(f())); names{W}(std::get<0>(*t), std::get<1>(*t)); }
template<typename F> io_root lookup_(F f) { error_code ec; io::endpoint_sequence l; try { l = co_await f(); } catch (boost::system::system_error &e) { ec = e.code(); } names{W}(ec, l); }
// the thread that asks the operating system has its turn
static void turn(world &w) { error_code ec; asio::use_service<service>(w.ctx).work_scheduler_->poll(ec); }
template<typename Make, typename Start, typename Cancel> static auto lookups(unsigned k, asio::cancellation_type ct, Make make, Start start, Cancel cancel)
{
  return [=](world &w)
  {
    auto s = make(w);
    start(w, s); w.poll(); w.put(w.done);
    switch (k)
    {
    case 0: turn(w); break;
    case 1: cancel(s); turn(w); break;
    case 2: turn(w); cancel(s); break;
    case 3: w.sig.emit(ct); turn(w); break;
    case 4: turn(w); w.sig.emit(ct); break;
    case 5: s.reset(); turn(w); break;
    case 6: turn(w); s.reset(); break;
    default: break;
    }
    w.poll(); w.put(w.done); w.put(K.lists);
  };
}
struct query
{
  char h[2], s[2]; unsigned nh, ns; rflags f;
  query() : nh(vp_choice("host", 3)), ns(vp_choice("service", 3)), f((rflags)(int)vp_u32("flags")) { for (auto &c : h) { c = (char)vp_u8("name"); vp_assume(c != 0); } for (auto &c : s) { c = (char)vp_u8("name"); vp_assume(c != 0); } }
  std::string_view host() const { return {h, nh}; } std::string_view serv() const { return {s, ns}; }
};
// the names reach the operating system unchanged, and its answer the awaiter
VP_CONTRACT(resolve_query)
{
  query q;
  same(lookups(0, {}, [](world &w) { return std::make_unique<io::resolver>(w.exec()); }, [&](world &, auto &s) { names_([&] { return s->resolve(q.host(), q.serv(), q.f); }); }, [](auto &s) { s->cancel(); }),
       lookups(0, {}, [](world &w) { return std::make_unique<ares>(w.exec()); }, [&](world &w, auto &s) { s->async_resolve(io::ip, q.host(), q.serv(), q.f, names{&w}); }, [](auto &s) { s->cancel(); }), "the query and its answer are those given");
  VP_COVER("end");
}
VP_CONTRACT(resolve_history)
{
  unsigned k = vp_choice("event", 8); asio::cancellation_type ct{}; if (k == 3 || k == 4) ct = any_type();
  same(lookups(k, ct, [](world &w) { return std::make_unique<io::resolver>(w.exec()); }, [&](world &, auto &s) { names_([&] { return s->resolve("h", "s"); }); }, [](auto &s) { s->cancel(); }),
       lookups(k, ct, [](world &w) { return std::make_unique<ares>(w.exec()); }, [&](world &w, auto &s) { s->async_resolve(io::ip, "h", "s", rflags{}, asio::bind_cancellation_slot(w.sig.slot(), names{&w})); }, [](auto &s) { s->cancel(); }), "a lookup ends as that of asio");
  VP_COVER("end");
}
// lookup is one query with a resolver of its own
VP_CONTRACT(lookup)
{
  query q; unsigned k = vp_choice("event", 3); asio::cancellation_type ct{}; if (k) ct = any_type();
  auto nothing = [](world &) { return std::unique_ptr<ares>(); }; auto none = [](auto &) {};
  same(lookups(k ? k + 2 : 0, ct, nothing, [&](world &w, auto &) { lookup_([&] { return io::lookup(q.host(), q.serv(), w.exec(), q.f); }); }, none),
       lookups(k ? k + 2 : 0, ct, [](world &w) { return std::make_unique<ares>(w.exec()); }, [&](world &w, auto &s) { s->async_resolve(io::ip, q.host(), q.serv(), q.f, asio::bind_cancellation_slot(w.sig.slot(), names{&w})); }, none), "lookup is a query");
  VP_COVER("end");
}
