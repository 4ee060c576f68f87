// vp-level: proof
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/channel.hpp>
#include <adapt.hpp>
#include <optional>
auto num = [](u32 v) -> std::uint64_t { return v; };
auto novalue = [] { return 0; };
struct one
{
  env_t env; op o; probe_t p;
  one(int modes = 3) { o.mode = -modes; o.fail = vp_bool("fails"); o.v = vp_u32("v"); vp_mark(); }
  void run() { if (o.pending && vp_bool("cancel")) env.sig.emit(asio::cancellation_type::total); if (o.pending) { if (o.abort_req && vp_bool("abort")) o.abort(); else o.complete(); } env.ctx.run(); }
  void expect(bool isvoid)
  {
    p.verdict();
    VP_CHECK(o.aborted ? p.o.is_sys(asio::error::operation_aborted) : o.fail ? p.o.is_exc(o.v) : p.o.is_value(isvoid ? 0 : o.v), "all forms report the outcome of the operation");
    p.after.complete();
  }
  void end() { VP_CHECK(vp_live() == 0, "everything is freed exactly once"); VP_COVER("end"); }
};
// an awaitable without any support for the adapters
VP_CONTRACT(generic_value) { one s; s.p.start([&] { return aw<>{{&s.o}}; }, num); s.run(); s.expect(false); s.end(); VP_COVER("end"); }
VP_CONTRACT(generic_void) { one s; s.p.start([&] { return aw<void>{{&s.o}}; }, novalue); s.run(); s.expect(true); s.end(); VP_COVER("end"); }
struct noex { u32 v; bool await_ready() noexcept { return true; } void await_suspend(std::coroutine_handle<>) noexcept {} u32 await_resume() noexcept { return v; } };
struct noexv { bool await_ready() noexcept { return true; } void await_suspend(std::coroutine_handle<>) noexcept {} void await_resume() noexcept {} };
struct tup { op *o; aw<> operator co_await() const { return {{o}}; } };
VP_CONTRACT(generic_noexcept)
{
  one s; u32 v = s.o.v; bool iv = vp_bool("void");
  if (iv) s.p.start([] { return noexv{}; }, novalue); else s.p.start([v] { return noex{v}; }, num);
  s.p.verdict(); VP_CHECK(s.p.o.is_value(iv ? 0 : v), "the value is reported"); s.p.after.complete(); s.end(); VP_COVER("end");
}
VP_CONTRACT(generic_co_await) { one s; s.p.start([&] { return tup{&s.o}; }, num); s.run(); s.expect(false); s.end(); VP_COVER("end"); }
struct aw2 : aw_base<std::uint32_t> { std::tuple<u32, u32> await_resume() { auto v = aw_base<std::uint32_t>::await_resume(); return {v, ~v}; } };
VP_CONTRACT(generic_tuple)
{
  one s; s.p.start([&] { return aw2{{&s.o}}; }, [&](std::tuple<u32, u32> t) { VP_CHECK(std::get<1>(t) == ~s.o.v, "all values are reported"); return std::get<0>(t); }); s.run(); s.expect(false); s.end(); VP_COVER("end");
}
template<class P> P coro(op *o) { co_return co_await aw<>{{o}}; }
template<class P> P vcoro(op *o) { co_await aw<void>{{o}}; }
VP_CONTRACT(promise_value) { one s; { auto x = coro<cobalt::promise<u32>>(&s.o); if (s.o.pending && vp_bool("before")) s.o.complete(); s.p.start([&]() -> auto & { return x; }, num); s.run(); s.expect(false); } s.end(); VP_COVER("end"); }
VP_CONTRACT(promise_void) { one s; { auto x = vcoro<cobalt::promise<void>>(&s.o); if (s.o.pending && vp_bool("before")) s.o.complete(); s.p.start([&]() -> auto & { return x; }, novalue); s.run(); s.expect(true); } s.end(); VP_COVER("end"); }
VP_CONTRACT(promise_temporary) { one s; s.p.start([&] { return coro<cobalt::promise<u32>>(&s.o); }, num); s.run(); s.expect(false); s.end(); VP_COVER("end"); }
VP_CONTRACT(task_value) { one s; { auto x = coro<cobalt::task<u32>>(&s.o); s.p.start([&]() -> auto & { return x; }, num); s.run(); s.expect(false); } s.end(); VP_COVER("end"); }
VP_CONTRACT(task_void) { one s; s.p.start([&] { return vcoro<cobalt::task<void>>(&s.o); }, novalue); s.run(); s.expect(true); s.end(); VP_COVER("end"); }
// awaiting while somebody else awaits is an error, reported the same way
VP_CONTRACT(promise_twice)
{
  one s; s.o.mode = 1; s.o.use_slot = false; outcome first;
  bool isvoid = vp_bool("void"), tsk = vp_bool("task");
  auto go = [&](auto x, auto v)
  {
    client_void([&]() -> auto & { return x; }, first, nullptr);
    s.p.start([&]() -> auto & { return x; }, v); s.p.verdict();
    VP_CHECK(s.p.o.is_sys(cobalt::error::already_awaited), "all forms report the misuse"); s.p.after.complete();
    s.o.complete(); VP_CHECK(first.count == 1, "the first awaiter gets the result");
  };
  if (tsk) { if (isvoid) go(vcoro<cobalt::task<void>>(&s.o), novalue); else go(coro<cobalt::task<u32>>(&s.o), num); }
  else { if (isvoid) go(vcoro<cobalt::promise<void>>(&s.o), novalue); else go(coro<cobalt::promise<u32>>(&s.o), num); }
  s.end(); VP_COVER("end");
}
cobalt::generator<u32> gen(op *o) { co_yield co_await aw<>{{o}}; co_return 0; }
cobalt::generator<u32, u32> pgen(op *o) { u32 x = co_yield co_await aw<>{{o}}; co_yield x; co_return 0; }
VP_CONTRACT(generator_value) { one s; { auto x = gen(&s.o); if (s.o.pending && vp_bool("before")) s.o.complete(); s.p.start([&]() -> auto & { return x; }, num); s.run(); s.expect(false); } s.end(); VP_COVER("end"); }
VP_CONTRACT(generator_push) { one s; { auto x = pgen(&s.o); u32 push = 7; s.p.start([&]() { return x(push); }, num); s.run(); s.expect(false); } s.end(); VP_COVER("end"); }
VP_CONTRACT(with_value) { one s; s.p.start([&] { return cobalt::with(1, [&](int) { return aw<>{{&s.o}}; }, [](int, std::exception_ptr) { return noexv{}; }); }, num); s.run(); s.expect(false); s.end(); VP_COVER("end"); }
VP_CONTRACT(with_void) { one s; s.p.start([&] { return cobalt::with(1, [&](int) { return aw<void>{{&s.o}}; }, [](int, std::exception_ptr) { return noexv{}; }); }, novalue); s.run(); s.expect(true); s.end(); VP_COVER("end"); }
// asio style operations
template<class... A> struct gop : cobalt::op<A...>
{
  int how; std::tuple<A...> v; gop(int how, A... a) : how(how), v(a...) {}
  void ready(cobalt::handler<A...> h) override { if (how == 0) std::apply(h, v); }
  void initiate(cobalt::completion_handler<A...> h) override
  {
    auto d = [h = std::move(h), v = v]() mutable { std::apply([&](auto... a) { std::move(h)(a...); }, v); };
    if (how == 1) { auto ex = h.get_immediate_executor(); ex.execute(std::move(d)); } else asio::post(E().exec, std::move(d));
  }
};
template<class... A, class V> void op_forms(V v, std::uint64_t val, u32 code, bool isc, A... a)
{
  one s; int how = vp_choice("how", 3);
  s.p.start([&] { return gop<A...>(how, a...); }, v);
  s.env.ctx.run(); s.p.verdict();
  if (code) VP_CHECK(isc ? s.p.o.is_sys(boost::system::error_code(code, boost::system::system_category())) : s.p.o.is_exc(code), "all forms report the error");
  else VP_CHECK(s.p.o.is_value(val), "all forms report the value");
  s.p.after.complete(); s.end();
}
inline u32 err_() { u32 c = vp_u32("code"); if (vp_bool("fails")) vp_assume(c != 0); else c = 0; return c; }
inline boost::system::error_code sysc(u32 c) { return boost::system::error_code((int)c, boost::system::system_category()); }
VP_CONTRACT(op_nothing) { op_forms<>(novalue, 0, 0, true); VP_COVER("end"); }
VP_CONTRACT(op_value) { u32 v = vp_u32("v"); op_forms<u32>(num, v, 0, true, v); VP_COVER("end"); }
auto pair_ = [](std::tuple<u32, u32> t) -> std::uint64_t { return (std::uint64_t)std::get<0>(t) << 32 | std::get<1>(t); };
VP_CONTRACT(op_values) { u32 v = vp_u32("v"), w = vp_u32("w"); op_forms<u32, u32>(pair_, (std::uint64_t)v << 32 | w, 0, true, v, w); VP_COVER("end"); }
VP_CONTRACT(op_ec) { u32 c = err_(); op_forms<boost::system::error_code>(novalue, 0, c, true, sysc(c)); VP_COVER("end"); }
VP_CONTRACT(op_ec_value) { u32 c = err_(), v = vp_u32("v"); op_forms<boost::system::error_code, u32>(num, v, c, true, sysc(c), v); VP_COVER("end"); }
VP_CONTRACT(op_ec_values) { u32 c = err_(), v = vp_u32("v"), w = vp_u32("w"); op_forms<boost::system::error_code, u32, u32>(pair_, (std::uint64_t)v << 32 | w, c, true, sysc(c), v, w); VP_COVER("end"); }
VP_CONTRACT(op_ep_value) { u32 c = err_(), v = vp_u32("v"); op_forms<std::exception_ptr, u32>(num, v, c, false, c ? std::make_exception_ptr(thrown{c}) : nullptr, v); VP_COVER("end"); }
