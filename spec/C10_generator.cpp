// vp-level: bounded
// vp-bound: one generator with two suspension points, two yields and a return; histories of at most 12 events
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/error.hpp>
#include <comb.hpp>
#include <optional>
struct info { unsigned dead = 0, yields = 0, started = 0, nrec = 0; u32 rec[4]; u32 v[3]; bool lazy = false; op o[2]; };
struct probe { unsigned *n; ~probe() { ++*n; } };
template<class Push> struct G;
template<> struct G<void>
{
  using type = cobalt::generator<u32>;
  static type body(info *s)
  {
    probe p{&s->dead};
    if (s->lazy) co_await cobalt::this_coro::initial;
    s->started++;
    co_await aw<void>{{&s->o[0]}};
    s->yields++; co_yield s->v[0];
    s->yields++; co_yield s->v[1];
    co_await aw<void>{{&s->o[1]}};
    s->yields++; co_return s->v[2];
  }
  static type &subject(type &g, u32 &) { return g; }
};
template<> struct G<u32>
{
  using type = cobalt::generator<u32, u32>;
  static type body(info *s)
  {
    probe p{&s->dead};
    if (s->lazy) s->rec[s->nrec++] = co_await cobalt::this_coro::initial;
    s->started++;
    co_await aw<void>{{&s->o[0]}};
    s->yields++; s->rec[s->nrec++] = co_yield s->v[0];
    s->yields++; s->rec[s->nrec++] = co_yield s->v[1];
    co_await aw<void>{{&s->o[1]}};
    s->yields++; co_return s->v[2];
  }
  static auto subject(type &g, u32 &p) { return g(p); }
};
template<class Push> void history(bool with_get, bool with_move, bool cancel, bool may_fail = true)
{
  using GG = G<Push>; using T = typename GG::type;
  env_t env; info s; s.lazy = vp_bool("lazy");
  op *ops[2] = {&s.o[0], &s.o[1]};
  for (auto &o : s.o) { o.mode = -2; o.lazy_fail = may_fail; o.v = vp_u32("e"); }
  for (auto &v : s.v) v = vp_u32("v");
  u32 push[6]; for (auto &p : push) p = vp_u32("push");
  outcome out[6]; unsigned n = 0, np = 0;    // n values asked for, np of them by await
  bool moved = false, cancelled = false;
  vp_mark();
  {
    std::optional<T> h[2]; unsigned c = 0;
    h[0].emplace(GG::body(&s));
    auto ended = [&] { for (unsigned i = 0; i < n; i++) if (out[i].count && out[i].kind != outcome::value) return true; return n >= 3 && out[2].count > 0; };
    auto waiting = [&] { return n > 0 && out[n - 1].count == 0; };
    auto inv = [&]
    {
      VP_CHECK(s.lazy ? s.started == (n > 0 ? 1u : 0u) : s.started == 1, "a lazy generator starts with the first await, an eager one at once");
      unsigned taken = 0; for (unsigned i = 0; i < n; i++) taken += out[i].count;
      VP_CHECK(s.yields <= (s.lazy ? n : taken + 1), "a generator runs ahead by at most one value");
      unsigned k = 0;
      for (unsigned i = 0; i < n; i++)
      {
        VP_CHECK(out[i].count <= 1, "an await is resumed at most once");
        if (out[i].count == 0) { VP_CHECK(i == n - 1, "awaits complete in order"); continue; }
        if (out[i].kind == outcome::value) VP_CHECK(out[i].v == s.v[i], "every value is produced once and in order");
        else if (cancelled && out[i].is_sys(asio::error::operation_aborted)) VP_CHECK(i == 0 || i == 2, "a cancelled generator fails where it waits");
        else
        {
          op *f = s.o[0].fail | s.o[0].aborted ? &s.o[0] : &s.o[1];
          VP_CHECK((f->fail | f->aborted) && (f->aborted ? out[i].is_sys(asio::error::operation_aborted) : out[i].is_exc(f->v)), "the exception of the generator is reported");
          VP_CHECK(i == (f == &s.o[0] ? 0u : 2u), "an exception is reported after all values yielded before it");
        }
      }
      for (unsigned i = 0; i < s.nrec; i++) VP_CHECK(s.rec[i] == push[i], "a pushed value is received by the matching yield");
      VP_CHECK(bool(*h[c]) == !ended(), "the bool conversion says whether it is exhausted");
    };
    for (unsigned e = 0; e < 12; e++)
    {
      inv();
      enum { end, await_, step_, move_, cancel_, get_ } what[8]; unsigned k = 0;
      what[k++] = end;
      if (!waiting() && !ended()) what[k++] = await_;
      if (s.o[0].pending || s.o[1].pending || env.ctx.head) what[k++] = step_;
      if (with_move && !moved && !waiting()) what[k++] = move_;
      if (cancel && !cancelled) what[k++] = cancel_;
      if (with_get && !waiting() && h[c]->ready() && !ended()) what[k++] = get_;
      auto w = what[vp_choice("event", k)];
      if (w == end) break;
      switch (w)
      {
      case await_: { unsigned i = n++; np++; client([&]() -> decltype(auto) { return GG::subject(*h[c], push[np - 1]); }, [&](outcome &x, u32 v) { x.set(outcome::value, v); }, out[i], nullptr); break; }
      case step_: step(ops, 2); break;
      case move_: moved = true; if (vp_bool("assign")) { info d; d.o[0].mode = 0; h[1].emplace(GG::body(&d)); *h[1] = std::move(*h[0]); } else h[1].emplace(std::move(*h[0])); c = 1; h[0].reset(); break;
      case cancel_: { cancelled = true; unsigned oc = s.o[0].cancels + s.o[1].cancels; bool p = s.o[0].pending | s.o[1].pending; if (waiting() && vp_bool("awaiter")) env.sig.emit(asio::cancellation_type::total); else h[c]->cancel(); VP_CHECK(s.o[0].cancels + s.o[1].cancels == oc + p, "cancellation reaches what the generator waits on"); break; }
      case get_: { unsigned i = n++; try { u32 v = h[c]->get(); out[i].set(outcome::value, v); } catch (...) { from_current_exception(out[i]); } if (out[i].kind != outcome::value) { op *f = s.o[0].fail ? &s.o[0] : &s.o[1]; VP_CHECK(f->fail && out[i].is_exc(f->v), "get() reports the exception"); out[i] = {}; n--; with_get = false; } break; }
      default: break;
      }
    }
    inv();
    if (waiting())
    {
      for (unsigned e = 0; e < 8 && waiting(); e++) if (!step(ops, 2)) break;
      VP_CHECK(!waiting(), "an await of a generator ends");
      inv();
    }
    // drop it in whatever state it is
    bool pend = s.o[0].pending | s.o[1].pending; unsigned oc = s.o[0].cancels + s.o[1].cancels;
    h[c].reset();
    VP_CHECK(s.o[0].cancels + s.o[1].cancels == oc + pend, "dropping a generator cancels what it waits on");
    for (auto &o : s.o) o.lazy_fail = false;
    for (auto &o : s.o) if (o.pending) { o.complete(); }
    while (env.ctx.run_one());
    VP_CHECK(s.dead == 1, "a dropped generator ends");
  }
  VP_CHECK(vp_live() == 0, "everything is freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(generator_history) { history<void>(false, false, false); VP_COVER("end"); }
VP_CONTRACT(generator_moved) { history<void>(false, true, false, false); VP_COVER("end"); }
VP_CONTRACT(generator_cancelled) { history<void>(false, false, true, false); VP_COVER("end"); }
VP_CONTRACT(generator_get) { history<void>(true, false, false); VP_COVER("end"); }
VP_CONTRACT(generator_push) { history<u32>(false, false, false); VP_COVER("end"); }
VP_CONTRACT(generator_push_moved) { history<u32>(false, true, false, false); VP_COVER("end"); }
VP_CONTRACT(generator_push_get) { history<u32>(true, false, false, false); VP_COVER("end"); }
