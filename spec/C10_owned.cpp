// vp-level: bounded
// vp-bound: one generator with two suspension points, two yields and a return; values and pushed values own memory; BOOST_COBALT_FOR over it
// vp-sources: channel error this_thread detail/exception detail/util
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/async_for.hpp>
#include <boost/cobalt/error.hpp>
#include <comb.hpp>
#include <optional>
struct probe { unsigned *n; ~probe() { ++*n; } };
struct info { op a, b; u32 v[3]; u32 seen[3]; unsigned n = 0, dead = 0; bool lazy = false; };
cobalt::generator<box> plain(info *s)
{
  probe p{&s->dead};
  if (s->lazy) co_await cobalt::this_coro::initial;
  co_await aw<void>{{&s->a}};
  co_yield box(s->v[0]);
  co_yield box(s->v[1]);
  co_await aw<void>{{&s->b}};
  co_return box(s->v[2]);
}
cobalt::generator<box, box> pushed(info *s)
{
  probe p{&s->dead};
  if (s->lazy) { box x = co_await cobalt::this_coro::initial; s->seen[s->n++] = held(x); }
  co_await aw<void>{{&s->a}};
  { box x = co_yield box(s->v[0]); s->seen[s->n++] = held(x); }
  { box x = co_yield box(s->v[1]); s->seen[s->n++] = held(x); }
  co_await aw<void>{{&s->b}};
  co_return box(s->v[2]);
}
void drive(info &s, op **ops) { while (step(ops, 2)); }
template<bool Push> void owned()
{
  env_t env; info s; op *ops[2] = {&s.a, &s.b}; s.lazy = vp_bool("lazy");
  for (auto o : ops) { o->mode = -2; o->lazy_fail = true; o->react = false; o->v = vp_u32("e"); }
  for (auto &v : s.v) v = vp_u32("v");
  u32 push[3]; for (auto &p : push) p = vp_u32("push");
  vp_mark();
  {
    outcome out[3]; box arg[3]; for (unsigned i = 0; i < 3; i++) arg[i] = box(push[i]);
    using T = std::conditional_t<Push, cobalt::generator<box, box>, cobalt::generator<box>>;
    std::optional<T> g; if constexpr (Push) g.emplace(pushed(&s)); else g.emplace(plain(&s));
    unsigned asked = vp_choice("asked", 4); bool stop = false;
    bool moved = vp_bool("moved");
    for (unsigned i = 0; i < asked && !stop; i++)
    {
      auto rec = [](outcome &o, box b) { o.set(outcome::value, held(b)); };
      if constexpr (Push) client([&] { return (*g)(std::move(arg[i])); }, rec, out[i], nullptr);
      else client([&]() -> T & { return *g; }, rec, out[i], nullptr);
      if (moved && !out[i].count && vp_bool("move now")) { moved = false; T h(std::move(*g)); g.reset(); g.emplace(std::move(h)); }
      while (!out[i].count && step(ops, 2));
      bool bad = (s.a.completed && s.a.fail) || (i == 2 && s.b.completed && s.b.fail);
      VP_CHECK(out[i].count == 1, "every await yields");
      if (bad) { VP_CHECK(out[i].is_exc(s.a.fail ? s.a.v : s.b.v), "an exception of the generator reaches the await that was waiting for it"); stop = true; }
      else { VP_CHECK(out[i].is_value(s.v[i]), "the values come in the order in which they are yielded"); }
    }
    // an eager generator may run ahead until it has a value to give; it gets the values that were pushed, in order
    if constexpr (Push)
      for (unsigned i = 0; i < s.n; i++) VP_CHECK(i < asked && s.seen[i] == push[i], "the generator gets the pushed values in order");
    if (vp_bool("let it run ahead")) { s.a.lazy_fail = s.b.lazy_fail = false; drive(s, ops); }
  }
  s.a.lazy_fail = s.b.lazy_fail = false; drive(s, ops);
  VP_CHECK(s.dead == 1, "the frame goes away once");
  VP_CHECK(vp_live() == 0, "the values and the frame are freed exactly once");
  VP_COVER("end");
}
VP_CONTRACT(generator_owned) { owned<false>(); }
VP_CONTRACT(generator_owned_push) { owned<true>(); }
// the loop macro
root loop(info *s, op *after, outcome *out, unsigned stop_at, unsigned *n)
{
  try { BOOST_COBALT_FOR(auto v, plain(s)) { VP_CHECK(held(v) == s->v[*n], "the loop sees the values in the order in which they are yielded"); ++*n; if (*n == stop_at) break; } out->set(outcome::value, *n); }
  catch (...) { from_current_exception(*out); }
  co_await aw<void>{{after}};
}
VP_CONTRACT(generator_for)
{
  env_t env; info s; op after; op *ops[2] = {&s.a, &s.b}; s.lazy = vp_bool("lazy"); after.mode = 1; after.use_slot = false;
  for (auto o : ops) { o->mode = -2; o->lazy_fail = true; o->react = false; o->v = vp_u32("e"); }
  for (auto &v : s.v) v = vp_u32("v");
  outcome out; unsigned n = 0, stop = vp_choice("break after", 4);
  vp_mark();
  loop(&s, &after, &out, stop, &n);
  while (true)
  {
    if (out.count) break;
    VP_CHECK(step(ops, 2), "the loop waits only for its generator");
  }
  bool bad_a = s.a.fail, bad_b = s.b.fail && stop != 1 && stop != 2;
  if (bad_a) VP_CHECK(n == 0 && out.is_exc(s.a.v), "an exception of the generator leaves the loop");
  else if (stop) VP_CHECK(n == stop || (stop == 3 && bad_b), "the loop ends where it breaks");
  if (!bad_a && stop == 0 && !bad_b) VP_CHECK(n == 3 && out.is_value(3), "the loop ends after the last value");
  if (!bad_a && bad_b) VP_CHECK(n == 2 && out.is_exc(s.b.v), "an exception of the generator leaves the loop");
  // a generator that was left early may still wait; it is detached or destroyed, but frees its frame once
  s.a.lazy_fail = s.b.lazy_fail = false; while (step(ops, 2));
  VP_CHECK(s.dead == 1, "the frame goes away once");
  after.complete();
  VP_CHECK(vp_live() == 0, "the values and the frame are freed exactly once");
  VP_COVER("end");
}
