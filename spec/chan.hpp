// Histories of a channel against its specification: arbitrary clients, schedules, cancellations and close().
#pragma once
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/error.hpp>
#include <boost/cobalt/race.hpp>
#include <comb.hpp>
#include <optional>

// a move-only value with an owned resource
template<class T, unsigned K> struct chan_hist
{
  using C = cobalt::channel<T>;
  static constexpr bool isvoid = std::is_void_v<T>;
  env_t env; unsigned L; std::optional<C> ch; bool closed = false, cancelled = false;
  unsigned n = 0;                                   // operations started
  struct { bool rd, inl, sus; u32 v; outcome out; asio::cancellation_signal sig; bool cancel = false, at_rest = false, raced = false; op g; } o[K];
  unsigned races = 0;                               // how many operations may run in a race against something else
  u32 w[K]; unsigned wc = 0, rc = 0;                // values written, in order of completion; number of values read
  unsigned form = 0;                                // which overload of write is used
  explicit chan_hist(unsigned L) : L(L) { vp_mark(); ch.emplace(L, env.exec); }

  void wrote(unsigned i) { o[i].out.set(outcome::value, 0); w[wc++] = o[i].v; }
  void read(unsigned i, u32 v)
  {
    o[i].out.set(outcome::value, v);
    if (L > 0)
    {
      VP_CHECK(rc < wc, "a value is read only after it was written");
      if constexpr (!isvoid) VP_CHECK(v == w[rc], "values are read once each, in the order they were written");
    }
    rc++;
  }
  static root reader(chan_hist &h, unsigned i)
  {
    try { if constexpr (isvoid) { co_await h.ch->read(); h.read(i, 0); } else { auto x = co_await h.ch->read(); h.read(i, held(x)); } }
    catch (...) { from_current_exception(h.o[i].out); }
  }
  static root writer(chan_hist &h, unsigned i)
  {
    try
    {
      if constexpr (isvoid) co_await h.ch->write();
      else if constexpr (std::is_same_v<T, u32>)
      {
        if (h.form == 0) { u32 v = h.o[i].v; co_await h.ch->write(v); }
        else if (h.form == 1) { const u32 v = h.o[i].v; co_await h.ch->write(v); VP_CHECK(v == h.o[i].v, "a constant is not moved from"); }
        else co_await h.ch->write(u32(h.o[i].v));
      }
      else { T v(h.o[i].v); co_await h.ch->write(std::move(v)); }
      h.wrote(i);
    }
    catch (...) { from_current_exception(h.o[i].out); }
  }
  // the operation runs in a race: losing it is the cancellation
  static root raced(chan_hist &h, unsigned i)
  {
    auto &x = h.o[i]; auto lost = [&] { VP_CHECK(x.cancel, "the operation loses the race only if the other side completed"); x.out.set(outcome::sys, (int)asio::error::operation_aborted, &boost::system::system_category()); };
    try
    {
      if (x.rd)
      {
        if constexpr (isvoid) { if (co_await cobalt::left_race(h.ch->read(), iaw<void>{{&x.g}}) == 0) h.read(i, 0); else lost(); }
        else { auto r = co_await cobalt::left_race(h.ch->read(), iaw<void>{{&x.g}}); if (r.index() == 0) h.read(i, held(boost::variant2::get<0>(r))); else lost(); }
      }
      else
      {
        std::size_t k;
        if constexpr (isvoid) k = co_await cobalt::left_race(h.ch->write(), iaw<void>{{&x.g}});
        else { T v(x.v); k = co_await cobalt::left_race(h.ch->write(std::move(v)), iaw<void>{{&x.g}}); }
        if (k == 0) h.wrote(i); else lost();
      }
    }
    catch (...) { from_current_exception(x.out); }
  }
  unsigned stored() const { return wc - rc; }
  unsigned waiting(bool rd) const { unsigned k = 0; for (unsigned i = 0; i < n; i++) k += o[i].rd == rd && !o[i].out.count; return k; }
  void start(bool rd)
  {
    unsigned i = n++; auto &x = o[i];
    x.rd = rd; x.v = isvoid ? 0 : vp_u32("value"); env.cur = &x.sig;
    bool idle = !env.ctx.head; unsigned st = stored(), other = waiting(!rd);
    unsigned rc0 = rc, wc0 = wc;
    if (races && vp_bool("race")) { races--; x.raced = true; raced(*this, i); }
    else if (rd) reader(*this, i); else writer(*this, i);
    env.cur = &env.sig;
    x.inl = x.out.count > 0; x.sus = !x.inl;
    if (closed)
    {
      VP_CHECK(x.inl, "nothing waits on a closed channel");
      if (rd && st > 0 && idle) VP_CHECK(x.out.kind == outcome::value, "a value that was stored before close can be read");
      if (rd && st == 0) VP_CHECK(x.out.is_sys(asio::error::broken_pipe), "reading from an empty closed channel fails with broken_pipe");
      if (!rd) VP_CHECK(x.out.is_sys(asio::error::broken_pipe), "writing to a closed channel fails with broken_pipe");
    }
    else
    {
      if (x.inl) VP_CHECK(x.out.kind == outcome::value, "nothing fails on an open channel");
      if (rd && x.inl) VP_CHECK(L > 0 && st > 0, "a read completes at once only if a value is stored");
      if (!rd && x.inl) VP_CHECK(L > 0 && st < L, "a write completes at once only if there is room");
      if (idle && L > 0) VP_CHECK(x.inl == (rd ? st > 0 : st < L), "an operation does not wait if it can complete");
      if (L == 0 && idle && other) VP_CHECK(rd ? wc == wc0 + 1 : rc == rc0 + 1, "a waiting counterpart completes as soon as it is met");
    }
    inv();
  }
  void inv()
  {
    if (L > 0) VP_CHECK(rc <= wc && wc - rc <= L, "the buffer limit is respected");
    for (unsigned i = 0; i < n; i++)
    {
      VP_CHECK(o[i].out.count <= 1, "no operation completes twice");
      if (o[i].out.count && o[i].out.kind != outcome::value)
        VP_CHECK(o[i].cancel | closed, "nothing fails on an open channel");
      if (o[i].out.count && o[i].out.kind != outcome::value && !closed)
        VP_CHECK(o[i].out.is_sys(asio::error::operation_aborted), "a cancelled operation reports operation_aborted");
      if (o[i].out.count && o[i].out.kind != outcome::value && !o[i].cancel)
        VP_CHECK(o[i].out.is_sys(asio::error::broken_pipe), "a closed channel reports broken_pipe");
      if (o[i].at_rest && o[i].out.count) VP_CHECK(o[i].out.kind != outcome::value, "a cancelled waiting operation does not take or store a value");
    }
  }
  void step()
  {
    unsigned before[K]; for (unsigned i = 0; i < n; i++) before[i] = o[i].out.count;
    env.ctx.run_one();
    if (L > 0) // waiters of each side are served oldest first
      for (unsigned i = 0; i < n; i++) if (o[i].sus && before[i] != o[i].out.count && o[i].out.kind == outcome::value)
        for (unsigned j = 0; j < i; j++) if (o[j].rd == o[i].rd && o[j].sus && !o[j].cancel) VP_CHECK(o[j].out.count > 0, "waiting operations are served oldest first");
    inv();
    if (!env.ctx.head) rest();
  }
  void rest() // nothing is queued: every operation that can complete did
  {
    bool r = waiting(true), wr = waiting(false);
    if (closed) VP_CHECK(!r && !wr, "close() completes every waiting operation");
    else if (L > 0)
    {
      VP_CHECK(!(r && stored() > 0), "no reader waits while a value is stored");
      VP_CHECK(!(wr && stored() < L), "no writer waits while there is room");
    }
    else
    {
      VP_CHECK(rc == wc, "without a buffer every completed write is matched by a completed read");
      VP_CHECK(!(r && wr), "a reader and a writer do not both wait");
    }
    for (unsigned i = 0; i < n; i++) VP_CHECK(!(o[i].cancel && !o[i].out.count), "a cancelled operation completes");
    if (L == 0 && !isvoid)   // a rendezvous pairs the k-th reader with the k-th writer
    {
      unsigned k = 0, wi = 0;
      for (unsigned i = 0; i < n; i++) if (o[i].rd && o[i].out.kind == outcome::value && o[i].out.count)
      {
        while (wi < n && (o[wi].rd || !o[wi].out.count || o[wi].out.kind != outcome::value)) wi++;
        VP_CHECK(wi < n, "every value read was written");
        VP_CHECK(o[i].out.v == o[wi].v, "readers get the values in the order of the writers"); wi++;
      }
    }
  }
  void cancel(unsigned i)
  {
    o[i].cancel = true; cancelled = true;
    if (!env.ctx.head) o[i].at_rest = true;
    unsigned c[K]; for (unsigned j = 0; j < n; j++) c[j] = o[j].out.count;
    if (o[i].raced) { if (o[i].g.pending) o[i].g.complete(); }
    else o[i].sig.emit(asio::cancellation_type::total);
    for (unsigned j = 0; j < n; j++) if (j != i || !o[i].raced) VP_CHECK(c[j] == o[j].out.count, "cancellation completes an operation through the executor");
    inv();
  }
  void close() { closed = true; ch->close(); VP_CHECK(!ch->is_open(), "is_open() reports close()"); inv(); }
  // every interleaving of at most `starts` operations, steps, `cancels` cancellations and an optional close
  void run(unsigned starts, unsigned cancels, bool may_close)
  {
    while (true)
    {
      unsigned k = 0, what[4 + K];
      if (n < starts) { what[k++] = 0; what[k++] = 1; }
      if (env.ctx.head) what[k++] = 2;
      if (may_close && !closed) what[k++] = 3;
      if (cancels) for (unsigned i = 0; i < n; i++) if (!o[i].out.count && !o[i].cancel && (!o[i].raced || o[i].g.pending)) what[k++] = 4 + i;
      if (!k || (k == 1 && what[0] == 3)) break;
      if (n == starts && !env.ctx.head) { if (vp_bool("end")) break; }
      unsigned e = what[k == 1 ? 0 : vp_choice("event", k)];
      if (e <= 1) start(e == 0);
      else if (e == 2) step();
      else if (e == 3) { close(); may_close = false; }
      else { cancel(e - 4); cancels--; }
    }
    while (env.ctx.head) step();
    rest();
  }
  void finish()
  {
    ch.reset();   // waiting clients are destroyed with the channel
    VP_CHECK(!env.ctx.head, "destroying an idle channel posts nothing");
    for (unsigned i = 0; i < n; i++) if (o[i].g.pending) { o[i].cancel = true; o[i].g.complete(); }   // a race goes on without its channel
    VP_CHECK(vp_live() == 0, "destroying the channel frees everything exactly once");
  }
};
