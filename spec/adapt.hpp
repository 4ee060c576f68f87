// Awaits one awaitable plainly, as_result or as_tuple, and reduces what it reports to one outcome.
#pragma once
#include <comb.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/cobalt/error.hpp>
#include <tuple>
inline void err(outcome &o, std::exception_ptr e) { from_exception(o, e); }
inline void err(outcome &o, boost::system::error_code e) { o.set(outcome::sys, (std::uint64_t)(std::int64_t)e.value(), &e.category()); }
inline bool bad(const std::exception_ptr &e) { return !!e; }
inline bool bad(const boost::system::error_code &e) { return !!e; }
template<class T> concept err_t = std::is_same_v<T, std::exception_ptr> || std::is_same_v<T, boost::system::error_code>;
enum form { plain, result, tuple_ };
// V: value -> number;  Single: the value is one object even if it is a tuple
template<form K, class F, class V> root probe_(F f, V v, outcome &o, bool &threw, op *after)
{
  try
  {
    if constexpr (K == plain)
    {
      if constexpr (requires { v(); }) { co_await f(); o.set(outcome::value, 0); }
      else o.set(outcome::value, v(co_await f()));
    }
    else if constexpr (K == result)
    {
      auto r = co_await cobalt::as_result(f());
      if (r.has_error()) err(o, r.error());
      else if constexpr (requires { *std::move(r); v(*std::move(r)); }) o.set(outcome::value, v(*std::move(r)));
      else o.set(outcome::value, 0);
    }
    else
    {
      auto r = co_await cobalt::as_tuple(f());
      using R = decltype(r);
      if constexpr (err_t<R>) { if (bad(r)) err(o, r); else o.set(outcome::value, 0); }
      else if constexpr (std::tuple_size_v<R> == 0) o.set(outcome::value, 0);
      else if constexpr (err_t<std::tuple_element_t<0, R>>)
      {
        if (bad(std::get<0>(r))) err(o, std::get<0>(r));
        else if constexpr (std::tuple_size_v<R> == 1) o.set(outcome::value, 0);
        else if constexpr (std::tuple_size_v<R> == 2) o.set(outcome::value, v(std::move(std::get<1>(r))));
        else o.set(outcome::value, std::apply([&](auto &&, auto &&...a) { return v(std::make_tuple(std::move(a)...)); }, std::move(r)));
      }
      else if constexpr (std::tuple_size_v<R> == 1) o.set(outcome::value, v(std::move(std::get<0>(r))));
      else o.set(outcome::value, v(std::move(r)));
    }
  }
  catch (...) { threw = true; from_current_exception(o); }
  co_await aw<void>{{after}};
}
struct probe_t
{
  outcome o; bool threw = false; op after; unsigned k = 9;
  template<class F, class V> void start(F f, V v)
  {
    after.use_slot = false;
    k = vp_choice("form", 3);
    if (k == 0) probe_<plain>(f, v, o, threw, &after);
    else if (k == 1) probe_<result>(f, v, o, threw, &after);
    else probe_<tuple_>(f, v, o, threw, &after);
  }
  void verdict()
  {
    VP_CHECK(o.count == 1, "the awaiter is resumed exactly once");
    VP_CHECK(k == 0 || !threw, "as_result and as_tuple throw nothing");
    VP_CHECK(k != 0 || threw == (o.kind != outcome::value), "a plain await throws exactly on failure");
  }
};
