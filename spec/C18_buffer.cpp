// vp-level: proof
// vp-bounded mutable_traverse: sequences of at most 4 buffers
// vp-bounded const_traverse: sequences of at most 4 buffers
// vp-bounded mutable_algorithms: sequences of at most 4 buffers
// vp-bounded const_algorithms: sequences of at most 4 buffers
#include <boost/cobalt/io/buffer.hpp>
#include <vp.hpp>
#include <array>
#include <compare>
#include <optional>
#include <vector>
namespace io = boost::cobalt::io; namespace asio = boost::asio; using u64 = std::uint64_t;

template<typename S> using buf_t = typename S::const_iterator::value_type;
template<typename B> bool same(const B &a, const B &b) { return (a.data() == b.data()) & (a.size() == b.size()); }
// an arbitrary sequence of n buffers with arbitrary addresses and sizes
template<typename B> std::span<const B> any_span(u64 n) { return {(const B *)vp_arena(n * sizeof(B)), n}; }

// ---- every length, every index
template<typename S> void index_contract()
{
  using B = buf_t<S>;
  u64 n = vp_input("length", 36), i = vp_input("i", 36), j = vp_input("j", 36); vp_assume(n > 0); vp_assume(i < n); vp_assume(j <= n);
  auto sp = any_span<B>(n); S seq(sp);
  if (vp_bool("copied")) { S other(seq); S third; third = other; seq = third; }
  VP_CHECK(seq.buffer_count() == n, "a view has as many buffers as the sequence it was built from");
  VP_CHECK((u64)(seq.end() - seq.begin()) == n, "end is as far from begin as there are buffers");
  auto b = seq.begin(); auto it = b + (std::ptrdiff_t)i;
  VP_CHECK(same(*it, sp[i]), "the iterator yields exactly the buffer of the sequence");
  VP_CHECK((it->data() == sp[i].data()) & (it->size() == sp[i].size()), "the iterator yields exactly the buffer of the sequence");
  VP_CHECK(same(b[(std::ptrdiff_t)i], sp[i]), "indexing yields exactly the buffer of the sequence");
  auto jt = seq.begin(); jt += (std::ptrdiff_t)j;
  VP_CHECK(jt - it == (std::ptrdiff_t)(j - i), "the difference of iterators is their distance");
  if (j < n) VP_CHECK(same(it[(std::ptrdiff_t)(j - i)], sp[j]), "indexing yields exactly the buffer of the sequence");
  VP_CHECK((it == jt) == (i == j) && (it != jt) == (i != j), "iterators are equal exactly at the same position");
  VP_CHECK((it < jt) == (i < j), "the iterator order is the order of traversal");
  VP_CHECK((it > jt) == (i > j) && (it <= jt) == (i <= j) && (it >= jt) == (i >= j), "the iterator order is the order of traversal");
  VP_CHECK((jt == seq.end()) == (j == n), "traversal ends after the last buffer");
  // steps
  auto k = it; auto pre = ++k;
  VP_CHECK(k == it + 1 && pre == k, "incrementing moves by one");
  auto l = it; l++; VP_CHECK(l == k, "incrementing moves by one");
  l--; VP_CHECK(l == it, "decrementing undoes incrementing"); --k; VP_CHECK(k == it, "decrementing undoes incrementing");
  auto m = jt - (std::ptrdiff_t)j; VP_CHECK(m == seq.begin(), "subtraction undoes addition"); jt -= (std::ptrdiff_t)j; VP_CHECK(jt == m, "subtraction undoes addition");
}
VP_CONTRACT(mutable_index) { index_contract<io::mutable_buffer_sequence>(); VP_COVER("end"); }
VP_CONTRACT(const_index) { index_contract<io::const_buffer_sequence>(); VP_COVER("end"); }

// ---- single buffers
template<typename S, typename B> void one(S seq, B b)
{
  VP_CHECK(seq.buffer_count() == 1 && seq.end() - seq.begin() == 1, "a single buffer is a sequence of one");
  VP_CHECK(same<buf_t<S>>(*seq.begin(), b), "the iterator yields exactly the buffer of the sequence");
  auto it = seq.begin(); ++it; VP_CHECK(it == seq.end() && seq.begin() != seq.end() && seq.begin() < seq.end(), "traversal ends after the last buffer");
  VP_CHECK(!seq.is_registered(), "no registered buffer");
  unsigned n = 0;
  visit(seq, [&](auto x) { n++; if constexpr (std::is_same_v<decltype(x), buf_t<S>>) VP_CHECK(same<buf_t<S>>(x, b), "the visitor gets the buffer"); else VP_CHECK(x.buffer_count() > 1, "the visitor gets the sequence"); });
  VP_CHECK(n == 1, "visited once");
  VP_CHECK(asio::buffer_size(seq) == b.size(), "the size is the one of the buffer");
}
VP_CONTRACT(single)
{
  u64 n = vp_input("size", 40); char *p = (char *)vp_arena(n);
  asio::mutable_buffer m(p, n); asio::const_buffer c(p, n);
  switch (vp_choice("kind", 7))
  {
  case 0: one<io::mutable_buffer_sequence>(m, m); break;
  case 1: one<io::const_buffer_sequence>(c, c); break;
  case 2: one<io::const_buffer_sequence>(m, c); break;
  case 3: { std::array<asio::mutable_buffer, 1> a{m}; one<io::mutable_buffer_sequence>(a, m); break; }
  case 4: { std::array<asio::const_buffer, 1> a{c}; one<io::const_buffer_sequence>(a, c); break; }
  case 5: { io::mutable_buffer_sequence e; one(e, asio::mutable_buffer()); io::mutable_buffer_sequence f{std::span<const asio::mutable_buffer>()}; one(f, asio::mutable_buffer()); break; }
  default: { io::const_buffer_sequence e; one(e, asio::const_buffer()); io::const_buffer_sequence f{std::span<const asio::const_buffer>()}; one(f, asio::const_buffer()); break; }
  }
  VP_COVER("end");
}

// ---- advancing: compared with the sequence it was built from, empty buffers left out
template<typename S> struct few
{
  using B = buf_t<S>; static constexpr unsigned max = 4;
  unsigned n; u64 total = 0; std::array<B, max> b; std::array<u64, max + 1> before{};
  few(unsigned n) : n(n)
  {
    // any ends: the sizes are their differences
    for (unsigned i = 0; i < n; i++) { u64 e = vp_input("end", 44); vp_assume(e >= total); before[i + 1] = e; b[i] = B((char *)vp_u64("address"), e - total); total = e; }
  }
  std::span<const B> span() const { return {b.data(), n}; }
  S seq() const { if (n == 1 && vp_bool("single")) return S(b[0]); return S(span()); }
};
template<typename S> u64 size_of(const S &s) { u64 t = 0; for (auto i = s.begin(); i != s.end(); ++i) t += i->size(); return t; }
template<typename S> void describes_rest(const S &seq, const few<S> &f, unsigned k, u64 n, const char *what)
{
  // k: the buffer with the first byte of the rest, n: the bytes in front
  auto i = seq.begin(), e = seq.end();
  for (unsigned j = k; j < f.n; j++)
  {
    buf_t<S> want = f.b[j]; if (j == k) want = buf_t<S>((char *)want.data() + (n - f.before[k]), want.size() - (n - f.before[k]));
    if (want.size() == 0) continue;
    while (i != e && i->size() == 0) ++i;
    VP_CHECK(i != e, what); VP_CHECK(same(*i, want), what); ++i;
  }
  while (i != e && i->size() == 0) ++i;
  VP_CHECK(i == e, what);
}
template<typename S> void advance(unsigned len)
{
  few<S> f(len); S seq = f.seq(); u64 n = vp_u64("amount"); unsigned k = vp_choice("lands in", len + 1);
  vp_assume(n >= f.before[k]); if (k < len) vp_assume(n < f.before[k + 1]);
  auto &r = (seq += n);
  VP_CHECK(&r == &seq, "advancing yields the view itself");
  if (k == len)
  {
    for (auto i = seq.begin(); i != seq.end(); ++i) VP_CHECK(i->size() == 0, "advancing to or beyond the end leaves an empty view");
    VP_CHECK(asio::buffer_size(seq) == 0, "advancing to or beyond the end leaves an empty view"); vp_cover_("all"); return;
  }
  describes_rest(seq, f, k, n, "advancing removes exactly that many bytes and leaves every other byte at its place");
}
// vp-bounded mutable_advance_1: sequences of 1 buffers (any sizes, any amount)
VP_CONTRACT(mutable_advance_1) { advance<io::mutable_buffer_sequence>(1); VP_COVER("end"); }
// vp-bounded const_advance_1: sequences of 1 buffers (any sizes, any amount)
VP_CONTRACT(const_advance_1) { advance<io::const_buffer_sequence>(1); VP_COVER("end"); }
// vp-bounded mutable_advance_2: sequences of 2 buffers (any sizes, any amount)
VP_CONTRACT(mutable_advance_2) { advance<io::mutable_buffer_sequence>(2); VP_COVER("end"); }
// vp-bounded const_advance_2: sequences of 2 buffers (any sizes, any amount)
VP_CONTRACT(const_advance_2) { advance<io::const_buffer_sequence>(2); VP_COVER("end"); }
// vp-bounded mutable_advance_3: sequences of 3 buffers (any sizes, any amount)
VP_CONTRACT(mutable_advance_3) { advance<io::mutable_buffer_sequence>(3); VP_COVER("end"); }
// vp-bounded const_advance_3: sequences of 3 buffers (any sizes, any amount)
VP_CONTRACT(const_advance_3) { advance<io::const_buffer_sequence>(3); VP_COVER("end"); }
// vp-bounded mutable_advance_4: sequences of 4 buffers (any sizes, any amount)
VP_CONTRACT(mutable_advance_4) { advance<io::mutable_buffer_sequence>(4); VP_COVER("end"); }
// vp-bounded const_advance_4: sequences of 4 buffers (any sizes, any amount)
VP_CONTRACT(const_advance_4) { advance<io::const_buffer_sequence>(4); VP_COVER("end"); }
// advancing twice is advancing by the sum
template<typename S> void twice()
{
  few<S> f(1 + vp_choice("length", 3)); S x = f.seq(); u64 n = vp_input("n", 44), m = vp_input("m", 44); unsigned k = vp_choice("first lands in", f.n + 1), l = k + vp_choice("second lands in", f.n + 1 - k);
  vp_assume(n >= f.before[k]); if (k < f.n) vp_assume(n < f.before[k + 1]);
  vp_assume(n + m >= f.before[l]); if (l < f.n) vp_assume(n + m < f.before[l + 1]);
  x += n; x += m;
  if (l == f.n) VP_CHECK(asio::buffer_size(x) == 0, "advancing twice is advancing by the sum");
  else describes_rest(x, f, l, n + m, "advancing twice is advancing by the sum");
}
// vp-bounded mutable_advance_twice: sequences of at most 3 buffers
// vp-bounded const_advance_twice: sequences of at most 3 buffers
VP_CONTRACT(mutable_advance_twice) { twice<io::mutable_buffer_sequence>(); VP_COVER("end"); }
VP_CONTRACT(const_advance_twice) { twice<io::const_buffer_sequence>(); VP_COVER("end"); }
// inside the first buffer: any number of further buffers
template<typename S> void advance_head()
{
  using B = buf_t<S>;
  u64 n = vp_input("length", 36), i = vp_input("i", 36), a = vp_u64("amount"); vp_assume(n > 0); vp_assume(i < n);
  auto sp = any_span<B>(n); vp_assume(a < sp[0].size()); S seq(sp);
  seq += a;
  VP_CHECK(seq.buffer_count() == n, "the other buffers stay");
  auto b = seq.begin(); auto &x = b[(std::ptrdiff_t)i];
  if (i == 0) VP_CHECK(((const char *)x.data() == (const char *)sp[0].data() + a) & (x.size() == sp[0].size() - a), "the first buffer is advanced");
  else VP_CHECK(same(x, sp[i]), "the other buffers stay");
}
VP_CONTRACT(mutable_advance_head) { advance_head<io::mutable_buffer_sequence>(); VP_COVER("end"); }
VP_CONTRACT(const_advance_head) { advance_head<io::const_buffer_sequence>(); VP_COVER("end"); }

// ---- traversal in both directions, and the algorithms of asio over it
template<typename S> void traverse()
{
  few<S> f(1 + vp_choice("length", 4)); S seq = f.seq(); unsigned n = 0;
  for (auto &x : seq) { VP_CHECK(n < f.n && same(x, f.b[n]), "traversal yields the buffers in order"); n++; }
  VP_CHECK(n == f.n, "traversal yields every buffer once");
  for (auto i = seq.end(); i != seq.begin();) { --i; n--; VP_CHECK(same(*i, f.b[n]), "traversal backwards yields the buffers in reverse order"); }
  VP_CHECK(n == 0, "traversal yields every buffer once");
  for (auto i = asio::buffer_sequence_begin(seq); i != asio::buffer_sequence_end(seq); i++) { VP_CHECK(n < f.n && same(*i, f.b[n]), "traversal yields the buffers in order"); n++; }
  VP_CHECK(n == f.n && std::distance(seq.begin(), seq.end()) == (int)f.n, "traversal yields every buffer once");
  VP_CHECK(asio::buffer_size(seq) == f.total && io::buffer_size(seq) == f.total, "the size is the sum of the buffers");
  unsigned v = 0;
  visit(seq, [&](auto x) { v++; if constexpr (std::is_same_v<decltype(x), buf_t<S>>) VP_CHECK(f.n == 1 && same(x, f.b[0]), "the visitor gets the buffer"); else VP_CHECK(x.buffer_count() == f.n && same(*x.begin(), f.b[0]) && same(*--x.end(), f.b[f.n - 1]), "the visitor gets the whole sequence"); });
  VP_CHECK(v == 1, "visited once");
}
VP_CONTRACT(mutable_traverse) { traverse<io::mutable_buffer_sequence>(); VP_COVER("end"); }
VP_CONTRACT(const_traverse) { traverse<io::const_buffer_sequence>(); VP_COVER("end"); }
// order between iterators of the same view, the ends included
template<typename S> void order()
{
  few<S> f(1 + vp_choice("length", 4)); S seq = f.seq(); unsigned i = vp_choice("i", f.n + 1), j = vp_choice("j", f.n + 1);
  auto x = seq.begin(), y = seq.begin(); for (unsigned k = 0; k < i; k++) ++x; for (unsigned k = 0; k < j; k++) y++;
  VP_CHECK((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "the iterator order is the order of traversal");
  VP_CHECK(y - x == (int)j - (int)i, "the difference of iterators is their distance");
  VP_CHECK(std::is_lt(x <=> y) == (i < j), "the iterator order is the order of traversal");
}
VP_CONTRACT(mutable_algorithms) { order<io::mutable_buffer_sequence>(); VP_COVER("end"); }
VP_CONTRACT(const_algorithms) { order<io::const_buffer_sequence>(); VP_COVER("end"); }
