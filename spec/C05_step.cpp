// vp-level: proof
// C05: sbo_resource - contracts for construction, do_allocate and do_deallocate over an arbitrary state.
#include <boost/cobalt/detail/sbo_resource.hpp>
#include <vp.hpp>
namespace cobalt = boost::cobalt;
using cobalt::detail::sbo_resource;
using u64 = std::uint64_t;

namespace {
struct upstream_t final : std::pmr::memory_resource
{
  unsigned allocs = 0, deallocs = 0; u64 size = 0, align = 0; void *p = nullptr; char token;
  void *do_allocate(std::size_t n, std::size_t a) override { allocs++; size = n; align = a; return &token; }
  void do_deallocate(void *q, std::size_t n, std::size_t a) override { deallocs++; p = q; size = n; align = a; }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
u64 round16(u64 s) { return (s + (s == 0) + 15) & ~u64(15); }

// An arbitrary reachable-or-not state satisfying the representation invariant, with an arbitrary live block b.
struct any_state
{
  upstream_t up;
  char *buf; u64 size; u64 live; bool frag; u64 boff, bsz; sbo_resource r;
  any_state() : r(&up)
  {
    size = vp_input("size", 40);
    buf = (char *)vp_arena(size);
    live = 16 * vp_input("live/16", 37);             // ghost: sum of the (rounded) sizes of the live blocks in the buffer
    vp_assume(live <= size);
    frag = vp_bool("frag");
    boff = 16 * vp_input("b.off/16", 37); bsz = 16 * vp_input("b.size/16", 37);   // ghost: one arbitrary live block
    if (vp_bool("empty")) { vp_assume(live == 0); vp_assume(boff == 0); vp_assume(bsz == 0); vp_assume(!frag); }
    else { vp_assume(bsz >= 16); vp_assume(bsz <= live); vp_assume(boff + bsz <= size); }
    if (!frag) vp_assume(boff + bsz <= live);        // not fragmented: live blocks are inside the used prefix
    else vp_assume(live > 0);
    r.buffer_.p = buf; r.buffer_.size = size; r.buffer_.avail = size - live; r.buffer_.fragmented = frag;
  }
  void check_inv(u64 live2, const char *ob)
  {
    bool f = r.buffer_.fragmented;
    vp_check_((r.buffer_.p == buf) & (r.buffer_.size == size) & (r.buffer_.avail <= size) & (size - r.buffer_.avail == live2) & (!f | (live2 > 0)), ob);
  }
  void check_b(const char *ob)
  {
    u64 used = size - r.buffer_.avail;
    vp_check_(r.buffer_.fragmented | (boff + bsz <= used), ob);
  }
};
}

VP_CONTRACT(sbo_construct)
{
  u64 cap = vp_input("cap", 41), off = vp_input("off", 40), size = vp_input("size", 40);
  vp_assume(off + size <= cap);
  char *a = (char *)vp_arena(cap);
  upstream_t up;
  sbo_resource r(a + off, size, &up);
  VP_COVER("constructed");
  VP_CHECK((r.buffer_.avail == r.buffer_.size) & !r.buffer_.fragmented, "C05.construct: whole buffer available");
  if (r.buffer_.size > 0)
  {
    VP_COVER("nonempty");
    u64 p = (u64)r.buffer_.p, b = (u64)a + off;
    VP_CHECK(p % 16 == 0, "C05.construct: usable area is aligned");
    VP_CHECK((p >= b) & (p - b <= size) & (r.buffer_.size <= size - (p - b)), "C05.construct: usable area lies inside the given buffer");
  }
}

VP_CONTRACT(sbo_allocate)
{
  any_state s;
  u64 n = vp_u64("n"), align = vp_u64("align"); vp_assume((align > 0) & ((align & (align - 1)) == 0));
  u64 av = s.size - s.live;
  std::pmr::memory_resource &mr = s.r;
  void *p = mr.allocate(n, align);
  VP_COVER("allocated");
  if (s.up.allocs)
  {
    VP_COVER("upstream");
    VP_CHECK((s.up.allocs == 1) & (s.up.size == n) & (s.up.align == align) & (p == &s.up.token), "C05.allocate: upstream gets the request unchanged");
    s.check_inv(s.live, "C05.allocate: state unchanged when upstream serves");
  }
  else
  {
    VP_COVER("in buffer");
    u64 q = (u64)p, b = (u64)s.buf;
    VP_CHECK(n <= av, "C05.allocate: never serves more than is available");
    VP_CHECK((q >= b) & (q - b <= s.size) & (n <= s.size - (q - b)), "C05.allocate: block inside the buffer");
    VP_CHECK((q & (align - 1)) == 0, "C05.allocate: block has the requested alignment");
    u64 o = q - b;
    VP_CHECK((o + n <= s.boff) | (s.boff + s.bsz <= o), "C05.allocate: block disjoint from every live block");
    VP_CHECK((o < s.size) | (s.size == 0), "C05.allocate: block can be recognised on deallocation");
    s.check_inv(s.live + round16(n), "C05.allocate: accounting");
    s.check_b("C05.allocate: live blocks stay protected");
    u64 used = s.size - s.r.buffer_.avail;
    VP_CHECK(s.r.buffer_.fragmented | ((o <= used) & (round16(n) <= used - o)), "C05.allocate: new block is protected");
  }
  VP_CHECK(s.up.deallocs == 0, "C05.allocate: no deallocation");
}

VP_CONTRACT(sbo_deallocate_own)
{
  any_state s;
  u64 xoff = 16 * vp_input("x.off/16", 37), n = vp_input("n", 40), align = vp_u64("align");
  u64 xs = round16(n);
  vp_assume(xoff + xs <= s.size);
  vp_assume(xs + s.bsz <= s.live);                                        // x and b are both live
  if (!s.frag) vp_assume(xoff + xs <= s.live);
  vp_assume((xoff + xs <= s.boff) | (s.boff + s.bsz <= xoff));
  std::pmr::memory_resource &mr = s.r;
  mr.deallocate(s.buf + xoff, n, align);
  VP_COVER("deallocated");
  VP_CHECK((s.up.deallocs == 0) & (s.up.allocs == 0), "C05.deallocate: a buffer block never goes upstream");
  s.check_inv(s.live - xs, "C05.deallocate: accounting");
  s.check_b("C05.deallocate: other live blocks stay protected");
}

VP_CONTRACT(sbo_deallocate_last)   // the only live block
{
  any_state s;
  vp_assume(s.live == s.bsz); vp_assume(s.live > 0);
  u64 n = vp_input("n", 40); vp_assume(round16(n) == s.bsz);
  std::pmr::memory_resource &mr = s.r;
  mr.deallocate(s.buf + s.boff, n, 1);
  VP_COVER("emptied");
  VP_CHECK(s.up.deallocs == 0, "C05.deallocate: a buffer block never goes upstream");
  s.check_inv(0, "C05.deallocate: empty buffer is fully reusable");
}

VP_CONTRACT(sbo_deallocate_foreign)
{
  any_state s;
  u64 n = vp_u64("n"), align = vp_u64("align"); vp_assume((align > 0) & ((align & (align - 1)) == 0));
  char other; 
  std::pmr::memory_resource &mr = s.r;
  mr.deallocate(&other, n, align);
  VP_COVER("upstream dealloc");
  VP_CHECK((s.up.deallocs == 1) & (s.up.p == &other) & (s.up.size == n) & (s.up.align == align), "C05.deallocate: upstream block returned upstream unchanged");
  s.check_inv(s.live, "C05.deallocate: state unchanged for upstream blocks");
}
