// vp-level: proof
// vp-bounded mono_release: at most 3 chained blocks (block sizes, alignments and counts of allocations otherwise arbitrary)
// vp-bounded mono_history: 2 allocations with arbitrary sizes and alignments
// vp-assume: monotonic_resource requests are at most 2^32 bytes (the sum with the header cannot wrap)
// C06: monotonic_resource - contracts for allocate (arbitrary state) and release.
#include <boost/cobalt/detail/monotonic_resource.hpp>
#include <vp.hpp>
#include <new>
using boost::cobalt::detail::monotonic_resource;
using u64 = std::uint64_t;

VP_CONTRACT(mono_allocate_user_buffer)
{ // arbitrary fill state of the user supplied buffer; arbitrary live block b
  u64 cap = vp_input("cap", 33), boff = vp_input("buffer offset", 6), size = vp_input("size", 32);
  vp_assume(boff + size <= cap);
  char *buf = (char *)vp_arena(cap) + boff;
  monotonic_resource r(buf, size);
  u64 used = vp_input("used", 32); vp_assume(used <= size);
  r.buffer_.avail = size - used;
  u64 bo = vp_input("b.off", 32), bs = vp_input("b.size", 32); vp_assume(bo + bs <= used);
  u64 n = vp_input("n", 32), align = u64(8) << 2 * vp_choice("log4 align", 3);
  u64 live = vp_live();
  char *p = (char *)r.allocate(n, std::align_val_t(align));
  VP_COVER("allocated");
  VP_CHECK(p != nullptr, "C06.allocate: memory is returned");
  VP_CHECK(((u64)p & (align - 1)) == 0, "C06.allocate: block has the requested alignment");
  if (r.head_ == &r.buffer_)
  {
    VP_COVER("from the buffer");
    u64 o = (u64)p - (u64)buf;
    VP_CHECK((p >= buf) & (o + n <= size), "C06.allocate: block inside the buffer");
    VP_CHECK((o + n <= bo) | (bo + bs <= o) | (bs == 0) | (n == 0), "C06.allocate: block disjoint from every live block");
    VP_CHECK((r.buffer_.avail <= size) & (o + n <= size - r.buffer_.avail), "C06.allocate: the block is protected from later allocations");
    VP_CHECK(bo + bs <= size - r.buffer_.avail, "C06.allocate: live blocks stay protected");
    VP_CHECK(vp_live() == live, "C06.allocate: no upstream allocation");
  }
  else
  {
    VP_COVER("new chunk");
    VP_CHECK(vp_live() == live + 1, "C06.allocate: one new chunk");
    VP_CHECK((r.head_->p <= p) & (n <= r.head_->size) & (r.head_->avail <= r.head_->size - n), "C06.allocate: block inside its chunk");
    VP_CHECK(r.buffer_.avail == size - used, "C06.allocate: other blocks untouched");
    if (n > 0) { p[0] = 1; p[n - 1] = 2; }           // usable memory
    VP_CHECK(r.head_->next == nullptr, "C06.allocate: writing the block does not corrupt the chunk list");
    VP_CHECK((u64)r.head_ % alignof(monotonic_resource::block_) == 0, "C06.allocate: chunk header aligned");
    r.release();
    VP_CHECK(vp_live() == live, "C06.release: chunk freed");
  }
}

VP_CONTRACT(mono_allocate_chunk)
{ // arbitrary fill state of a chunk that allocate itself created
  u64 chunk = vp_input("chunk size", 16), n0 = vp_input("first", 16), al0 = u64(1) << vp_choice("log2 first align", 2) * 6;
  vp_mark();
  {
    monotonic_resource r(chunk);
    char *a = (char *)r.allocate(n0, std::align_val_t(al0));
    VP_CHECK(((u64)a & (al0 - 1)) == 0, "C06.allocate: chunk block has the requested alignment");
    VP_CHECK(r.head_ != &r.buffer_, "C06.allocate: without buffer a chunk is created");
    auto *h = r.head_;
    char *base = (char *)h->p; u64 size = h->size;
    VP_CHECK((a >= base) & ((u64)(a - base) + n0 <= size), "C06.allocate: first block inside its chunk");
    VP_CHECK((u64)(a - base) + n0 <= size - h->avail, "C06.allocate: first block is protected");
    u64 used = vp_input("used", 17); vp_assume((used <= size) & (used >= size - h->avail));
    h->avail = size - used;
    u64 n = vp_input("n", 16), align = u64(1) << 3 * vp_choice("log8 align", 3);
    char *p = (char *)r.allocate(n, std::align_val_t(align));
    VP_CHECK(((u64)p & (align - 1)) == 0, "C06.allocate: block has the requested alignment");
    if (r.head_ == h)
    {
      VP_COVER("same chunk");
      u64 o = (u64)p - (u64)base;
      VP_CHECK((p >= base) & (o >= used) & (o + n <= size), "C06.allocate: block inside the free part of the chunk");
      VP_CHECK(o + n <= size - h->avail, "C06.allocate: the block is protected from later allocations");
    }
    else
    {
      VP_COVER("next chunk");
      VP_CHECK(h->next == r.head_, "C06.allocate: chunks are chained for release");
      VP_CHECK(h->avail == size - used, "C06.allocate: other chunks untouched");
    }
    if (n > 0) { p[0] = 1; p[n - 1] = 2; }
  }
  VP_CHECK(vp_live() == 0, "C06.release: destructor frees every chunk with its size and alignment");
}

VP_CONTRACT(mono_release)
{
  alignas(16) char buf[64];
  vp_mark();
  {
    monotonic_resource r(buf, 64);
    unsigned k = vp_choice("chunks", 4);
    for (unsigned i = 0; i < k; i++) { char *p = (char *)r.allocate(64 + vp_input("n", 10), std::align_val_t(8u << 3 * vp_choice("log8 align", 2))); p[0] = 1; }
    bool explicit_release = vp_bool("explicit release");
    if (explicit_release)
    {
      r.release();
      VP_CHECK(vp_live() == 0, "C06.release: every chunk freed");
      char *p = (char *)r.allocate(64, std::align_val_t(8));
      VP_COVER("reused");
      VP_CHECK(p == buf, "C06.release: the buffer is reusable after release");
    }
  }
  VP_CHECK(vp_live() == 0, "C06.destroy: every chunk freed");
}

VP_CONTRACT(mono_history)
{ // public interface only: pairwise disjoint, aligned, everything freed
  static char area[128 + 16];
  unsigned off = vp_choice("misalign", 2) * 4;
  vp_mark();
  {
    monotonic_resource r(area + off, 96);
    char *p[2]; u64 n[2];
    for (int i = 0; i < 2; i++)
    {
      n[i] = vp_input("n", 7); u64 al = u64(1) << (vp_choice("log2 align", 2) * 2 + 3);
      p[i] = (char *)r.allocate(n[i], std::align_val_t(al));
      VP_CHECK(((u64)p[i] & (al - 1)) == 0, "C06.history: alignment");
      if (n[i] > 0) { p[i][0] = 1; p[i][n[i] - 1] = 1; }
      for (int j = 0; j < i; j++) VP_CHECK((p[i] + n[i] <= p[j]) | (p[j] + n[j] <= p[i]) | (n[i] == 0) | (n[j] == 0), "C06.history: blocks are pairwise disjoint");
    }
    VP_COVER("done");
  }
  VP_CHECK(vp_live() == 0, "C06.history: everything freed");
}
