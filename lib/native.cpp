// Native runtime of the specification interface: replays one input vector against the real code.
#undef main
#include <vp.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <random>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <signal.h>

extern "C" void vp_dispatch(const char *name);
static unsigned long g_in[4096]; static unsigned g_n, g_i; static bool g_rand; static std::mt19937_64 g_rng;
static unsigned long next_(unsigned bits, unsigned n)
{
  unsigned long v;
  if (g_i < g_n) v = g_in[g_i++];
  else if (g_rand)
  {
    v = g_rng();
    switch (g_rng() % 4) { case 0: v %= 8; break; case 1: v %= 200; break; case 2: v %= 5000; break; default: break; }
    if (g_i < 4096) { g_in[g_i++] = v; g_n = g_i; }
  }
  else v = 0;
  if (n) return v % n;
  return bits >= 64 ? v : v & ((1ul << bits) - 1);
}
static void die(const char *k, const char *m)
{
  std::fprintf(stdout, "VP-%s: %s\n", k, m);
  std::fprintf(stdout, "VP-INPUTS:"); for (unsigned i = 0; i < g_i && i < g_n; i++) std::fprintf(stdout, " %lu", g_in[i]); std::fprintf(stdout, "\n");
  std::fflush(stdout); _exit(std::strcmp(k, "SKIP") ? 1 : 77);
}
extern "C" {
unsigned long vp_input(const char *, unsigned bits) { return next_(bits, 0); }
unsigned vp_choice(const char *, unsigned n) { if (!n) die("SKIP", "choice"); return (unsigned)next_(32, n); }
void vp_assume(bool c) { if (!c) die("SKIP", "assumption"); }
void vp_check_(bool c, const char *ob) { if (!c) die("FAIL", ob); }
void vp_fail_(const char *ob) { die("FAIL", ob); std::abort(); }
void vp_cover_(const char *) {}
void *vp_arena(unsigned long n) { void *p = nullptr; if (posix_memalign(&p, 4096, n ? n : 1)) die("SKIP", "arena"); std::memset(p, 0x5a, n); return p; }
int vp_valid(const void *, unsigned long) { return 1; }
int vp_symbolic() { return 0; }
void vp_trace_(const char *m, unsigned long v) { std::fprintf(stderr, "trace: %s %lu\n", m, v); }
unsigned long vp_conc(unsigned long v) { return v; }
void vp_thread_preempt(unsigned) {}
void vp_thread_end() { for (int i = 0; i < 2000; i++) { int n = 0; if (FILE *f = std::fopen("/proc/self/status", "r")) { char b[256]; while (std::fgets(b, sizeof b, f)) if (!std::strncmp(b, "Threads:", 8)) n = std::atoi(b + 8); std::fclose(f); } if (n <= 1) return; usleep(1000); } }
void vp_done() { std::fprintf(stdout, "VP-OK\n"); std::fflush(stdout); _exit(0); }
}
// ---- schedules: with VP_JITTER=seed every synchronisation of a thread may be delayed
#include <atomic>
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
static unsigned g_jit; static std::atomic<unsigned> g_jn;
static void jitter()
{
  if (!g_jit) return;
  unsigned x = (g_jit * 2654435761u) ^ (g_jn.fetch_add(1) * 40503u) ^ ((unsigned)pthread_self() >> 12) * 97u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13;
  if (x % 4 == 0) { timespec t{0, (long)((x >> 4) % 3 == 0 ? 3000000 : 150000)}; nanosleep(&t, nullptr); }
}
#ifndef VP_TSAN
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept { static auto f = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock"); jitter(); return f(m); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { static auto f = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); jitter(); int r = f(m); jitter(); return r; }
#endif
// ---- allocation accounting
static std::atomic_flag g_lk = ATOMIC_FLAG_INIT;
struct lk { lk() { while (g_lk.test_and_set()) ; } ~lk() { g_lk.clear(); } };
struct ent { void *p; std::size_t n, al; unsigned how; bool marked; };
static ent *g_tab; static std::size_t g_cap, g_cnt; static bool g_on;
extern "C" void vp_mark() { g_on = true; for (std::size_t i = 0; i < g_cnt; i++) g_tab[i].marked = false; }
extern "C" unsigned long vp_live() { unsigned long c = 0; for (std::size_t i = 0; i < g_cnt; i++) if (g_tab[i].marked) c++; return c; }
static void *add(void *p, std::size_t n, std::size_t al, unsigned how)
{
  lk l;
  if (g_cnt == g_cap) { g_cap = g_cap ? g_cap * 2 : 1024; g_tab = (ent *)std::realloc(g_tab, g_cap * sizeof(ent)); }
  g_tab[g_cnt++] = {p, n, al, how, g_on}; return p;
}
static void rem(void *p, const std::size_t *n, std::size_t al, unsigned how)
{
  if (!p) return;
  lk l;
  for (std::size_t i = g_cnt; i-- > 0;) if (g_tab[i].p == p)
  {
    ent e = g_tab[i]; g_tab[i] = g_tab[--g_cnt];
    if (e.how != how) die("FAIL", "memory-safety: allocation/deallocation mismatch");
    if (e.al != al) die("FAIL", "memory-safety: deallocation alignment differs");
    if (n && *n != e.n) die("FAIL", "sized-delete-matches-allocation");
    std::free(p); return;
  }
  die("FAIL", "memory-safety: free of a pointer that is not allocated");
}
static void *al0(std::size_t n) { if (n > (std::size_t(1) << 33)) throw std::bad_alloc(); void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(std::size_t n) { return add(al0(n), n, 16, 1); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return operator new[](n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n) { return add(al0(n), n, 16, 2); }
void *operator new(std::size_t n, std::align_val_t a)
{ void *p = nullptr; std::size_t al = (std::size_t)a; if (al & (al - 1) || !al) die("FAIL", "memory-safety: invalid alignment");
  if (n > (std::size_t(1) << 33) || posix_memalign(&p, al < 8 ? 8 : al, n ? n : 1)) throw std::bad_alloc(); return add(p, n, al, 3); }
void operator delete(void *p) noexcept { rem(p, nullptr, 16, 1); }
void operator delete[](void *p) noexcept { rem(p, nullptr, 16, 2); }
void operator delete(void *p, std::size_t n) noexcept { rem(p, &n, 16, 1); }
void operator delete[](void *p, std::size_t n) noexcept { rem(p, &n, 16, 2); }
void operator delete(void *p, std::align_val_t a) noexcept { rem(p, nullptr, (std::size_t)a, 3); }
void operator delete(void *p, std::size_t n, std::align_val_t a) noexcept { rem(p, &n, (std::size_t)a, 3); }

static void on_term() { die("FAIL", "no-terminate: std::terminate / uncaught exception"); }
static void on_sig(int s) { char b[64]; std::snprintf(b, sizeof b, "signal %d", s); die("FAIL", b); }
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept { static char b[600]; std::snprintf(b, sizeof b, "no-assertion-failure: %s at %s:%u", e, f, l); die("FAIL", b); std::abort(); }

int main(int argc, char **argv)
{ // native CONTRACT replay v0 v1 ... | native CONTRACT random SEED
  std::set_terminate(on_term);
  signal(SIGALRM, on_sig); signal(SIGABRT, on_sig);
  alarm(20); if (auto j = std::getenv("VP_JITTER")) g_jit = std::atoi(j);
  if (argc > 3 && !std::strcmp(argv[2], "random")) { g_rand = true; g_rng.seed(std::strtoul(argv[3], nullptr, 10)); }
  else for (int i = 3; i < argc; i++) g_in[g_n++] = std::strtoul(argv[i], nullptr, 10);
  vp_mark();
  try { vp_dispatch(argv[1]); }
  catch (std::exception &e) { die("FAIL", (std::string("no-uncaught-exception: ") + e.what()).c_str()); }
  catch (...) { die("FAIL", "no-uncaught-exception"); }
  std::fprintf(stdout, "VP-OK\n"); std::fflush(stdout);
  _exit(0);
}
