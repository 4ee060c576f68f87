// Specification interface.  The same file is compiled twice:
//  * to LLVM bitcode, where vp_* are interpreted by the verification engine (symbolic, all inputs), and
//  * natively (-DVP_NATIVE) against the real code, to replay a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
unsigned long vp_input(const char *name, unsigned bits);   // arbitrary value (full domain)
unsigned vp_choice(const char *name, unsigned n);           // concrete case split over 0..n-1
void vp_assume(bool c);                                     // precondition
void vp_check_(bool c, const char *ob);                     // proof obligation
[[noreturn]] void vp_fail_(const char *ob);                 // must be unreachable
void vp_cover_(const char *name);                           // reachability witness (vacuity guard)
void *vp_arena(unsigned long size);                         // object of (symbolic) size with arbitrary contents, 4096-aligned
void vp_mark();                                             // start of leak accounting
unsigned long vp_live();                                    // live heap objects allocated since vp_mark
int vp_valid(const void *p, unsigned long n);               // [p,p+n) lies in one live object
int vp_symbolic();
void vp_trace_(const char *m, unsigned long v);
unsigned long vp_conc(unsigned long v);                     // split on all values
[[noreturn]] void vp_done();
// threads (std::thread and pthread mutexes and condition variables run under the engine's scheduler)
void vp_thread_preempt(unsigned n);                         // explore all schedules with up to n preemptions
void vp_thread_end();                                       // waits until every other thread is finished
}
inline std::uint64_t vp_u64(const char *n) { return vp_input(n, 64); }
inline std::uint32_t vp_u32(const char *n) { return (std::uint32_t)vp_input(n, 32); }
inline std::uint16_t vp_u16(const char *n) { return (std::uint16_t)vp_input(n, 16); }
inline std::uint8_t vp_u8(const char *n) { return (std::uint8_t)vp_input(n, 8); }
inline bool vp_bool(const char *n) { return vp_choice(n, 2) != 0; }
#define VP_REQUIRES(c) vp_assume(c)
#define VP_ENSURES(c, ob) vp_check_((c), ob)
#define VP_CHECK(c, ob) vp_check_((c), ob)
#define VP_COVER(n) vp_cover_(n)
#define VP_CONTRACT(name) extern "C" void vp_C_##name(); extern "C" void vp_C_##name()
