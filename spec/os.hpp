// Ghost operating system: every system call the verified code makes is answered by an arbitrary result and recorded.
// In the verifier these functions are the system calls; natively they are linked in place of them (-Wl,--wrap).
#pragma once
#include <vp.hpp>
#include <cerrno>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <termios.h>
#include <csignal>
#include <netdb.h>
#include <pthread.h>
#include <cstring>
using u64 = std::uint64_t; using u32 = std::uint32_t;
#ifdef VP_NATIVE
#define VP_SYS(n) __asm__("__wrap_" #n)
#else
#define VP_SYS(n) __asm__(#n)
#endif
enum sys : u64 { S_socket = 1, S_socketpair, S_bind, S_listen, S_accept, S_connect, S_getopt, S_setopt, S_name, S_peer, S_shutdown, S_close, S_in, S_out, S_fcntl, S_ioctl, S_epoll, S_pipe, S_open, S_seek, S_stat, S_trunc, S_fsync, S_datasync, S_poll, S_result, S_tcget, S_tcset, S_break, S_action, S_lookup };
// the answer of the n-th call of one kind: fails with any error, would block, or succeeds with any value
struct answer { bool known = false; unsigned mode = 0; int err = 0; u64 v[4]; };
struct kernel
{
  static constexpr int EP = 0x70000000, TM = 0x70000001, EV = 0x70000002, SR = 0x70000003, SW = 0x70000004;   // descriptors of asio itself: its queue of descriptors, timer, wake-up, the pipe of its signals
  u64 w[160]; unsigned n = 0;          // trace
  answer a[24]; unsigned k = 0;        // answers, shared between the runs
  int next = 3;                        // descriptors handed out
  bool live = false;                   // calls are scripted
  bool refuse = false;                 // no descriptor can be watched: there is no memory for it
  bool regular = false;                // descriptors are regular files, which epoll refuses
  struct reg { int fd = -1; epoll_data_t d; u32 ev = 0, fire = 0; } r[4];
  unsigned waits = 0;
  std::int64_t now = 0;                // both clocks
  bool sure = false;                   // handlers can be installed
  bool signals = false;                // pipes are those of the signal sets
  int sent[4]; unsigned ns = 0, nr = 0; // signals in that pipe
  void (*handler[65])(int) = {};       // of the process, per signal
  unsigned lists = 0;                  // of addresses, not yet freed
  char *user = nullptr; u64 nuser = 0; // if set, other memory is not told apart
  u64 where(const void *p) { return !user ? (u64)p : (char *)p >= user && (char *)p < user + nuser ? (char *)p - user : ~0ull; }
  void (*idle)() = nullptr;            // the environment acts: nothing is left to do but to wait
  unsigned block = 0;                  // calls that may still answer "would block"
  void reset() { n = 0; k = 0; next = 3; live = false; for (auto &x : r) x = {}; waits = 0; ns = nr = 0; lists = 0; for (auto &h : handler) h = nullptr; }
  void put(u64 x) { if (n < 160) w[n++] = x; else vp_fail_("the trace is too long"); }
  void call(sys s, int fd) { put(s); put((u64)(std::int64_t)fd); }
  // modes: 0 success, 1 error, 2 would block
  answer &ask(bool may_block = false)
  {
    if (k >= 24) vp_fail_("too many calls");
    answer &x = a[k++];
    if (!x.known)
    {
      x.known = true;
      x.mode = vp_choice("answer", may_block && block ? 3 : 2);
      if (x.mode == 2) block--;
      x.err = x.mode == 1 ? (int)vp_u32("errno") : EAGAIN;
      if (x.mode == 1) vp_assume((x.err > 0) & (x.err != EINTR) & (x.err != EAGAIN) & (x.err != EINPROGRESS));
      for (auto &v : x.v) v = x.mode == 0 ? vp_u64("value") : 0;
    }
    return x;
  }
};

inline kernel K;
extern "C" {
#ifndef VP_NATIVE
int vp_errno_;
int *vp_errno_location() noexcept __asm__("__errno_location"); int *vp_errno_location() noexcept { return &vp_errno_; }
#endif
#define DO(may_block) answer &x = K.ask(may_block); if (x.mode) { errno = x.err; return -1; }
static void bytes(const void *p, u64 n) { for (u64 i = 0; i < n; i += 8) { u64 v = 0; for (u64 j = i; j < n && j < i + 8; j++) v = v << 8 | ((const unsigned char *)p)[j]; K.put(v); } }
int os_socket(int f, int t, int p) noexcept VP_SYS(socket); int os_socket(int f, int t, int p) noexcept { K.call(S_socket, f); K.put(t); K.put(p); DO(0) return K.next++; }
int os_socketpair(int f, int t, int p, int *sv) noexcept VP_SYS(socketpair);
int os_socketpair(int f, int t, int p, int *sv) noexcept { K.call(S_socketpair, f); K.put(t); K.put(p); DO(0) sv[0] = K.next++; sv[1] = K.next++; return 0; }
int os_pipe(int *sv) noexcept VP_SYS(pipe); int os_pipe(int *sv) noexcept { if (K.signals) { sv[0] = kernel::SR; sv[1] = kernel::SW; return 0; } K.put(S_pipe); DO(0) sv[0] = K.next++; sv[1] = K.next++; return 0; }
int os_bind(int s, const sockaddr *a, socklen_t n) noexcept VP_SYS(bind); int os_bind(int s, const sockaddr *a, socklen_t n) noexcept { K.call(S_bind, s); K.put(n); bytes(a, n); DO(0) return 0; }
int os_listen(int s, int b) noexcept VP_SYS(listen); int os_listen(int s, int b) noexcept { K.call(S_listen, s); K.put(b); DO(0) return 0; }
int os_connect(int s, const sockaddr *a, socklen_t n) VP_SYS(connect); int os_connect(int s, const sockaddr *a, socklen_t n)
{
  K.call(S_connect, s); K.put(n); bytes(a, n); answer &x = K.ask(true);
  if (x.mode) { errno = x.mode == 2 ? EINPROGRESS : x.err; return -1; }
  return 0;
}
int os_accept(int s, sockaddr *a, socklen_t *n) VP_SYS(accept); int os_accept(int s, sockaddr *a, socklen_t *n)
{
  K.call(S_accept, s); K.put(!!a); if (n) K.put(*n); DO(true)
  if (a && n) { auto in = (sockaddr_in *)a; in->sin_family = AF_INET; in->sin_port = (unsigned short)x.v[0]; in->sin_addr.s_addr = (u32)x.v[1]; *n = sizeof(*in); }
  return K.next++;
}
int os_name(int s, sockaddr *a, socklen_t *n) noexcept VP_SYS(getsockname); int os_peer(int s, sockaddr *a, socklen_t *n) noexcept VP_SYS(getpeername);
static int name_(int s, sockaddr *a, socklen_t *n, sys w)
{
  K.call(w, s); K.put(*n); DO(0)
  auto in = (sockaddr_in *)a; in->sin_family = AF_INET; in->sin_port = (unsigned short)x.v[0]; in->sin_addr.s_addr = (u32)x.v[1]; *n = sizeof(*in);
  return 0;
}
int os_name(int s, sockaddr *a, socklen_t *n) noexcept { return name_(s, a, n, S_name); }
int os_peer(int s, sockaddr *a, socklen_t *n) noexcept { return name_(s, a, n, S_peer); }
int os_setopt(int s, int l, int o, const void *v, socklen_t n) noexcept VP_SYS(setsockopt);
int os_setopt(int s, int l, int o, const void *v, socklen_t n) noexcept { K.call(S_setopt, s); K.put(l); K.put(o); K.put(n); bytes(v, n); DO(0) return 0; }
int os_getopt(int s, int l, int o, void *v, socklen_t *n) noexcept VP_SYS(getsockopt);
int os_getopt(int s, int l, int o, void *v, socklen_t *n) noexcept
{
  K.call(S_getopt, s); K.put(l); K.put(o); K.put(*n); DO(0)
  for (socklen_t i = 0; i < *n; i += 4) ((int *)v)[i / 4] = (int)x.v[i / 4];
  return 0;
}
int os_shutdown(int s, int h) noexcept VP_SYS(shutdown); int os_shutdown(int s, int h) noexcept { K.call(S_shutdown, s); K.put(h); DO(0) return 0; }
int os_close(int s) VP_SYS(close);
int os_close(int s)
{
  if (s >= kernel::EP) return 0;
  for (auto &r : K.r) if (r.fd == s) r.fd = -1;
  K.call(S_close, s); DO(0) return 0;
}
static ssize_t data_(sys d, int s, const iovec *v, u64 n, int fl)
{
  u64 t = 0; K.call(d, s); K.put(fl); K.put(n);
  for (u64 i = 0; i < n; i++) { K.put(K.where(v[i].iov_base)); K.put(v[i].iov_len); t += v[i].iov_len; }
  DO(true) vp_assume(x.v[0] <= t); return (ssize_t)x.v[0];
}
ssize_t os_recv(int s, void *p, size_t n, int f) VP_SYS(recv); ssize_t os_recv(int s, void *p, size_t n, int f) { iovec v{p, n}; return data_(S_in, s, &v, 1, f); }
ssize_t os_send(int s, const void *p, size_t n, int f) VP_SYS(send); ssize_t os_send(int s, const void *p, size_t n, int f) { iovec v{(void *)p, n}; return data_(S_out, s, &v, 1, f); }
ssize_t os_recvmsg(int s, msghdr *m, int f) VP_SYS(recvmsg); ssize_t os_recvmsg(int s, msghdr *m, int f) { auto r = data_(S_in, s, m->msg_iov, m->msg_iovlen, f); if (r >= 0) m->msg_flags = (int)K.a[K.k - 1].v[1]; return r; }
ssize_t os_sendmsg(int s, const msghdr *m, int f) VP_SYS(sendmsg); ssize_t os_sendmsg(int s, const msghdr *m, int f) { if (m->msg_name) K.put((u64)m->msg_name); return data_(S_out, s, m->msg_iov, m->msg_iovlen, f); }
ssize_t os_read(int s, void *p, size_t n) VP_SYS(read); ssize_t os_read(int s, void *p, size_t n) { if (s == kernel::SR && K.nr < K.ns && n == sizeof(int)) { *(int *)p = K.sent[K.nr++]; return n; } if (s >= kernel::EP) { errno = EAGAIN; return -1; } iovec v{p, n}; return data_(S_in, s, &v, 1, -1); }
ssize_t os_write(int s, const void *p, size_t n) VP_SYS(write); ssize_t os_write(int s, const void *p, size_t n) { if (s == kernel::SW && n == sizeof(int)) { if (K.ns >= 4) vp_fail_("too many signals"); K.sent[K.ns++] = *(const int *)p; } if (s >= kernel::EP) return (ssize_t)n; iovec v{(void *)p, n}; return data_(S_out, s, &v, 1, -1); }
ssize_t os_readv(int s, const iovec *v, int n) VP_SYS(readv); ssize_t os_readv(int s, const iovec *v, int n) { return data_(S_in, s, v, n, -1); }
ssize_t os_writev(int s, const iovec *v, int n) VP_SYS(writev); ssize_t os_writev(int s, const iovec *v, int n) { return data_(S_out, s, v, n, -1); }
int os_ioctl(int s, unsigned long r, int *p) noexcept VP_SYS(ioctl);
int os_ioctl(int s, unsigned long r, int *p) noexcept
{
  K.call(S_ioctl, s); K.put(r); K.put((u64)*p);
  if (r == FIONBIO) return 0;
  DO(0) *p = (int)x.v[0]; return 0;
}
int os_fcntl(int s, int c, int v) VP_SYS(fcntl);
int os_fcntl(int s, int c, int v)
{
  if (s >= kernel::EP) return 0;
  K.call(S_fcntl, s); K.put(c); if (c == F_SETFL || c == F_SETFD) K.put(v);
  return c == F_GETFL ? O_RDWR : 0;
}
int os_epoll_create1(int) noexcept VP_SYS(epoll_create1); int os_epoll_create1(int) noexcept { return kernel::EP; }
int os_timerfd_create(int, int) noexcept VP_SYS(timerfd_create); int os_timerfd_create(int, int) noexcept { errno = ENOSYS; return -1; }   // timers are looked at whenever the context polls
int os_eventfd(unsigned, int) noexcept VP_SYS(eventfd); int os_eventfd(unsigned, int) noexcept { return kernel::EV; }
int os_timerfd_settime(int, int, const itimerspec *, itimerspec *) noexcept VP_SYS(timerfd_settime); int os_timerfd_settime(int, int, const itimerspec *, itimerspec *) noexcept { return 0; }
int os_epoll_ctl(int, int op, int fd, epoll_event *e) noexcept VP_SYS(epoll_ctl);
int os_epoll_ctl(int, int op, int fd, epoll_event *e) noexcept
{
  if (fd >= kernel::EP && fd != kernel::SR) return 0;
  if (fd < kernel::EP) { K.call(S_epoll, fd);  K.put(op); if (op != EPOLL_CTL_DEL) K.put(e->events); }
  if (op == EPOLL_CTL_ADD)
  {
    if (K.refuse) { errno = ENOMEM; return -1; }
    if (K.regular) { errno = EPERM; return -1; }
    for (auto &r : K.r) if (r.fd == -1) { r.fd = fd; r.d = e->data; r.ev = e->events; return 0; }
    vp_fail_("too many descriptors");
  }
  for (auto &r : K.r) if (r.fd == fd) { if (op == EPOLL_CTL_DEL) r.fd = -1; else r.d = e->data, r.ev = e->events; return 0; }
  errno = ENOENT; return -1;
}
int os_epoll_wait(int, epoll_event *e, int, int) VP_SYS(epoll_wait);
int os_epoll_wait(int, epoll_event *e, int, int timeout)
{
  int n = 0; bool ready = false;
  for (auto &r : K.r) ready |= r.fd != -1 && r.fire;
  if (!ready && timeout && K.idle) K.idle();
  for (auto &r : K.r) if (r.fd != -1 && r.fire) { e[n].events = r.fire; e[n].data = r.d; r.fire = 0; n++; }
  return n;
}
std::int64_t os_steady() noexcept VP_SYS(_ZNSt6chrono3_V212steady_clock3nowEv); std::int64_t os_steady() noexcept { return K.now; }
std::int64_t os_system() noexcept VP_SYS(_ZNSt6chrono3_V212system_clock3nowEv); std::int64_t os_system() noexcept { return K.now; }
static off_t seek_(int s, off_t o, int w) { K.call(S_seek, s); K.put((u64)o); K.put((u64)w); DO(0) vp_assume((std::int64_t)x.v[0] >= 0); return (off_t)x.v[0]; }
static int trunc_(int s, off_t n) { K.call(S_trunc, s); K.put((u64)n); DO(0) return 0; }
static int stat_(int s, struct stat *t) { K.call(S_stat, s); DO(0) vp_assume((std::int64_t)x.v[0] >= 0); t->st_size = (off_t)x.v[0]; return 0; }
static int open_(const char *p, int f, unsigned m) { K.put(S_open); u64 n = 0; while (p[n]) n++; bytes(p, n); K.put((u64)(u32)f); K.put(f & O_CREAT ? m : 0); DO(0) return K.next++; }
off_t os_lseek(int s, off_t o, int w) noexcept VP_SYS(lseek); off_t os_lseek(int s, off_t o, int w) noexcept { return seek_(s, o, w); }
off_t os_lseek64(int s, off_t o, int w) noexcept VP_SYS(lseek64); off_t os_lseek64(int s, off_t o, int w) noexcept { return seek_(s, o, w); }
int os_ftruncate(int s, off_t n) noexcept VP_SYS(ftruncate); int os_ftruncate(int s, off_t n) noexcept { return trunc_(s, n); }
int os_ftruncate64(int s, off_t n) noexcept VP_SYS(ftruncate64); int os_ftruncate64(int s, off_t n) noexcept { return trunc_(s, n); }
int os_fstat(int s, struct stat *t) noexcept VP_SYS(fstat); int os_fstat(int s, struct stat *t) noexcept { return stat_(s, t); }
int os_fstat64(int s, struct stat *t) noexcept VP_SYS(fstat64); int os_fstat64(int s, struct stat *t) noexcept { return stat_(s, t); }
int os_open(const char *p, int f, unsigned m) VP_SYS(open); int os_open(const char *p, int f, unsigned m) { return open_(p, f, m); }
int os_open64(const char *p, int f, unsigned m) VP_SYS(open64); int os_open64(const char *p, int f, unsigned m) { return open_(p, f, m); }
int os_fsync(int s) VP_SYS(fsync); int os_fsync(int s) { K.call(S_fsync, s); DO(0) return 0; }
int os_fdatasync(int s) VP_SYS(fdatasync); int os_fdatasync(int s) { K.call(S_datasync, s); DO(0) return 0; }
int os_poll(pollfd *p, nfds_t n, int t) VP_SYS(poll);
int os_poll(pollfd *p, nfds_t n, int t) { K.call(S_poll, p->fd); K.put(p->events); K.put((u64)t); p->revents = p->events; return 1; }
// serial ports
int os_tcget(int s, termios *t) noexcept VP_SYS(tcgetattr);
int os_tcget(int s, termios *t) noexcept { K.call(S_tcget, s); DO(0) *t = {}; t->c_iflag = (u32)x.v[0]; t->c_oflag = (u32)(x.v[0] >> 32); t->c_cflag = (u32)x.v[1]; t->c_lflag = (u32)(x.v[1] >> 32); t->c_ispeed = (u32)x.v[2]; t->c_ospeed = (u32)(x.v[2] >> 32); return 0; }
int os_tcset(int s, int a, const termios *t) noexcept VP_SYS(tcsetattr);
int os_tcset(int s, int a, const termios *t) noexcept { K.call(S_tcset, s); K.put(a); K.put((u64)t->c_oflag << 32 | t->c_iflag); K.put((u64)t->c_lflag << 32 | t->c_cflag); K.put((u64)t->c_ospeed << 32 | t->c_ispeed); DO(0) return 0; }
int os_break(int s, int d) noexcept VP_SYS(tcsendbreak); int os_break(int s, int d) noexcept { K.call(S_break, s); K.put(d); DO(0) return 0; }
void os_raw(termios *t) noexcept VP_SYS(cfmakeraw);
void os_raw(termios *t) noexcept { t->c_iflag &= ~(IGNBRK | BRKINT | PARMRK | ISTRIP | INLCR | IGNCR | ICRNL | IXON); t->c_oflag &= ~OPOST; t->c_lflag &= ~(ECHO | ECHONL | ICANON | ISIG | IEXTEN); t->c_cflag &= ~(CSIZE | PARENB); t->c_cflag |= CS8; }
int os_speed(termios *t, speed_t b) noexcept VP_SYS(cfsetspeed); int os_speed(termios *t, speed_t b) noexcept { t->c_ispeed = t->c_ospeed = b; return 0; }
int os_ispeed(termios *t, speed_t b) noexcept VP_SYS(cfsetispeed); int os_ispeed(termios *t, speed_t b) noexcept { t->c_ispeed = b; return 0; }
int os_ospeed(termios *t, speed_t b) noexcept VP_SYS(cfsetospeed); int os_ospeed(termios *t, speed_t b) noexcept { t->c_ospeed = b; return 0; }
speed_t os_getospeed(const termios *t) noexcept VP_SYS(cfgetospeed); speed_t os_getospeed(const termios *t) noexcept { return t->c_ospeed; }
// signals
int os_fill(sigset_t *s) noexcept VP_SYS(sigfillset); int os_fill(sigset_t *s) noexcept { std::memset(s, 255, sizeof(*s)); return 0; }
int os_action(int n, const struct sigaction *a, struct sigaction *) noexcept VP_SYS(sigaction);
int os_action(int n, const struct sigaction *a, struct sigaction *) noexcept
{
  if (n < 1 || n > 64) { errno = EINVAL; return -1; }
  K.call(S_action, n); K.put(a->sa_handler != SIG_DFL); K.put(a->sa_flags); if (a->sa_handler != SIG_DFL && !K.sure) { DO(0) } K.handler[n] = a->sa_handler; return 0;
}
// names: up to two addresses
struct os_list { addrinfo a[2]; sockaddr_in s[2]; };
int os_lookup(const char *h, const char *s, const addrinfo *i, addrinfo **r) VP_SYS(getaddrinfo);
int os_lookup(const char *h, const char *s, const addrinfo *i, addrinfo **r)
{
  K.put(S_lookup); u64 n = 0; if (h) { while (h[n]) n++; K.put(n); bytes(h, n); } else K.put(-1); n = 0; if (s) { while (s[n]) n++; K.put(n); bytes(s, n); } else K.put(-1);
  K.put((u64)(u32)i->ai_flags); K.put((u64)(u32)i->ai_family); K.put((u64)(u32)i->ai_socktype); K.put((u64)(u32)i->ai_protocol);
  answer &x = K.ask(); if (x.mode) { errno = x.err; return x.err & 1 ? EAI_NONAME : EAI_SYSTEM; }
  auto l = new os_list(); unsigned k = x.v[0] & 1 ? 2 : 1;
  for (unsigned j = 0; j < k; j++)
  {
    l->s[j].sin_family = AF_INET; l->s[j].sin_port = (unsigned short)x.v[1 + j]; l->s[j].sin_addr.s_addr = (u32)(x.v[1 + j] >> 32);
    l->a[j].ai_family = AF_INET; l->a[j].ai_socktype = SOCK_STREAM; l->a[j].ai_protocol = IPPROTO_TCP; l->a[j].ai_addr = (sockaddr *)&l->s[j]; l->a[j].ai_addrlen = sizeof(sockaddr_in); l->a[j].ai_next = j + 1 < k ? &l->a[j + 1] : nullptr;
  }
  K.lists++; *r = l->a; return 0;
}
void os_free(addrinfo *a) noexcept VP_SYS(freeaddrinfo); void os_free(addrinfo *a) noexcept { K.lists--; delete (os_list *)a; }
// a thread the code under contract starts has its turn when it is joined, or when the contract runs it
struct os_main { void *(*f)(void *); void *p; };
int os_thread(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *p) noexcept VP_SYS(pthread_create); int os_thread(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *p) noexcept { *t = (pthread_t) new os_main{f, p}; return 0; }
int os_join(pthread_t t, void **) VP_SYS(pthread_join); int os_join(pthread_t t, void **) { auto m = (os_main *)t; m->f(m->p); delete m; return 0; }
}
