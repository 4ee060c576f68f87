// Ghost OpenSSL: every step of a connection is answered by an arbitrary outcome and recorded; what it would send is up to two bytes.
#pragma once
#include <os.hpp>
#include <openssl/ssl.h>
#include <openssl/err.h>
enum ossl : u64 { L_new = 0x100, L_free, L_accept, L_connect, L_read, L_write, L_shutdown, L_put, L_get, L_verify, L_depth, L_bio };
struct os_ssl { void *data = nullptr; int (*verify)(int, X509_STORE_CTX *) = nullptr; int mode = 0, depth = 0, status = 0, pending = 0; unsigned id = 0; };
struct openssl_
{
  unsigned live = 0, ids = 0; unsigned long error = 0; unsigned retries = 0;   // steps that may still want to read or write first
  bool quiet = false;                                                          // nothing is sent
  os_ssl *last = nullptr;
  void reset() { live = 0; ids = 0; error = 0; last = nullptr; }
};
inline openssl_ L;
extern "C" {
SSL *os_new(SSL_CTX *c) VP_SYS(SSL_new);
SSL *os_new(SSL_CTX *c) { K.put(L_new); K.put((u64)c); answer &x = K.ask(); if (x.mode) { L.error = (unsigned)x.err; return nullptr; } auto s = new os_ssl(); s->id = ++L.ids; L.live++; L.last = s; return (SSL *)s; }
void os_sslfree(SSL *s) VP_SYS(SSL_free); void os_sslfree(SSL *s) { K.put(L_free); K.put(((os_ssl *)s)->id); L.live--; delete (os_ssl *)s; }
long os_ctrl(SSL *, int, long, void *) VP_SYS(SSL_ctrl); long os_ctrl(SSL *, int, long, void *) { return 1; }
int os_pair(BIO **a, size_t, BIO **b, size_t) VP_SYS(BIO_new_bio_pair); int os_pair(BIO **a, size_t, BIO **b, size_t) { *a = *b = (BIO *)L.last; return 1; }
void os_setbio(SSL *, BIO *, BIO *) VP_SYS(SSL_set_bio); void os_setbio(SSL *, BIO *, BIO *) {}
int os_biofree(BIO *) VP_SYS(BIO_free); int os_biofree(BIO *) { K.put(L_bio); return 1; }
void *os_getdata(const SSL *s, int) VP_SYS(SSL_get_ex_data); void *os_getdata(const SSL *s, int) { return ((os_ssl *)s)->data; }
int os_setdata(SSL *s, int, void *d) VP_SYS(SSL_set_ex_data); int os_setdata(SSL *s, int, void *d) { ((os_ssl *)s)->data = d; return 1; }
void os_setverify(SSL *s, int m, int (*f)(int, X509_STORE_CTX *)) VP_SYS(SSL_set_verify); void os_setverify(SSL *s, int m, int (*f)(int, X509_STORE_CTX *)) { K.put(L_verify); K.put((u64)m); K.put(!!f); ((os_ssl *)s)->mode = m; ((os_ssl *)s)->verify = f; }
void os_setdepth(SSL *s, int d) VP_SYS(SSL_set_verify_depth); void os_setdepth(SSL *s, int d) { K.put(L_depth); K.put((u64)d); ((os_ssl *)s)->depth = d; }
int os_getmode(const SSL *s) VP_SYS(SSL_get_verify_mode); int os_getmode(const SSL *s) { return ((os_ssl *)s)->mode; }
using os_cb = int (*)(int, X509_STORE_CTX *); os_cb os_getverify(const SSL *s) VP_SYS(SSL_get_verify_callback); os_cb os_getverify(const SSL *s) { return ((os_ssl *)s)->verify; }
// one step: 0 done, or not; it may want to read or write first; it may have something to send
static int step_(SSL *p, ossl w, const void *d, int n)
{
  auto s = (os_ssl *)p; K.put(w); K.put(s->id); K.put(K.where(d)); K.put((u64)n);
  answer &x = K.ask(L.retries > 0);
  if (x.mode == 0)
  {
    s->status = SSL_ERROR_NONE; if (!L.quiet) s->pending += x.v[3] & 1 ? 2 : 0;
    if (n < 0) return 1;
    vp_assume((u32)x.v[0] > 0); vp_assume((u32)x.v[0] <= (u32)n); return (int)x.v[0];
  }
  if (x.mode == 2) { L.retries--; s->status = SSL_ERROR_WANT_READ; return -1; }
  if (x.err & 1) { s->status = SSL_ERROR_SSL; L.error = (unsigned)x.err; return -1; }
  s->status = SSL_ERROR_ZERO_RETURN; return -1;
}
int os_sslaccept(SSL *s) VP_SYS(SSL_accept); int os_sslaccept(SSL *s) { return step_(s, L_accept, nullptr, -1); }
int os_sslconnect(SSL *s) VP_SYS(SSL_connect); int os_sslconnect(SSL *s) { return step_(s, L_connect, nullptr, -1); }
int os_sslshutdown(SSL *s) VP_SYS(SSL_shutdown); int os_sslshutdown(SSL *s) { return step_(s, L_shutdown, nullptr, -1); }
int os_sslread(SSL *s, void *p, int n) VP_SYS(SSL_read); int os_sslread(SSL *s, void *p, int n) { return step_(s, L_read, p, n); }
int os_sslwrite(SSL *s, const void *p, int n) VP_SYS(SSL_write); int os_sslwrite(SSL *s, const void *p, int n) { return step_(s, L_write, p, n); }
int os_sslerror(const SSL *s, int r) VP_SYS(SSL_get_error); int os_sslerror(const SSL *s, int r) { return r > 0 ? SSL_ERROR_NONE : ((os_ssl *)s)->status; }
int os_sslgetshut(const SSL *) VP_SYS(SSL_get_shutdown); int os_sslgetshut(const SSL *) { return SSL_RECEIVED_SHUTDOWN; }
void os_clear() VP_SYS(ERR_clear_error); void os_clear() { L.error = 0; }
unsigned long os_error() VP_SYS(ERR_get_error); unsigned long os_error() { auto e = L.error; L.error = 0; return e; }
size_t os_pending(BIO *b) VP_SYS(BIO_ctrl_pending); size_t os_pending(BIO *b) { return ((os_ssl *)b)->pending; }
size_t os_wpending(BIO *) VP_SYS(BIO_ctrl_wpending); size_t os_wpending(BIO *) { return 0; }
long os_bioctrl(BIO *, int, long, void *) VP_SYS(BIO_ctrl); long os_bioctrl(BIO *, int, long, void *) { return 0; }
int os_bioread(BIO *b, void *, int n) VP_SYS(BIO_read); int os_bioread(BIO *b, void *, int n) { auto s = (os_ssl *)b; K.put(L_get); K.put(s->id); K.put((u64)n); int k = s->pending; s->pending = 0; return k; }
int os_biowrite(BIO *b, const void *, int n) VP_SYS(BIO_write); int os_biowrite(BIO *b, const void *, int n) { K.put(L_put); K.put(((os_ssl *)b)->id); K.put((u64)n); return n; }
const char *os_reason(unsigned long) VP_SYS(ERR_reason_error_string); const char *os_reason(unsigned long) { return "e"; }
const char *os_lib(unsigned long) VP_SYS(ERR_lib_error_string); const char *os_lib(unsigned long) { return "l"; }
const char *os_func(unsigned long) VP_SYS(ERR_func_error_string); const char *os_func(unsigned long) { return "f"; }
void os_ctxfree(SSL_CTX *) VP_SYS(SSL_CTX_free); void os_ctxfree(SSL_CTX *) {}
void *os_ctxpw(SSL_CTX *) VP_SYS(SSL_CTX_get_default_passwd_cb_userdata); void *os_ctxpw(SSL_CTX *) { return nullptr; }
void *os_ctxdata(const SSL_CTX *, int) VP_SYS(SSL_CTX_get_ex_data); void *os_ctxdata(const SSL_CTX *, int) { return nullptr; }
}
