// Parts of libstdc++/libc that live in the shared libraries, given to the symbolic executor as source.
#include "vf.h"
#include <string>
#include <exception>
#include <stdexcept>
#include <new>
#include <functional>
#include <memory>
#include <system_error>
#include <map>
#include <list>
#include <stdarg.h>
#include <errno.h>

template class std::basic_string<char>;
extern "C" char __libc_single_threaded = 1;

// keep the typeinfo objects of the standard exceptions as globals of the module
const void* vf_typeinfos[] = {&typeid(std::exception), &typeid(std::logic_error), &typeid(std::length_error), &typeid(std::out_of_range), &typeid(std::invalid_argument),
  &typeid(std::bad_function_call), &typeid(std::bad_alloc), &typeid(std::bad_weak_ptr), &typeid(std::system_error), &typeid(std::runtime_error)};

// ---- threads
#define private public
#include <thread>
#undef private
#include <chrono>
#include "threads.inc"
#undef private
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  uint64_t id = vf_thread_create(vfThreadTramp, s.release());
  *reinterpret_cast<uint64_t*>(this) = id + 1000;
}
void thread::join() {
  uint64_t& id = *reinterpret_cast<uint64_t*>(this);
  if (id == 0) __throw_system_error(22);
  vf_thread_join(id - 1000); id = 0;
}
void thread::detach() { uint64_t& id = *reinterpret_cast<uint64_t*>(this); if (id == 0) __throw_system_error(22); id = 0; }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(static_cast<int64_t>(vf_clock()))); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(static_cast<int64_t>(vf_clock()))); }
} }
}
extern "C" unsigned long pthread_self() { return 1000 + (unsigned long)vf_self(); }

// ---- libc
extern "C" {
static int vf_errno;
int* __errno_location() { return &vf_errno; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { size_t i = 0; for (; a[i] && a[i] == b[i]; i++) {} return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; } return 0; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
static int digitOf(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long long conv(const char* s, char** end, int base, bool sgn) {
  const char* p = s; while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
  bool neg = false; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitOf(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, ovf = false;
  for (; digitOf(*p) < base; p++) { any = true; unsigned long long nv; if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)digitOf(*p), &nv)) ovf = true; else v = nv; }
  if (end) *end = (char*)(any ? p : s);
  if (sgn) {
    unsigned long long lim = neg ? 0x8000000000000000ull : 0x7fffffffffffffffull;
    if (ovf || v > lim) { vf_errno = 34; return lim; }
  } else if (ovf) { vf_errno = 34; return ~0ull; }
  return neg ? 0 - v : v;
}
long long __isoc23_strtoll(const char* s, char** e, int b) { return (long long)conv(s, e, b, true); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return conv(s, e, b, false); }
long __isoc23_strtol(const char* s, char** e, int b) { return (long)conv(s, e, b, true); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return (unsigned long)conv(s, e, b, false); }
// decimal strings of up to 15 digits with a small exponent (exact product/quotient of exact doubles); others are evaluated concretely
double vf_strtod(const char* s, char** end);
static const double pow10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
static double slowStrtod(const char* s, char** end) { double d = vf_strtod(s, end); uint64_t u; __builtin_memcpy(&u, &d, 8); const char* p = s; while (*p == ' ' || (*p >= '\t' && *p <= '\r') || *p == '+' || *p == '-') p++; if ((u << 1) == 0xffe0000000000000ull && (*p < 'A')) vf_errno = 34; return d; }
double strtod(const char* s, char** end) {
  const char* p = s; while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
  bool neg = false; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if (*p == 'i' || *p == 'I' || *p == 'n' || *p == 'N' || (*p == '0' && (p[1] == 'x' || p[1] == 'X'))) return slowStrtod(s, end);
  uint64_t m = 0; int digits = 0, frac = 0; bool any = false;
  for (; *p >= '0' && *p <= '9'; p++) { any = true; m = m * 10 + (uint64_t)(*p - '0'); digits++; }
  if (*p == '.') { const char* q = p + 1; bool anyFrac = false; for (; *q >= '0' && *q <= '9'; q++) { anyFrac = true; m = m * 10 + (uint64_t)(*q - '0'); digits++; frac++; } if (any || anyFrac) { any = true; p = q; } }
  if (digits > 15) return slowStrtod(s, end);
  int ex = -frac;
  if (any && (*p == 'e' || *p == 'E')) { const char* q = p + 1; bool en = false; if (*q == '+' || *q == '-') { en = *q == '-'; q++; } if (*q >= '0' && *q <= '9') { int v = 0; for (; *q >= '0' && *q <= '9'; q++) { v = v * 10 + (*q - '0'); if (v > 99999) return slowStrtod(s, end); } ex += en ? -v : v; p = q; } }
  if (end) *end = (char*)(any ? p : s); if (!any) return 0.0;
  if (m == 0) return neg ? -0.0 : 0.0;
  if (ex > 22 || ex < -22) return slowStrtod(s, end);
  double d = (double)m; d = ex >= 0 ? d * pow10[ex] : d / pow10[-ex]; return neg ? -d : d;
}
}
#include "libc.cpp"

// ---- signal masks, one word per thread
#include <signal.h>
extern "C" {
static unsigned long vf_sigmask[16];
int sigfillset(sigset_t* s) { s->__val[0] = ~0ul; for (int i = 1; i < 16; i++) s->__val[i] = ~0ul; return 0; }
int sigemptyset(sigset_t* s) { for (int i = 0; i < 16; i++) s->__val[i] = 0; return 0; }
int sigaddset(sigset_t* s, int n) { s->__val[0] |= 1ul << (n - 1); return 0; }
int sigismember(const sigset_t* s, int n) { return (s->__val[0] >> (n - 1)) & 1; }
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
  unsigned long& m = vf_sigmask[vf_self() & 15]; unsigned long before = m;
  if (set) { unsigned long v = set->__val[0]; if (how == SIG_BLOCK) m |= v; else if (how == SIG_UNBLOCK) m &= ~v; else if (how == SIG_SETMASK) m = v; else return 22; m &= ~((1ul << (SIGKILL - 1)) | (1ul << (SIGSTOP - 1)) | (3ul << 31)); }
  if (old) { old->__val[0] = before; for (int i = 1; i < 16; i++) old->__val[i] = 0; }
  return 0;
}
}
#include "containers.cpp"
