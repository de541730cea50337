// Further libc / libstdc++ functions, so that code written with other library calls still has an encoding.
#include <unordered_map>
#include <unordered_set>
#include <time.h>
#include <pthread.h>
// harnesses may bring their own
#pragma weak __ctype_b_loc
#pragma weak __ctype_tolower_loc
#pragma weak __ctype_toupper_loc
#pragma weak __snprintf_chk
#pragma weak __sprintf_chk
#pragma weak clock_gettime
#pragma weak clock_nanosleep
#pragma weak fabs
#pragma weak isalnum
#pragma weak isalpha
#pragma weak isblank
#pragma weak iscntrl
#pragma weak isdigit
#pragma weak isgraph
#pragma weak islower
#pragma weak isprint
#pragma weak ispunct
#pragma weak isspace
#pragma weak isupper
#pragma weak isxdigit
#pragma weak memrchr
#pragma weak nanosleep
#pragma weak printf
#pragma weak pthread_once
#pragma weak puts
#pragma weak snprintf
#pragma weak sprintf
#pragma weak stpcpy
#pragma weak strcasecmp
#pragma weak strcat
#pragma weak strchr
#pragma weak strcpy
#pragma weak strcspn
#pragma weak strdup
#pragma weak strncasecmp
#pragma weak strncpy
#pragma weak strnlen
#pragma weak strpbrk
#pragma weak strrchr
#pragma weak strspn
#pragma weak strstr
#pragma weak time
#pragma weak tolower
#pragma weak toupper
#pragma weak usleep
#pragma weak vsnprintf
#pragma weak vsprintf
extern "C" {
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return nullptr; } }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d + i; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
size_t strspn(const char* s, const char* set) { size_t i = 0; for (; s[i] && strchr(set, s[i]); i++) {} return i; }
size_t strcspn(const char* s, const char* set) { size_t i = 0; for (; s[i] && !strchr(set, s[i]); i++) {} return i; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : nullptr; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; while (n--) if (q[n] == (unsigned char)c) return (void*)(q + n); return nullptr; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* d = (char*)malloc(n); __builtin_memcpy(d, s, n); return d; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 0x20 && c < 0x7f; }
int isgraph(int c) { return c > 0x20 && c < 0x7f; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 0x20) || c == 0x7f; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int foldCase(char c) { return tolower((unsigned char)c); }
int strcasecmp(const char* a, const char* b) { size_t i = 0; for (; a[i] && foldCase(a[i]) == foldCase(b[i]); i++) {} return foldCase(a[i]) - foldCase(b[i]); }
int strncasecmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) if (foldCase(a[i]) != foldCase(b[i]) || !a[i]) return foldCase(a[i]) - foldCase(b[i]); return 0; }
// the classification tables behind std::isdigit & co. when they are expanded inline (index -128..255)
static unsigned short ctypeB[384]; static int ctypeLow[384], ctypeUp[384]; static const unsigned short* ctypeBp; static const int *ctypeLowP, *ctypeUpP;
const unsigned short** __ctype_b_loc() {
  if (!ctypeBp) {
    for (int c = 0; c < 256; c++) {
      unsigned m = 0; if (isupper(c)) m |= 1u << 8; if (islower(c)) m |= 1u << 9; if (isalpha(c)) m |= 1u << 10; if (isdigit(c)) m |= 1u << 11; if (isxdigit(c)) m |= 1u << 12; if (isspace(c)) m |= 1u << 13;
      if (isprint(c)) m |= 1u << 14; if (isgraph(c)) m |= 1u << 15; if (isblank(c)) m |= 1u << 0; if (iscntrl(c)) m |= 1u << 1; if (ispunct(c)) m |= 1u << 2; if (isalnum(c)) m |= 1u << 3;
      ctypeB[128 + c] = (unsigned short)m;
    }
    ctypeBp = ctypeB + 128;
  }
  return &ctypeBp;
}
const int** __ctype_tolower_loc() { if (!ctypeLowP) { for (int c = -128; c < 256; c++) ctypeLow[128 + c] = tolower(c); ctypeLowP = ctypeLow + 128; } return &ctypeLowP; }
const int** __ctype_toupper_loc() { if (!ctypeUpP) { for (int c = -128; c < 256; c++) ctypeUp[128 + c] = toupper(c); ctypeUpP = ctypeUp + 128; } return &ctypeUpP; }
// the names these have without C23
long vf_strtol(const char* s, char** e, int b) __asm__("strtol"); long vf_strtol(const char* s, char** e, int b) { return (long)conv(s, e, b, true); }
long long vf_strtoll(const char* s, char** e, int b) __asm__("strtoll"); long long vf_strtoll(const char* s, char** e, int b) { return (long long)conv(s, e, b, true); }
unsigned long vf_strtoul(const char* s, char** e, int b) __asm__("strtoul"); unsigned long vf_strtoul(const char* s, char** e, int b) { return (unsigned long)conv(s, e, b, false); }
unsigned long long vf_strtoull(const char* s, char** e, int b) __asm__("strtoull"); unsigned long long vf_strtoull(const char* s, char** e, int b) { return conv(s, e, b, false); }
int vf_atoi(const char* s) __asm__("atoi"); int vf_atoi(const char* s) { return (int)conv(s, nullptr, 10, true); }
long vf_atol(const char* s) __asm__("atol"); long vf_atol(const char* s) { return (long)conv(s, nullptr, 10, true); }
long long vf_atoll(const char* s) __asm__("atoll"); long long vf_atoll(const char* s) { return (long long)conv(s, nullptr, 10, true); }
double vf_atof(const char* s) __asm__("atof"); double vf_atof(const char* s) { return strtod(s, nullptr); }
int vf_abs(int v) __asm__("abs"); int vf_abs(int v) { return v < 0 ? -v : v; }
long vf_labs(long v) __asm__("labs"); long vf_labs(long v) { return v < 0 ? -v : v; }
double fabs(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); u &= ~(1ull << 63); __builtin_memcpy(&d, &u, 8); return d; }
// printf family: %c %s %d %i %u %x %X %p with flags 0/-, width, precision and length modifiers; %f through the concrete formatter
static int vfFormat(char* b, size_t n, const char* f, va_list ap) {
  size_t o = 0;
#define PUT(ch) do { char c_ = (ch); if (o + 1 < n) b[o] = c_; o++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { PUT(*f); continue; }
    f++; bool zero = false, left = false, plus = false, alt = false; for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else break; }
    int width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = true; width = -width; } } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    int lng = 0, sh = 0; for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') sh++; else break; }
    char tmp[72]; const char* body = tmp; size_t len = 0; const char* sign = "";
    switch (*f) {
      case '%': PUT('%'); continue;
      case 'c': tmp[0] = (char)va_arg(ap, int); len = 1; zero = false; break;
      case 's': body = va_arg(ap, const char*); if (!body) body = "(null)"; len = prec >= 0 ? strnlen(body, (size_t)prec) : strlen(body); zero = false; break;
      case 'f': { if (prec >= 0) vf_fail("printf: format not modelled"); double d = va_arg(ap, double); uint64_t u; __builtin_memcpy(&u, &d, 8); static char big[512]; len = (size_t)vf_fmt_double(big, sizeof big, u); body = big; break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        bool sg = *f == 'd' || *f == 'i'; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; uint64_t v;
        if (*f == 'p') { v = (uint64_t)va_arg(ap, void*); alt = true; } else if (lng) v = va_arg(ap, uint64_t); else if (sg) v = (uint64_t)(int64_t)va_arg(ap, int); else v = va_arg(ap, unsigned);
        if (sh == 1) v = sg ? (uint64_t)(int64_t)(short)v : (unsigned short)v; else if (sh >= 2) v = sg ? (uint64_t)(int64_t)(signed char)v : (unsigned char)v;
        if (sg && (int64_t)v < 0) { sign = "-"; v = 0 - v; } else if (sg && plus) sign = "+"; else if (alt && base == 16 && v) sign = *f == 'X' ? "0X" : "0x";
        size_t k = sizeof tmp; do { unsigned dgt = (unsigned)(v % base); v /= base; tmp[--k] = (char)(dgt < 10 ? '0' + dgt : (*f == 'X' ? 'A' : 'a') + dgt - 10); } while (v);
        if (prec >= 0) { zero = false; while ((int)(sizeof tmp - k) < prec && k) tmp[--k] = '0'; }
        body = tmp + k; len = sizeof tmp - k; break;
      }
      default: vf_fail("printf: format not modelled");
    }
    size_t total = len + strlen(sign);
    if (!left && !zero) for (; total < (size_t)width; total++) PUT(' ');
    for (; *sign; sign++) PUT(*sign);
    if (zero && !left) for (; total < (size_t)width; total++) PUT('0');
    for (size_t i = 0; i < len; i++) PUT(body[i]);
    for (; total < (size_t)width; total++) PUT(' ');
  }
  if (n) b[o < n ? o : n - 1] = 0;
  return (int)o;
#undef PUT
}
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  if (f[0] == '%' && f[1] == 'f' && !f[2]) { double d = va_arg(ap, double); uint64_t u; __builtin_memcpy(&u, &d, 8); return vf_fmt_double(b, n, u); }
  return vfFormat(b, n, f, ap);
}
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 0x7fffffff, f, ap); }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 0x7fffffff, f, ap); va_end(ap); return r; }
int __snprintf_chk(char* b, size_t n, int, size_t, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int __sprintf_chk(char* b, int, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
// console output has no effect on the properties
int printf(const char*, ...) { return 0; }
int puts(const char*) { return 0; }
// time
int clock_gettime(clockid_t, struct timespec* t) { uint64_t c = vf_clock(); t->tv_sec = (long)(c / 1000000000ull); t->tv_nsec = (long)(c % 1000000000ull); return 0; }
time_t time(time_t* t) { time_t v = (time_t)(vf_clock() / 1000000000ull); if (t) *t = v; return v; }
int clock_nanosleep(clockid_t, int flags, const struct timespec* req, struct timespec*) {
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; uint64_t d = (uint64_t)req->tv_sec * 1000000000ull + (uint64_t)req->tv_nsec;
  if (!(flags & 1)) d += vf_clock();
  struct timespec t; t.tv_sec = (long)(d / 1000000000ull); t.tv_nsec = (long)(d % 1000000000ull);
  pthread_mutex_lock(&m); while (vf_clock() < d && pthread_cond_timedwait(&c, &m, &t) != ETIMEDOUT) {} pthread_mutex_unlock(&m); return 0;
}
int nanosleep(const struct timespec* req, struct timespec* rem) { return clock_nanosleep(1, 0, req, rem); }
int usleep(unsigned us) { struct timespec t; t.tv_sec = us / 1000000u; t.tv_nsec = (long)(us % 1000000u) * 1000; return nanosleep(&t, nullptr); }
int pthread_once(pthread_once_t* o, void (*f)()) { if (*o == 0) { *o = 1; f(); *o = 2; } return 0; }
}
namespace std {
// hashing as libstdc++ does it (murmur, 64 bit), so that the order of unordered containers is the real one
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const char* const buf = (const char*)ptr; const size_t al = len & ~(size_t)7; const char* const end = buf + al; size_t hash = seed ^ (len * mul);
  for (const char* p = buf; p != end; p += 8) { size_t v; __builtin_memcpy(&v, p, 8); v *= mul; v ^= v >> 47; v *= mul; hash ^= v; hash *= mul; }
  if ((len & 7) != 0) { size_t v = 0; for (int i = (int)(len & 7) - 1; i >= 0; i--) v = (v << 8) + (unsigned char)end[i]; hash ^= v; hash *= mul; }
  hash ^= hash >> 47; hash *= mul; hash ^= hash >> 47; return hash;
}
namespace __detail {
static const unsigned long vfPrimes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  if (n < sizeof fast) { if (n == 0) return 1; _M_next_resize = (size_t)((double)fast[n] * (double)_M_max_load_factor); return fast[n]; }
  for (unsigned i = 6; i < sizeof vfPrimes / sizeof vfPrimes[0]; i++) if (vfPrimes[i] >= n) { _M_next_resize = (size_t)((double)vfPrimes[i] * (double)_M_max_load_factor); return vfPrimes[i]; }
  vf_fail("hash table larger than modelled"); return 0;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nBkt, size_t nElt, size_t nIns) const {
  if (nElt + nIns > _M_next_resize) {
    size_t m = nElt + nIns; if (_M_next_resize == 0 && m < 11) m = 11;
    double min = (double)m / (double)_M_max_load_factor;
    if (min >= (double)nBkt) { size_t a = (size_t)min + 1, b = nBkt * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
    _M_next_resize = (size_t)((double)nBkt * (double)_M_max_load_factor); return {false, 0};
  }
  return {false, 0};
}
}
}
