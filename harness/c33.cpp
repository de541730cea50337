#include "host.h"
#include <hsmcpp/HsmEventDispatcherGLib.hpp>
// Model of GLib's main loop and of pipes, following their documented contracts: reference counted sources and channels, sources of a context are
// dispatched in an order chosen by the host once they are ready, a source whose callback returns FALSE is destroyed.
struct GMainContext { int dummy; };
struct GIOChannel { int refs, fd; };
enum Kind { IDLE, TIMEOUT, WATCH };
struct GSource { int refs; Kind kind; bool attached, destroyed; GMainContext* ctx; GIOChannel* ch; uint32_t interval, since; GSourceFunc f; gpointer data; GDestroyNotify notify; int calls; GDestroyNotify lateNotify; gpointer lateData; };
static GMainContext ctx0, ctxOwn; static GSource* src[16]; static int nsrc, chans, sources, failAt, calls; static GSource* current;
struct Fd { bool open; int peer, bytes; bool writer; }; static Fd fds[8]; static int openFds, interrupted;
static bool fails() { return ++calls == failAt; }
int host_pipe(int* p) {
  if (fails()) { errno = EMFILE; return -1; }
  int n[2], k = 0; for (int i = 3; i < 8 && k < 2; i++) if (!fds[i].open) n[k++] = i;
  vf_assert(k == 2, "file descriptors are released"); for (int i = 0; i < 2; i++) { fds[n[i]] = Fd{true, n[1 - i], 0, i == 1}; p[i] = n[i]; openFds++; } return 0;
}
int host_pipe2(int* p, int) { return host_pipe(p); }
int host_close(int fd) { if (fd < 0) { errno = EBADF; return -1; } vf_assert(fd < 8 && fds[fd].open, "only open file descriptors are closed"); fds[fd].open = false; openFds--; return 0; }
ssize_t host_read(int fd, void* p, size_t n) { vf_assert(fd >= 3 && fd < 8 && fds[fd].open && !fds[fd].writer, "reads from the open read end"); if (interrupted && vf_pick("read_interrupted", 0, 1)) { interrupted--; errno = EINTR; return -1; } vf_assert(fds[fd].bytes > 0, "does not block the loop"); size_t k = 0; while (k < n && fds[fd].bytes > 0) { static_cast<char*>(p)[k++] = 1; fds[fd].bytes--; } return static_cast<ssize_t>(k); }
ssize_t host_write(int fd, const void*, size_t n) { if (fd < 0) { errno = EBADF; return -1; } vf_assert(fd < 8 && fds[fd].open && fds[fd].writer, "writes to the open write end"); if (interrupted && vf_pick("write_interrupted", 0, 1)) { interrupted--; errno = EINTR; return -1; } fds[fds[fd].peer].bytes += static_cast<int>(n); return static_cast<ssize_t>(n); }
static GSource* mk(Kind k) { GSource* s = new GSource(); s->refs = 1; s->kind = k; sources++; return s; }
GSource* g_source_ref(GSource* s) { vf_assert(s->refs > 0, "source is referenced"); s->refs++; return s; }
static void clearCb(GSource* s) { GDestroyNotify n = s->notify; gpointer d = s->data; s->notify = nullptr; s->f = nullptr; s->data = nullptr; if (n && s->calls) { s->lateNotify = n; s->lateData = d; } else if (n) n(d); }   // the data of a callback is kept until it returns
GIOChannel* g_io_channel_ref(GIOChannel* c) { c->refs++; return c; }
void g_io_channel_unref(GIOChannel* c) { vf_assert(c && c->refs > 0, "channel is referenced"); if (--c->refs == 0) { chans--; delete c; } }
void g_source_unref(GSource* s) { vf_assert(s && s->refs > 0, "source is referenced"); if (--s->refs == 0) { clearCb(s); if (s->ch) g_io_channel_unref(s->ch); sources--; delete s; } }
void g_source_destroy(GSource* s) { vf_assert(s && s->refs > 0, "source is referenced"); if (s->destroyed) return; s->destroyed = true; clearCb(s); if (s->attached) { for (int i = 0; i < nsrc; i++) if (src[i] == s) { src[i] = src[--nsrc]; break; } s->attached = false; g_source_unref(s); } }
gboolean g_source_is_destroyed(GSource* s) { return s->destroyed; }
void g_source_set_callback(GSource* s, GSourceFunc f, gpointer data, GDestroyNotify n) { clearCb(s); s->f = f; s->data = data; s->notify = n; }
guint g_source_attach(GSource* s, GMainContext* c) { vf_assert(!s->attached && !s->destroyed && nsrc < 16, "attached once"); s->attached = true; s->refs++; s->ctx = c ? c : &ctx0; s->since = 0; src[nsrc++] = s; extern uint32_t hostT; s->since = hostT; return 1; }
void g_source_set_priority(GSource*, gint) {} GSource* g_main_current_source() { return current; } void g_main_context_wakeup(GMainContext*) {}
GSource* g_idle_source_new() { return mk(IDLE); } GSource* g_timeout_source_new(guint i) { GSource* s = mk(TIMEOUT); s->interval = i; return s; }
GIOChannel* g_io_channel_unix_new(int fd) { if (fails()) return nullptr; vf_assert(fd >= 3 && fd < 8 && fds[fd].open && !fds[fd].writer, "read end"); GIOChannel* c = new GIOChannel(); c->refs = 1; c->fd = fd; chans++; return c; }
GSource* g_io_create_watch(GIOChannel* c, GIOCondition k) { if (fails()) return nullptr; vf_assert(k & G_IO_IN, "waits for input"); GSource* s = mk(WATCH); s->ch = g_io_channel_ref(c); return s; }
guint g_idle_add(GSourceFunc f, gpointer d) { GSource* s = mk(IDLE); g_source_set_callback(s, f, d, nullptr); g_source_attach(s, nullptr); g_source_unref(s); return 1; }
guint g_timeout_add(guint i, GSourceFunc f, gpointer d) { GSource* s = g_timeout_source_new(i); g_source_set_callback(s, f, d, nullptr); g_source_attach(s, nullptr); g_source_unref(s); return 1; }
uint32_t hostT;
struct GHost {
  static uint32_t& T; static const bool catchUp = false; static GMainContext* ctx; static bool clean;
  static bool ready(GSource* s) { if (s->ctx != ctx) return false; if (s->kind == WATCH) { vf_assert(fds[s->ch->fd].open, "an attached channel is open"); return fds[s->ch->fd].bytes > 0; } return s->kind == IDLE || hostT - s->since >= s->interval; }
  __attribute__((no_sanitize("function"))) static bool one() {
    GSource* r[16]; int n = 0; for (int i = 0; i < nsrc; i++) if (ready(src[i])) r[n++] = src[i];
    if (!n) return false; GSource* s = r[n > 1 ? vf_pick("source", 0, n - 1) : 0];
      g_source_ref(s); s->since = hostT; current = s; s->calls++; gboolean more; GSourceFunc f = s->f; gpointer data = s->data; vf_assert(f != nullptr, "has a callback");
      if (s->kind == WATCH) more = reinterpret_cast<gboolean (*)(GIOChannel*, GIOCondition, gpointer)>(reinterpret_cast<void (*)()>(f))(s->ch, G_IO_IN, data); else more = f(data);
      current = nullptr; s->calls--; if (s->lateNotify) { GDestroyNotify n = s->lateNotify; s->lateNotify = nullptr; n(s->lateData); } if (!more && !s->destroyed) g_source_destroy(s); g_source_unref(s); return true;
  }
};
uint32_t& GHost::T = hostT; GMainContext* GHost::ctx = &ctx0;
extern "C" void harness() {
  nsrc = chans = sources = openFds = calls = failAt = interrupted = 0; current = nullptr; for (auto& f : fds) f = Fd(); hostT = vf_u32("clock"); bool own = vf_param("own", 1) && vf_pick("own_context", 0, 1); GHost::ctx = own ? &ctxOwn : &ctx0;
  std::shared_ptr<HsmEventDispatcherGLib> d = own ? HsmEventDispatcherGLib::create(&ctxOwn, 2) : HsmEventDispatcherGLib::create(2);
  if (vf_param("faults", 0)) {
    failAt = vf_pick("fail_at", 1, 3); vf_assert(!d->start(), "start fails"); vf_assert(openFds == 0 && chans == 0 && sources == 0, "a failed start releases everything"); vf_reach("failed");
    failAt = 0;
  }
  interrupted = static_cast<int>(vf_param("interrupted", 0));
  if (vf_param("threads", 0)) Threads<GHost>::run(std::move(d)); else Contract<GHost>::run(std::move(d));
  vf_assert(openFds == 0, "file descriptors are released exactly once"); vf_assert(chans == 0 && sources == 0, "channels and sources are released exactly once"); if (own) vf_reach("own");
}
