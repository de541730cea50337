#include "host.h"
#include <hsmcpp/HsmEventDispatcherGLibmm.hpp>
// Model of glibmm: Glib::Dispatcher delivers one call per emit() in the receiver's loop, timeout and idle sources are called until they return false or are disconnected.
struct Glib::Dispatcher::Core { int pending = 0; bool alive = true; Glib::MainContext* ctx; std::vector<std::pair<std::shared_ptr<sigc::hook>, std::function<void()>>> slots; };
struct Src { std::shared_ptr<sigc::hook> hook; std::function<bool()> f; bool timeout; uint32_t interval, since; Glib::MainContext* ctx; };
static Glib::MainContext ctx0, ctxOwn; static std::vector<std::shared_ptr<Src>> srcs; static std::vector<std::shared_ptr<Glib::Dispatcher::Core>> cores; static uint32_t hostT;
using namespace Glib;
RefPtr<MainContext> MainContext::get_default() { return RefPtr<MainContext>(&ctx0); } RefPtr<MainContext> MainContext::create() { return RefPtr<MainContext>(&ctxOwn); }
static sigc::connection add(const std::function<bool()>& f, bool timeout, uint32_t iv, MainContext* c) { auto s = std::make_shared<Src>(); s->hook = std::make_shared<sigc::hook>(); s->f = f; s->timeout = timeout; s->interval = iv; s->since = hostT; s->ctx = c; srcs.push_back(s); return sigc::connection(s->hook); }
sigc::connection SignalIdle::connect(const std::function<bool()>& f, int) { return add(f, false, 0, c); }
sigc::connection SignalTimeout::connect(const std::function<bool()>& f, unsigned iv, int) { return add(f, true, iv, c); }
Dispatcher::Dispatcher(const RefPtr<MainContext>& c) : core(std::make_shared<Core>()) { core->ctx = c.get(); cores.push_back(core); }
Dispatcher::Dispatcher() : Dispatcher(MainContext::get_default()) {}
Dispatcher::~Dispatcher() { core->alive = false; for (auto& s : core->slots) s.first->live = false; for (size_t i = 0; i < cores.size(); i++) if (cores[i] == core) { cores.erase(cores.begin() + i); break; } }
void Dispatcher::emit() { core->pending++; }
sigc::connection Dispatcher::connect(const std::function<void()>& f) { core->slots.push_back({std::make_shared<sigc::hook>(), f}); return sigc::connection(core->slots.back().first); }
struct MHost {
  static uint32_t& T; static const bool catchUp = false; static MainContext* ctx;
  static void clean() { for (size_t i = 0; i < srcs.size();) if (!srcs[i]->hook->live) srcs.erase(srcs.begin() + i); else i++; }
  static bool one() {
    clean(); std::vector<std::shared_ptr<Src>> r; std::vector<std::shared_ptr<Glib::Dispatcher::Core>> rc;
    for (auto& s : srcs) if (s->ctx == ctx && (!s->timeout || hostT - s->since >= s->interval)) r.push_back(s);
    for (auto& c : cores) if (c->ctx == ctx && c->pending) rc.push_back(c);
    size_t n = r.size() + rc.size(); if (!n) return false; size_t k = n > 1 ? vf_pick("source", 0, static_cast<int>(n) - 1) : 0;
    if (k < r.size()) { auto s = r[k]; s->since = hostT; bool more = s->f(); if (!more) s->hook->live = false; }
    else { auto c = rc[k - r.size()]; c->pending--; auto slots = c->slots; for (auto& s : slots) if (s.first->live) s.second(); }
    clean(); return true;
  }
};
uint32_t& MHost::T = hostT; MainContext* MHost::ctx = &ctx0;
extern "C" void harness() {
  srcs.clear(); cores.clear(); hostT = vf_u32("clock"); bool own = vf_param("own", 1) && vf_pick("own_context", 0, 1); MHost::ctx = own ? &ctxOwn : &ctx0;
  std::shared_ptr<HsmEventDispatcherGLibmm> d = own ? HsmEventDispatcherGLibmm::create(MainContext::create(), 2) : HsmEventDispatcherGLibmm::create(2);
  if (vf_param("threads", 0)) Threads<MHost>::run(std::move(d)); else Contract<MHost>::run(std::move(d));
  MHost::clean(); vf_assert(srcs.empty() && cores.empty(), "sources are released"); if (own) vf_reach("own");
}
