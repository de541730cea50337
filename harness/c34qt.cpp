#include "host.h"
#include <hsmcpp/HsmEventDispatcherQt.hpp>
#include <QCoreApplication>
#include <QThread>
#include <string.h>
// Model of Qt's event loop in the main thread: posted events are delivered in order (events of deleted objects are dropped), timers fire at any time
// after their interval - also before a pending deferred deletion -, in any order relative to posted events.
struct Posted { QObject* to; QEvent* ev; std::function<void()> call; bool del; };
static std::vector<Posted> posted; static std::vector<QTimer*> timers; static QThread mainThread, others; static uint32_t hostT; static QObject* senderObj; static int live; static bool failType; static int nextType;
QThread* QThread::currentThread() { return vf_self() == 0 ? &mainThread : &others; }
int QEvent::registerEventType(int) { return failType ? -1 : nextType++; }
QObject::QObject(QObject* p) : th(QThread::currentThread()), par(nullptr) { live++; if (p) { vf_assert(p->th == QThread::currentThread(), "children are created in the thread of their parent"); setParent(p); } }
void QObject::setParent(QObject* p) { if (par) for (size_t i = 0; i < par->kids.size(); i++) if (par->kids[i] == this) { par->kids.erase(par->kids.begin() + i); break; } par = p; if (p) p->kids.push_back(this); }
QObject::~QObject() { setParent(nullptr); while (!kids.empty()) delete kids.back(); for (size_t i = 0; i < posted.size();) if (posted[i].to == this) { delete posted[i].ev; posted.erase(posted.begin() + i); } else i++; for (QTimer* t : timers) for (size_t i = 0; i < t->conns.size();) if (t->conns[i].ctx == this) t->conns.erase(t->conns.begin() + i); else i++; if (senderObj == this) senderObj = nullptr; live--; }
void QObject::moveToThread(QThread* t) { vf_assert(th == QThread::currentThread() || th == t, "moved by its own thread"); th = t; }
void QObject::deleteLater() { for (auto& p : posted) if (p.to == this && p.del) return; posted.push_back(Posted{this, nullptr, nullptr, true}); }
QObject* QObject::sender() const { return senderObj; }
bool QObject::connectF(QTimer* t, QObject* c, std::function<void()> f) { t->conns.push_back(QTimer::Conn{c, f}); return true; }
bool QObject::connect(QTimer* t, const char* sig, QObject* o, const char* slot, Qt::ConnectionType) { vf_assert(!strcmp(sig, "2timeout()") && !strcmp(slot, "1onTimerEvent()"), "known signal and slot"); return connectF(t, o, [o]() { o->vfTimeoutSlot(); }); }
QTimer::QTimer(QObject* p) : QObject(p) { timers.push_back(this); }
QTimer::~QTimer() { for (size_t i = 0; i < timers.size(); i++) if (timers[i] == this) { timers.erase(timers.begin() + i); break; } }
void QTimer::start(int ms) { vf_assert(th == QThread::currentThread(), "timers are started by their own thread"); interval = static_cast<unsigned>(ms); active = true; since = hostT; }
void QTimer::start() { start(static_cast<int>(interval)); }
void QTimer::stop() { vf_assert(th == QThread::currentThread(), "timers are stopped by their own thread"); active = false; }
bool QMetaObject::invokeMethod(QObject* o, const char* n, Qt::ConnectionType, QGenericArgument a) { QTimer* t = o->vfTimer(); vf_assert(t != nullptr, "known method"); if (!strcmp(n, "start")) { int ms = a.v; posted.push_back(Posted{o, nullptr, [t, ms]() { t->start(ms); }, false}); } else { vf_assert(!strcmp(n, "stop"), "known method"); posted.push_back(Posted{o, nullptr, [t]() { t->stop(); }, false}); } return true; }
bool QMetaObject::invokeF(QObject* o, std::function<void()> f) { posted.push_back(Posted{o, nullptr, f, false}); return true; }
static QCoreApplication* app; static QAbstractEventDispatcher* loop;
QCoreApplication* QCoreApplication::instance() { return app; } QAbstractEventDispatcher* QCoreApplication::eventDispatcher() { return loop; }
void QCoreApplication::postEvent(QObject* o, QEvent* e, int) { posted.push_back(Posted{o, e, nullptr, false}); }
struct QHost {
  static uint32_t& T; static const bool catchUp = false;
  static bool one() {
    std::vector<QTimer*> r; for (QTimer* t : timers) if (t->active && t->th == &mainThread && hostT - t->since >= t->interval) r.push_back(t);
    size_t n = r.size() + !posted.empty(); if (!n) return false; size_t k = n > 1 ? vf_pick("source", 0, static_cast<int>(n) - 1) : 0;
    if (k < r.size()) { QTimer* t = r[k]; t->since = hostT; if (t->single) t->active = false; QObject* prev = senderObj; senderObj = t; auto conns = t->conns; for (auto& c : conns) c.f(); senderObj = prev; return true; }
    Posted p = posted.front(); posted.erase(posted.begin()); if (p.del) { delete p.to; return true; }
    if (p.ev) { if (p.ev->type() >= QEvent::User) p.to->customEvent(p.ev); delete p.ev; } else p.call();
    return true;
  }
};
uint32_t& QHost::T = hostT;
extern "C" void harness() {
  posted.clear(); timers.clear(); hostT = vf_u32("clock"); senderObj = nullptr; live = 0; failType = false; nextType = 1777; app = new QCoreApplication(); loop = new QAbstractEventDispatcher(); int base = live;
  std::shared_ptr<HsmEventDispatcherQt> d = HsmEventDispatcherQt::create(2);
  if (vf_param("faults", 0)) { failType = vf_pick("no_type", 0, 1); if (failType) { vf_assert(!d->start(), "start fails"); failType = false; vf_reach("failed"); } }
  if (vf_param("threads", 0)) Threads<QHost>::run(std::move(d)); else Contract<QHost>::run(std::move(d));
  vf_assert(live == base, "all objects are released"); vf_assert(timers.empty() && posted.empty(), "timers are released"); delete app; delete loop;
}
