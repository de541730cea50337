#pragma once
// Host replacement of the parts of Qt which are used by the library; behaviour is implemented by harness/c34qt.cpp.
#include <functional>
#include <memory>
#include <vector>
#define slots
#define signals public
#define emit_
#define SIGNAL(x) "2" #x
#define SLOT(x) "1" #x
#define Q_OBJECT public: void vfTimeoutSlot() override { onTimerEvent(); } private:
class QThread { public: static QThread* currentThread(); };
class QVariant { int v; bool ok; public: QVariant() : v(0), ok(false) {} QVariant(int x) : v(x), ok(true) {} int toInt() const { return v; } bool isValid() const { return ok; } };
class QEvent { public: enum Type { None = 0, Timer = 1, DeferredDelete = 52, User = 1000, MaxUser = 65535 }; explicit QEvent(Type t) : t(t) {} virtual ~QEvent() {} Type type() const { return t; } static int registerEventType(int hint = -1); private: Type t; };
namespace Qt { enum ConnectionType { AutoConnection, DirectConnection, QueuedConnection, BlockingQueuedConnection }; enum TimerType { PreciseTimer, CoarseTimer }; }
class QTimer; class QMetaObject; struct QGenericArgument { int v; };
#define Q_ARG(T, x) QGenericArgument{static_cast<int>(x)}
class QObject {
  public: explicit QObject(QObject* parent = nullptr); virtual ~QObject(); QObject(const QObject&) = delete;
  QThread* thread() const { return th; } void moveToThread(QThread* t); void deleteLater(); void setProperty(const char*, const QVariant& v) { prop = v; } QVariant property(const char*) const { return prop; }
  static bool connect(QTimer* t, const char* sig, QObject* o, const char* slot, Qt::ConnectionType = Qt::AutoConnection);
  template <class S, class F> static bool connect(QTimer* t, S sig, F f) { return connectF(t, nullptr, f); }
  template <class S, class F> static auto connect(QTimer* t, S sig, QObject* ctx, F f) -> decltype(f(), true) { return connectF(t, ctx, f); }
  template <class S, class O, class C> static auto connect(QTimer* t, S sig, O* ctx, void (C::*f)()) -> decltype((ctx->*f)(), true) { return connectF(t, ctx, [ctx, f]() { (ctx->*f)(); }); }
  static bool connectF(QTimer* t, QObject* ctx, std::function<void()> f);
  virtual void customEvent(QEvent*) {} virtual bool event(QEvent*) { return false; } virtual void vfTimeoutSlot() {} virtual QTimer* vfTimer() { return nullptr; }
  QObject* parent() const { return par; } void setParent(QObject* p);
  QThread* th; QObject* par; std::vector<QObject*> kids; QVariant prop;
  protected: QObject* sender() const;
};
class QTimer : public QObject {
  public: explicit QTimer(QObject* parent = nullptr); ~QTimer() override; void setSingleShot(bool s) { single = s; } bool isSingleShot() const { return single; } void setInterval(int ms) { interval = static_cast<unsigned>(ms); } void setTimerType(Qt::TimerType) {}
  void start(int ms); void start(); void stop(); bool isActive() const { return active; } void timeout() {} QTimer* vfTimer() override { return this; }
  template <class F> static void singleShot(int ms, QObject* ctx, F f) { QTimer* t = new QTimer(); t->setSingleShot(true); connectF(t, ctx, f); connectF(t, t, [t]() { t->deleteLater(); }); t->start(ms); }
  bool single = false, active = false; unsigned interval = 0, since = 0; struct Conn { QObject* ctx; std::function<void()> f; }; std::vector<Conn> conns;
};
template <class T> T qobject_cast(QObject* o) { return o ? static_cast<T>(o->vfTimer()) : nullptr; }
struct QMetaObject { static bool invokeMethod(QObject* o, const char* name, Qt::ConnectionType t, QGenericArgument a = QGenericArgument{0}); template <class F> static auto invokeMethod(QObject* o, F f, Qt::ConnectionType t = Qt::AutoConnection) -> decltype(f(), true) { return invokeF(o, f); } static bool invokeF(QObject* o, std::function<void()> f); };
class QAbstractEventDispatcher : public QObject {};
class QCoreApplication : public QObject { public: static QCoreApplication* instance(); static QAbstractEventDispatcher* eventDispatcher(); static void postEvent(QObject* o, QEvent* e, int prio = 0); };
#define qApp (QCoreApplication::instance())
template <class T> class QPointer { T* p; public: QPointer(T* x = nullptr) : p(x) {} T* data() const; };
