#pragma once
// Host replacement of the parts of glibmm/sigc++ which are used by the library; behaviour is implemented by harness/c34mm.cpp.
#include <functional>
#include <memory>
namespace sigc {
struct hook { bool live = true; };
class connection { std::shared_ptr<hook> h; public: connection() {} explicit connection(std::shared_ptr<hook> x) : h(x) {} bool connected() const { return h && h->live; } void disconnect() { if (h) h->live = false; } bool empty() const { return !connected(); } explicit operator bool() const { return connected(); } };
template <class O, class R, class C, class... A> auto mem_fun(O* o, R (C::*f)(A...)) { return [o, f](A... a) -> R { return (o->*f)(a...); }; }
template <class O, class R, class C, class... A> auto mem_fun(O& o, R (C::*f)(A...)) { return [&o, f](A... a) -> R { return (o.*f)(a...); }; }
template <class F, class... A> auto bind(F f, A... a) { return [f, a...]() { return f(a...); }; }
template <class T> using slot = std::function<T>;
}
namespace Glib {
template <class T> class RefPtr { T* p = nullptr; public: RefPtr() {} explicit RefPtr(T* x) : p(x) {} T* operator->() const { return p; } explicit operator bool() const { return p != nullptr; } T* get() const { return p; } void reset() { p = nullptr; } bool operator==(const RefPtr& o) const { return p == o.p; } };
class MainContext;
class SignalIdle { MainContext* c; public: explicit SignalIdle(MainContext* x) : c(x) {} sigc::connection connect(const std::function<bool()>& f, int prio = 200); void connect_once(const std::function<void()>& f, int prio = 200) { connect([f]() { f(); return false; }); } };
class SignalTimeout { MainContext* c; public: explicit SignalTimeout(MainContext* x) : c(x) {} sigc::connection connect(const std::function<bool()>& f, unsigned interval, int prio = 0); void connect_once(const std::function<void()>& f, unsigned interval, int prio = 0) { connect([f]() { f(); return false; }, interval); } };
class MainContext { public: static RefPtr<MainContext> get_default(); static RefPtr<MainContext> create(); SignalIdle signal_idle() { return SignalIdle(this); } SignalTimeout signal_timeout() { return SignalTimeout(this); } void wakeup() {} void invoke(const std::function<bool()>& f) { signal_idle().connect(f); } };
class Dispatcher {
  public: Dispatcher(); explicit Dispatcher(const RefPtr<MainContext>& c); ~Dispatcher(); Dispatcher(const Dispatcher&) = delete;
  void emit(); void operator()() { emit(); } sigc::connection connect(const std::function<void()>& f);
  struct Core; std::shared_ptr<Core> core;
};
}
