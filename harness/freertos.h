#pragma once
// Model of a single-core FreeRTOS kernel: tasks are threads, a critical section (or interrupt) excludes everything else, mutexes and binary semaphores block,
// task notifications count, timer commands are queued and processed by the timer service (FreeRTOS::timerStep), which may also serve expired timers first.
#include "vf.h"
#include <condition_variable>
#include <mutex>
#include <vector>
#include <FreeRTOS.h>
#include <task.h>
#include <timers.h>
#include <semphr.h>
#include <atomic.h>
TickType_t hostTickMs = 1; static uint32_t hostT; static int hostDelays, hostTasks, hostTimers, hostSems; static bool hostNoTask;
struct HostTask { int notify = 0; bool suspended = false, gone = false; std::condition_variable cv; uint64_t thread = 0; TaskFunction_t f; void* arg; };
struct HostSem { int count; bool mutex; std::condition_variable cv; };
struct HostTimer { TickType_t period, since; bool reload, active, gone, ahead; void* id; TimerCallbackFunction_t cb; };
struct Cmd { int kind; HostTimer* t; TickType_t at, period; };
static std::mutex K; static int nest[8]; static bool isr[8]; static HostTask* tasks[8]; static std::vector<Cmd> cmds; static std::vector<HostTimer*> timers; static std::vector<HostTask*> graveyard;
static int me() { int s = vf_self(); vf_assert(s < 8, "few threads"); return s; }
struct Kernel { int s; Kernel() : s(me()) { if (nest[s]++ == 0) K.lock(); } ~Kernel() { if (--nest[s] == 0) K.unlock(); } template <class P> void wait(std::condition_variable& cv, P p) { vf_assert(nest[s] == 1, "does not block inside a critical section"); vf_assert(!isr[s], "does not block inside an interrupt"); nest[s] = 0; std::unique_lock<std::mutex> lk(K, std::adopt_lock); cv.wait(lk, p); lk.release(); nest[s] = 1; } };
BaseType_t xPortIsInsideInterrupt(void) { return isr[me()] ? pdTRUE : pdFALSE; }
void taskENTER_CRITICAL() { int s = me(); if (nest[s]++ == 0) K.lock(); } void taskEXIT_CRITICAL() { int s = me(); vf_assert(nest[s] > 0, "critical sections are balanced"); if (--nest[s] == 0) K.unlock(); }
UBaseType_t taskENTER_CRITICAL_FROM_ISR() { vf_assert(isr[me()], "inside an interrupt"); taskENTER_CRITICAL(); return 7; } void taskEXIT_CRITICAL_FROM_ISR(UBaseType_t s) { vf_assert(s == 7, "saved interrupt status"); taskEXIT_CRITICAL(); }
void vTaskSuspendAll() { taskENTER_CRITICAL(); } BaseType_t xTaskResumeAll() { taskEXIT_CRITICAL(); return pdFALSE; }
static void checkTask(HostTask* t) { vf_assert(t && !t->gone, "an existing task"); }
TaskHandle_t xTaskGetCurrentTaskHandle() { int s = me(); if (!tasks[s]) tasks[s] = new HostTask(); return tasks[s]; }
static void runTask(void* p) { HostTask* t = static_cast<HostTask*>(p); tasks[me()] = t; t->f(t->arg); vf_assert(t->gone, "a task deletes itself instead of returning"); }
BaseType_t xTaskCreate(TaskFunction_t f, const char*, configSTACK_DEPTH_TYPE, void* arg, UBaseType_t, TaskHandle_t* out) { if (hostNoTask) return pdFAIL; HostTask* t = new HostTask(); t->f = f; t->arg = arg; hostTasks++; graveyard.push_back(t); if (out) *out = t; t->thread = vf_thread_create(runTask, t); return pdPASS; }
void vTaskDelete(TaskHandle_t t) { if (!t) t = xTaskGetCurrentTaskHandle(); Kernel k; vf_assert(!t->gone, "deleted once"); t->gone = true; hostTasks--; }   // the model of a task's function returns right after deleting itself
void vTaskSuspend(TaskHandle_t t) { if (!t) t = xTaskGetCurrentTaskHandle(); checkTask(t); Kernel k; t->suspended = true; if (t == tasks[me()]) k.wait(t->cv, [t]() { return !t->suspended; }); }
void vTaskResume(TaskHandle_t t) { checkTask(t); Kernel k; t->suspended = false; t->cv.notify_all(); }
eTaskState eTaskGetState(TaskHandle_t t) { Kernel k; return t->gone ? eDeleted : t->suspended ? eSuspended : eReady; }
void vTaskDelay(TickType_t) { vf_assert(nest[me()] == 0, "does not block inside a critical section"); if (++hostDelays > 100) vf_fail("a task waits forever"); vf_quiesce(); } void taskYIELD() { vf_yield(); }
TickType_t xTaskGetTickCount() { return hostT / hostTickMs; } TickType_t xTaskGetTickCountFromISR() { return xTaskGetTickCount(); }
BaseType_t xTaskNotifyGive(TaskHandle_t t) { checkTask(t); vf_assert(!isr[me()], "not from an interrupt"); Kernel k; t->notify++; t->cv.notify_all(); return pdPASS; }
void vTaskNotifyGiveFromISR(TaskHandle_t t, BaseType_t*) { checkTask(t); vf_assert(isr[me()], "inside an interrupt"); Kernel k; t->notify++; t->cv.notify_all(); }
uint32_t ulTaskNotifyTake(BaseType_t clear, TickType_t ticks) { HostTask* t = xTaskGetCurrentTaskHandle(); Kernel k; if (ticks) k.wait(t->cv, [t]() { return t->notify > 0; }); uint32_t v = static_cast<uint32_t>(t->notify); if (v) t->notify = clear ? 0 : t->notify - 1; return v; }
SemaphoreHandle_t xSemaphoreCreateMutex() { hostSems++; HostSem* s = new HostSem(); s->count = 1; s->mutex = true; return s; } SemaphoreHandle_t xSemaphoreCreateBinary() { hostSems++; HostSem* s = new HostSem(); s->count = 0; s->mutex = false; return s; }
void vSemaphoreDelete(SemaphoreHandle_t s) { hostSems--; delete s; }
BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t ticks) { Kernel k; if (s->count == 0) { if (ticks == portMAX_DELAY) k.wait(s->cv, [s]() { return s->count > 0; }); else if (ticks && vf_range("take_times_out", 0, 1) == 0) k.wait(s->cv, [s]() { return s->count > 0; }); else return pdFALSE; } s->count = 0; return pdTRUE; }
BaseType_t xSemaphoreGive(SemaphoreHandle_t s) { Kernel k; if (s->count) return pdFALSE; s->count = 1; s->cv.notify_all(); return pdTRUE; }
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t s, BaseType_t*) { Kernel k; if (!s->count) return pdFALSE; s->count = 0; return pdTRUE; } BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t s, BaseType_t*) { return xSemaphoreGive(s); }
uint32_t Atomic_CompareAndSwap_u32(uint32_t volatile* d, uint32_t x, uint32_t c) { Kernel k; if (*d == c) { *d = x; return 1; } return 0; }
static void checkTimer(HostTimer* t) { vf_assert(t && !t->gone, "the timer was not deleted"); }
TimerHandle_t xTimerCreate(const char*, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t cb) { vf_assert(p > 0, "the period of a timer is at least one tick"); HostTimer* t = new HostTimer(); t->period = p; t->reload = r; t->id = id; t->cb = cb; Kernel k; timers.push_back(t); hostTimers++; return t; }
static BaseType_t cmd(int kind, HostTimer* t, TickType_t p = 0) { checkTimer(t); Kernel k; cmds.push_back(Cmd{kind, t, xTaskGetTickCount(), p}); if (kind == 2) t->gone = true; return pdPASS; }
BaseType_t xTimerStart(TimerHandle_t t, TickType_t) { return cmd(0, t); } BaseType_t xTimerReset(TimerHandle_t t, TickType_t) { return cmd(0, t); } BaseType_t xTimerStop(TimerHandle_t t, TickType_t) { return cmd(1, t); } BaseType_t xTimerDelete(TimerHandle_t t, TickType_t) { return cmd(2, t); }
BaseType_t xTimerChangePeriod(TimerHandle_t t, TickType_t p, TickType_t) { vf_assert(p > 0, "the period of a timer is at least one tick"); return cmd(3, t, p); }
TickType_t xTimerGetPeriod(TimerHandle_t t) { checkTimer(t); return t->period; } TickType_t xTimerGetExpiryTime(TimerHandle_t t) { checkTimer(t); return t->since + t->period; } void vTimerSetReloadMode(TimerHandle_t t, UBaseType_t r) { checkTimer(t); Kernel k; t->reload = r; } UBaseType_t uxTimerGetReloadMode(TimerHandle_t t) { checkTimer(t); return t->reload; }
void* pvTimerGetTimerID(TimerHandle_t t) { vf_assert(t != nullptr, "a timer"); return t->id; } void vTimerSetTimerID(TimerHandle_t t, void* id) { t->id = id; } BaseType_t xTimerIsTimerActive(TimerHandle_t t) { checkTimer(t); return t->active; }
struct FreeRTOS {
  static void init() { hostTickMs = 1; hostDelays = hostTasks = hostTimers = hostSems = 0; hostNoTask = false; cmds.clear(); timers.clear(); graveyard.clear(); for (int i = 0; i < 8; i++) { nest[i] = 0; isr[i] = false; tasks[i] = nullptr; } }
  static void end() { for (auto t : graveyard) { if (t->thread) vf_thread_join(t->thread); delete t; } graveyard.clear(); for (auto& t : tasks) t = nullptr; }
  // the timer service task: the next command, or any expired timer (a timer expires at most once before the next command is processed)
  static bool timerStep() {
    std::vector<HostTimer*> r; { Kernel k; for (HostTimer* t : timers) if (t->active && xTaskGetTickCount() - t->since >= t->period && !(t->ahead && !cmds.empty())) r.push_back(t); }
    size_t n = r.size() + !cmds.empty(); if (!n) return false; size_t c = n > 1 ? vf_pick("service", 0, static_cast<int>(n) - 1) : 0;
    if (c < r.size()) { HostTimer* t = r[c]; t->ahead = !cmds.empty(); if (t->reload) t->since += t->period; else t->active = false; t->cb(t); return true; }
    Kernel k; Cmd x = cmds.front(); cmds.erase(cmds.begin()); HostTimer* t = x.t; t->ahead = false;
    switch (x.kind) {
      case 0: t->active = true; t->since = x.at; break; case 1: t->active = false; break; case 3: t->period = x.period; t->active = true; t->since = xTaskGetTickCount(); break;
      default: for (size_t i = 0; i < timers.size(); i++) if (timers[i] == t) { timers.erase(timers.begin() + i); break; } hostTimers--; delete t; break;
    }
    return true;
  }
};
