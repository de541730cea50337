#pragma once
#include "FreeRTOS.h"
extern "C++" {
struct HostTimer; typedef HostTimer* TimerHandle_t; typedef void (*TimerCallbackFunction_t)(TimerHandle_t);
TimerHandle_t xTimerCreate(const char* name, TickType_t period, UBaseType_t reload, void* id, TimerCallbackFunction_t cb);
BaseType_t xTimerStart(TimerHandle_t t, TickType_t wait); BaseType_t xTimerReset(TimerHandle_t t, TickType_t wait); BaseType_t xTimerStop(TimerHandle_t t, TickType_t wait); BaseType_t xTimerDelete(TimerHandle_t t, TickType_t wait); BaseType_t xTimerChangePeriod(TimerHandle_t t, TickType_t period, TickType_t wait);
TickType_t xTimerGetPeriod(TimerHandle_t t); TickType_t xTimerGetExpiryTime(TimerHandle_t t); void vTimerSetReloadMode(TimerHandle_t t, UBaseType_t reload); UBaseType_t uxTimerGetReloadMode(TimerHandle_t t); void* pvTimerGetTimerID(TimerHandle_t t); void vTimerSetTimerID(TimerHandle_t t, void* id); BaseType_t xTimerIsTimerActive(TimerHandle_t t);
}
