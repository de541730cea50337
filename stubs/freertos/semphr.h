#pragma once
#include "FreeRTOS.h"
extern "C++" {
struct HostSem; typedef HostSem* SemaphoreHandle_t;
SemaphoreHandle_t xSemaphoreCreateMutex(); SemaphoreHandle_t xSemaphoreCreateBinary(); void vSemaphoreDelete(SemaphoreHandle_t s);
BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t ticks); BaseType_t xSemaphoreGive(SemaphoreHandle_t s); BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t s, BaseType_t* woken); BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t s, BaseType_t* woken);
}
