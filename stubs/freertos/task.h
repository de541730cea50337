#pragma once
#include "FreeRTOS.h"
extern "C++" {
struct HostTask; typedef HostTask* TaskHandle_t; typedef void (*TaskFunction_t)(void*); enum eTaskState { eRunning, eReady, eBlocked, eSuspended, eDeleted, eInvalid };
#define tskIDLE_PRIORITY ((UBaseType_t)0)
TaskHandle_t xTaskGetCurrentTaskHandle(); BaseType_t xTaskCreate(TaskFunction_t f, const char* name, configSTACK_DEPTH_TYPE depth, void* arg, UBaseType_t prio, TaskHandle_t* out);
void vTaskDelete(TaskHandle_t t); void vTaskSuspend(TaskHandle_t t); void vTaskResume(TaskHandle_t t); eTaskState eTaskGetState(TaskHandle_t t); void vTaskDelay(TickType_t ticks); TickType_t xTaskGetTickCount(); TickType_t xTaskGetTickCountFromISR(); void taskYIELD();
BaseType_t xTaskNotifyGive(TaskHandle_t t); void vTaskNotifyGiveFromISR(TaskHandle_t t, BaseType_t* woken); uint32_t ulTaskNotifyTake(BaseType_t clear, TickType_t ticks);
void taskENTER_CRITICAL(); void taskEXIT_CRITICAL(); UBaseType_t taskENTER_CRITICAL_FROM_ISR(); void taskEXIT_CRITICAL_FROM_ISR(UBaseType_t s); void vTaskSuspendAll(); BaseType_t xTaskResumeAll();
}
