#pragma once
// Host replacement of the parts of FreeRTOS which are used by the library; behaviour is implemented by harness/freertos.h.
#define INC_FREERTOS_H
#include <stdint.h>
#include <stddef.h>
typedef long BaseType_t; typedef unsigned long UBaseType_t; typedef uint32_t TickType_t; typedef uint16_t configSTACK_DEPTH_TYPE;
#define pdTRUE ((BaseType_t)1)
#define pdFALSE ((BaseType_t)0)
#define pdPASS pdTRUE
#define pdFAIL pdFALSE
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define configMINIMAL_STACK_SIZE 128
#define configMAX_PRIORITIES 5
#define configUSE_TASK_NOTIFICATIONS 1
#define configUSE_TIMERS 1
#define configUSE_MUTEXES 1
#define configSUPPORT_DYNAMIC_ALLOCATION 1
#define INCLUDE_xTaskGetCurrentTaskHandle 1
#define INCLUDE_vTaskDelay 1
#define INCLUDE_vTaskSuspend 1
#define INCLUDE_vTaskDelete 1
#define INCLUDE_eTaskGetState 1
extern "C++" { extern TickType_t hostTickMs; BaseType_t xPortIsInsideInterrupt(void); }
#define portTICK_PERIOD_MS hostTickMs
#define configTICK_RATE_HZ (1000 / hostTickMs)
#define pdMS_TO_TICKS(ms) ((TickType_t)((uint64_t)(ms) * configTICK_RATE_HZ / 1000))
#define configASSERT(x)
