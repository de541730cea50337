#pragma once
#include <stdint.h>
#define ATOMIC_COMPARE_AND_SWAP_SUCCESS 0x1U
#define ATOMIC_COMPARE_AND_SWAP_FAILURE 0x0U
extern "C++" uint32_t Atomic_CompareAndSwap_u32(uint32_t volatile* dst, uint32_t exchange, uint32_t comparand);
