// Selects one way of obtaining aligned system memory (MC_CONFIG 0 to 3) and puts the library into a namespace of its own.
// Must come first: the library's headers look at the macros of the C library.
#pragma once
#include <bits/stdc++.h>
#include <unistd.h>
#if MC_CONFIG == 0
#define CONFIG "aligned malloc"
#define ktl ktl_config_aligned
#elif MC_CONFIG == 1
#define CONFIG "posix_memalign"
#define ktl ktl_config_posix
#undef __GLIBC__
#if !defined(_POSIX_ADVISORY_INFO) || _POSIX_ADVISORY_INFO <= 0
#undef _POSIX_ADVISORY_INFO
#define _POSIX_ADVISORY_INFO 200809L
#endif
#elif MC_CONFIG == 2
#define CONFIG "malloc aligned by hand"
#define ktl ktl_config_hand
#undef __GLIBC__
#undef _POSIX_ADVISORY_INFO
#else
#include <mm_malloc.h>
#define CONFIG "_mm_malloc"
#define ktl ktl_config_mm
#undef __GLIBC__
#define SSE_INSTR_SET 2
#endif
