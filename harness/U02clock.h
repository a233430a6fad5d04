// U02clock.h - replaces the processor's tick counter and the system clock by scripted ones in all sources of this check
#pragma once
#include <x86intrin.h>
#include <time.h>
extern "C" unsigned long long mc_fake_tsc( void );
extern "C" int mc_fake_clock_gettime( int, struct timespec * );
#undef __rdtsc
#define __rdtsc() mc_fake_tsc()
#define clock_gettime( id, ts ) mc_fake_clock_gettime( id, ts )
