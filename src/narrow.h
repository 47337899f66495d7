/* Forced into every library source of a "narrow" build: selects the representation of time that 32-bit targets use and
   renames the functions which take or hand out a time, so that src/narrow.c can offer them with 64-bit times. */
#include <stdint.h>
#undef INTPTR_MAX
#define INTPTR_MAX INT32_MAX
#define BKClockInit n_BKClockInit
#define BKClockAlloc n_BKClockAlloc
#define BKClockSetPeriod n_BKClockSetPeriod
#define BKContextGenerateToTime n_BKContextGenerateToTime
#define BKSetPtr n_BKSetPtr
#define BKGetPtr n_BKGetPtr
