/* 64-bit times outside, {frames, fraction} inside. */
#include <string.h>
#include "BlipKit.h"
typedef struct { BKInt t; BKFUInt20 f; } N;
extern BKInt n_BKClockInit (BKClock *, N, BKCallback *);
extern BKInt n_BKClockAlloc (BKClock **, N, BKCallback *);
extern void n_BKClockSetPeriod (BKClock *, N);
extern BKInt n_BKContextGenerateToTime (BKContext *, N, BKInt (*) (BKFrame [], BKUInt, void *), void *);
extern BKInt n_BKSetPtr (void *, BKEnum, void *, BKSize);
extern BKInt n_BKGetPtr (void const *, BKEnum, void *, BKSize);
static N in (BKTime t) { N n = {(BKInt) (t >> 20), (BKFUInt20) (t & BK_FINT20_FRAC)}; return n; }
static BKTime out (N n) { return (BKTime) n.t * (1 << 20) + n.f; }
BKInt BKClockInit (BKClock * c, BKTime p, BKCallback * cb) { return n_BKClockInit (c, in (p), cb); }
BKInt BKClockAlloc (BKClock ** c, BKTime p, BKCallback * cb) { return n_BKClockAlloc (c, in (p), cb); }
void BKClockSetPeriod (BKClock * c, BKTime p) { n_BKClockSetPeriod (c, in (p)); }
BKInt BKContextGenerateToTime (BKContext * c, BKTime t, BKInt (* w) (BKFrame [], BKUInt, void *), void * u) { return n_BKContextGenerateToTime (c, in (t), w, u); }
static int timed (BKEnum a, void * p, BKSize s) { return (a == BK_CLOCK_PERIOD || a == BK_TIME) && p && s == sizeof (BKTime); }
BKInt BKSetPtr (void * o, BKEnum a, void * p, BKSize s)
{
	if (timed (a, p, s)) { BKTime t; memcpy (& t, p, sizeof t); N n = in (t); return n_BKSetPtr (o, a, & n, sizeof n); }
	return n_BKSetPtr (o, a, p, s);
}
BKInt BKGetPtr (void const * o, BKEnum a, void * p, BKSize s)
{
	if (timed (a, p, s)) { N n = {0, 0}; BKInt r = n_BKGetPtr (o, a, & n, sizeof n); if (r == 0) { BKTime t = out (n); memcpy (p, & t, sizeof t); } return r; }
	return n_BKGetPtr (o, a, p, s);
}
