/* Compiled like a narrow library source: the narrow time arithmetic by pieces. */
#include "BlipKit.h"
#if BK_IS_64_BIT
#error "narrow build expected"
#endif
void nt_make (BKInt s, BKFUInt20 u, BKTime * r) { * r = BKTimeMake (s, u); }
void nt_op (int k, const BKTime * a, const BKTime * b, BKFUInt20 u, BKTime * r)
{
	switch (k) {
		case 0: * r = BKTimeAdd (* a, * b); break;
		case 1: * r = BKTimeSub (* a, * b); break;
		case 2: * r = BKTimeAddFUInt20 (* a, u); break;
		case 3: * r = BKTimeSubFUInt20 (* a, u); break;
		case 4: * r = BK_TIME_ZERO; break;
		case 5: * r = BK_TIME_MAX; break;
	}
}
int nt_cmp (int k, const BKTime * a, const BKTime * b, BKFUInt20 u)
{
	switch (k) {
		case 0: return BKTimeIsEqual (* a, * b);
		case 1: return BKTimeIsGreater (* a, * b);
		case 2: return BKTimeIsGreaterEqual (* a, * b);
		case 3: return BKTimeIsLess (* a, * b);
		case 4: return BKTimeIsLessEqual (* a, * b);
		case 5: return BKTimeIsGreaterFUInt20 (* a, u);
		case 6: return BKTimeIsLessFUInt20 (* a, u);
	}
	return -1;
}
BKInt nt_time (const BKTime * a) { return BKTimeGetTime (* a); }
BKFUInt20 nt_frac (const BKTime * a) { return BKTimeGetFrac (* a); }
BKFUInt20 nt_short (const BKTime * a) { return BKTimeGetFUInt20 (* a); }
void nt_seconds (BKContext * ctx, double s, BKTime * r) { * r = BKTimeFromSeconds (ctx, s); }
