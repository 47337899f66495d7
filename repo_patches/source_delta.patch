From 2c21eab8a803176e7a8b4cb36c660d6e1bc5ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 01/63] fix: slides and intervals end exactly on their value

The rounding bias was computed with a shift of a negative step, which made
slow downward slides end off their target, and it was kept when the slide or
interval was switched off. Always use half of the fraction.
---
 src/BKInterpolation.c | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index bd8fb7c..f4e62cb 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -19,13 +19,12 @@ void BKSlideStateInit (BKSlideState * state, BKInt maxValue)
 	memset (state, 0, sizeof (* state));
 
 	state -> valueShift = BKGetMaxValueShift (maxValue);
+	state -> roundBias  = (1 << state -> valueShift) >> 1;
 }
 
 void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt steps)
 {
 	BKInt stepDelta, deltaValue;
-	BKInt roundBias = 0;
-	BKInt const stepShift = BK_STATE_STEP_FRAC_SHIFT;
 
 	steps = BKClamp (steps, 0, BK_STATE_MAX_STEPS);
 
@@ -34,17 +33,10 @@ void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt s
 		deltaValue = endValue - state -> value;
 		stepDelta  = deltaValue / steps;
 
-		// prevent division by 0
-		if ((deltaValue >> state -> valueShift)) {
-			roundBias = ((steps << stepShift) / (deltaValue >> state -> valueShift) / 2);
-			roundBias = (roundBias * (stepDelta >> stepShift));
-		}
-
 		state -> endValue  = endValue;
 		state -> stepDelta = stepDelta;
 		state -> steps     = steps;
 		state -> step      = steps;
-		state -> roundBias = roundBias;
 	}
 	else {
 		state -> value     = (endValue << state -> valueShift);
@@ -68,13 +60,13 @@ void BKIntervalStateInit (BKIntervalState * state, BKInt maxValue)
 	valueShift = BKClamp (valueShift - 1, 0, 30);
 
 	state -> valueShift = valueShift;
+	state -> roundBias  = (1 << valueShift) >> 1;
 }
 
 void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKInt steps)
 {
 	BKInt stepFrac, step;
 	BKInt stepDelta, value = 0;
-	BKInt roundBias = 0;
 	BKInt const stepShift = BK_STATE_STEP_FRAC_SHIFT;
 
 	steps = BKClamp (steps, 0, BK_STATE_MAX_STEPS);
@@ -97,12 +89,6 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 
 			stepDelta = delta / steps;
 
-			// prevent division by 0
-			if (delta >> state -> valueShift) {
-				roundBias = ((steps << stepShift) / (delta >> state -> valueShift) / 2);
-				roundBias = (roundBias * (stepDelta >> stepShift));
-			}
-
 			switch (state -> phase) {
 				//  / ̅  raise from zero
 				case 0: {
@@ -132,7 +118,6 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 			state -> steps     = steps;
 			state -> value     = value;
 			state -> stepDelta = stepDelta;
-			state -> roundBias = roundBias;
 			state -> step      = step;
 		}
 	}
-- 
2.43.0


From 23c0836e7bad57bda4bd8d6a4d0bcee2fabd4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 02/63] fix: make and compare times without 32 bit overflow

---
 src/BKTime.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 4076bdf..7e849bf 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -38,7 +38,7 @@
 
 BK_INLINE BKTime BKTimeMake (BKInt samples, BKFUInt20 frac)
 {
-	return (samples << BK_FINT20_SHIFT) + frac;
+	return ((BKTime) samples * (1 << BK_FINT20_SHIFT)) + frac;
 }
 
 BK_INLINE BKInt BKTimeGetTime (BKTime a)
@@ -88,7 +88,7 @@ BK_INLINE BKInt BKTimeIsGreater (BKTime a, BKTime b)
 
 BK_INLINE BKInt BKTimeIsGreaterFUInt20 (BKTime a, BKFUInt20 b)
 {
-	return a > (BKInt) b;
+	return a > (BKTime) b;
 }
 
 BK_INLINE BKInt BKTimeIsGreaterEqual (BKTime a, BKTime b)
-- 
2.43.0


From 3b6666097509759b1af8803d2bbd014f9e2891cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 03/63] fix: disposing a clock with dividers attached does not
 loop forever

---
 src/BKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 3729e5f..0b01c7e 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -79,7 +79,7 @@ static void BKClockDisposeObject (BKClock * clock)
 	BKClockDetach (clock);
 
 	for (BKDivider * divider = clock -> dividers.firstDivider; divider; divider = nextDivider) {
-		nextDivider = divider;
+		nextDivider = divider -> nextDivider;
 		BKDividerDetach (divider);
 	}
 }
-- 
2.43.0


From 0d1d49e2398f23ac2ffce95d88ff23b564643d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 04/63] fix: attaching a clock before one of another context
 leaves it detached

---
 src/BKClock.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 0b01c7e..39ad23f 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -87,12 +87,16 @@ static void BKClockDisposeObject (BKClock * clock)
 BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 {
 	if (clock -> ctx == NULL) {
-		clock -> ctx = ctx;
-		BKClockReset (clock);
-
 		if (beforeClock == BK_FIRST_ELEMENT_PTR)
 			beforeClock = ctx -> firstClock;
 
+		// previous clock must be in same context
+		if (beforeClock && beforeClock -> ctx != ctx)
+			return BK_INVALID_VALUE;
+
+		clock -> ctx = ctx;
+		BKClockReset (clock);
+
 		if (beforeClock == NULL) {
 			clock -> prevClock = ctx -> lastClock;
 			clock -> nextClock = NULL;
@@ -107,8 +111,7 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 				ctx -> lastClock  = clock;
 			}
 		}
-		// previous clock must be in same context
-		else if (beforeClock -> ctx == ctx) {
+		else {
 			clock -> prevClock = beforeClock -> prevClock;
 			clock -> nextClock = beforeClock;
 
@@ -121,9 +124,6 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 
 			beforeClock -> prevClock = clock;
 		}
-		else {
-			return BK_INVALID_VALUE;
-		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From 8cd69620e437d11fcd2e5c086680ac157d6c2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 05/63] fix: clocks attached or reset while running start at
 the current time

The time of a context without clocks was not advanced and a clock attached to
a running context started at time zero, which made the time to its next tick
negative. A clock detached or reset by its own callback lost its period.
---
 src/BKClock.c   | 13 +++++++------
 src/BKContext.c |  5 +++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 39ad23f..40a58bc 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -175,8 +175,8 @@ void BKClockReset (BKClock * clock)
 
 	clock -> object.flags &= ~BK_CLOCK_FLAG_RESET; // clear reset flag
 	clock -> counter  = 0;
-	clock -> time     = BK_TIME_ZERO;
-	clock -> nextTime = BK_TIME_ZERO;
+	clock -> time     = ctx ? ctx -> currentTime : BK_TIME_ZERO;
+	clock -> nextTime = clock -> time;
 }
 
 void BKClockAdvance (BKClock * clock, BKFUInt20 period)
@@ -214,13 +214,14 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 BKInt BKClockTick (BKClock * clock)
 {
 	BKInt result = 0;
+	BKTime time = clock -> time;
 	BKCallbackInfo info;
 
 	if (BKTimeIsEqual (clock -> time, clock -> nextTime)) {
 		memset (& info, 0, sizeof (BKCallbackInfo));
 		info.object   = clock;
 		info.event    = BK_EVENT_CLOCK;
-		info.nextTime = clock -> time;
+		info.nextTime = time;
 
 		if (clock -> callback.func)
 			result = clock -> callback.func (& info, clock -> callback.userInfo);
@@ -230,13 +231,13 @@ BKInt BKClockTick (BKClock * clock)
 		clock -> counter ++;
 
 		// set next time and new period from callback
-		if (BKTimeIsGreater (info.nextTime, clock -> time)) {
-			clock -> period   = BKTimeSub (info.nextTime, clock -> time);
+		if (BKTimeIsGreater (info.nextTime, time)) {
+			clock -> period   = BKTimeSub (info.nextTime, time);
 			clock -> nextTime = info.nextTime;
 		}
 		// set next period
 		else {
-			clock -> nextTime = BKTimeAdd (clock -> time, clock -> period);
+			clock -> nextTime = BKTimeAdd (time, clock -> period);
 		}
 	}
 
diff --git a/src/BKContext.c b/src/BKContext.c
index 81ea857..57c8070 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -403,6 +403,11 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 		// run units
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 			unit -> run (unit, endTime);
+
+		if (ctx -> deltaTime < endTime) {
+			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
+			ctx -> deltaTime   = endTime;
+		}
 	}
 
 	return endTime;
-- 
2.43.0


From 6cf9ebeb6e96bbf6014dd39156b4970559b00805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 06/63] fix: disposing a context detaches its effect and beat
 dividers

---
 src/BKContext.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 57c8070..9c7715b 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -117,6 +117,12 @@ static void BKContextDisposeObject (BKContext * ctx)
 		BKClockDetach (clock);
 	}
 
+	while (ctx -> beatDividers.firstDivider)
+		BKDividerDetach (ctx -> beatDividers.firstDivider);
+
+	while (ctx -> effectDividers.firstDivider)
+		BKDividerDetach (ctx -> effectDividers.firstDivider);
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferDispose (channel);
-- 
2.43.0


From e031ec3af12acadecfce3f2671935a0c5b53443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 07/63] fix: failing to allocate the channels of a context
 neither leaks nor crashes

---
 src/BKContext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 9c7715b..19ccf50 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -62,8 +62,10 @@ static BKInt BKContextInitGeneric (BKContext * ctx, BKUInt numChannels, BKUInt s
 
 	BKContextUpdateMasterClocks (ctx);
 
-	if (ctx -> channels == NULL)
+	if (ctx -> channels == NULL) {
+		ctx -> numChannels = 0;
 		return BK_ALLOCATION_ERROR;
+	}
 
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
@@ -95,6 +97,8 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 	}
 
 	if (BKContextInitGeneric (*outCtx, numChannels, sampleRate) < 0) {
+		BKDispose (*outCtx);
+		* outCtx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From d547cbd0aff51e48e5a900c40c70b67193df2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 08/63] fix: generating to a time ends, and delivers all frames
 up to that time

Without clocks the time never advanced; with clocks the time they have run
ahead was taken for the time of the delivered frames; frames beyond the first
1024 were left in the buffer at the end.
---
 src/BKContext.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 19ccf50..d2513fc 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -311,11 +311,15 @@ BKInt BKContextGenerate (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write) (BKFrame inFrames [], BKUInt size, void * info), void * info)
 {
 	BKInt numFrames = 0;
-	BKTime deltaTime;
+	BKInt result;
+	BKTime time, deltaTime;
 	BKFUInt20 period;
 
-	while (BKTimeIsLess (ctx -> currentTime, endTime)) {
-		deltaTime = BKTimeSub (endTime, ctx -> currentTime);
+	// clocks may have run ahead of the generated frames by `deltaTime`
+	time = BKTimeSubFUInt20 (ctx -> currentTime, ctx -> deltaTime);
+
+	while (BKTimeIsLess (time, endTime)) {
+		deltaTime = BKTimeSub (endTime, time);
 
 		if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 			period = BKTimeGetFUInt20 (deltaTime);
@@ -324,10 +328,15 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 			period = BK_INT_MAX / 3;
 		}
 
-		BKContextEnd (ctx, period);
+		result = BKContextEnd (ctx, period);
+
+		if (result < 0)
+			return result;
+
+		time = BKTimeSubFUInt20 (ctx -> currentTime, ctx -> deltaTime);
 
 		// write frames if buffer filled or end time is reached
-		if (BKBufferSize (& ctx -> channels [0]) >= BK_MAX_GENERATE_SAMPLES || BKTimeIsGreaterEqual (ctx -> currentTime, endTime)) {
+		while (BKContextSize (ctx) >= BK_MAX_GENERATE_SAMPLES || (BKContextSize (ctx) > 0 && BKTimeIsGreaterEqual (time, endTime))) {
 			BKInt size;
 			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
-- 
2.43.0


From 03b3d00a073582d083fe3f51bfcb4ba9711204a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 09/63] fix: tremolo and vibrato parameters are read back as
 they were set

---
 src/BKTrack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 020e1af..6989bc4 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -950,14 +950,14 @@ BKInt BKTrackGetEffect (BKTrack const * track, BKEnum effect, void * outValues,
 			break;
 		}
 		case BK_EFFECT_TREMOLO: {
-			values [0] = track -> tremoloSteps.endValue;
-			values [1] = track -> tremoloDelta.endValue;
+			values [0] = track -> tremoloSteps.endValue >> track -> tremoloSteps.valueShift;
+			values [1] = track -> tremoloDelta.endValue >> track -> tremoloDelta.valueShift;
 			values [2] = track -> tremoloDelta.steps;
 			break;
 		}
 		case BK_EFFECT_VIBRATO: {
-			values [0] = track -> vibratoSteps.endValue;
-			values [1] = track -> vibratoDelta.endValue;
+			values [0] = track -> vibratoSteps.endValue >> track -> vibratoSteps.valueShift;
+			values [1] = track -> vibratoDelta.endValue >> track -> vibratoDelta.valueShift;
 			values [2] = track -> vibratoDelta.steps;
 			break;
 		}
-- 
2.43.0


From 1ef38951e22ded01444b7ca1952ab09552595aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 10/63] fix: do not read beyond the given arpeggio or accept a
 negative length

---
 src/BKTrack.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 6989bc4..15e5419 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1027,12 +1027,14 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 				}
 				case BK_ARPEGGIO: {
 					BKInt * arpeggio = ptr;
-					BKUInt  count    = 0;
+					BKInt   count    = 0;
 
-					if (arpeggio && size)
-						count = BKMin (arpeggio [0], BK_MAX_ARPEGGIO);
+					if (arpeggio && size >= sizeof (BKInt)) {
+						count = BKClamp (arpeggio [0], 0, BK_MAX_ARPEGGIO);
+						count = BKMin (count, (BKInt) (size / sizeof (BKInt)) - 1);
+					}
 
-					BKTrackArpeggioSetNotes (track, & arpeggio [1], count);
+					BKTrackArpeggioSetNotes (track, arpeggio + 1, count);
 
 					break;
 				}
-- 
2.43.0


From 5115e90cceb03697f38d420d613e76e89b3fe6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 11/63] fix: a track attached to a context takes over its
 sample rate

---
 src/BKTrack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 15e5419..5401a41 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -521,7 +521,8 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 		if (ctx -> numChannels == 2)
 			track -> flags |= (BKPanningEnabledFlag);
 
-		track -> flags |= BKTrackAttrUpdateFlagVolume;
+		// sample rate or values may have changed while being detached
+		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote | BKTrackAttrUpdateFlagDutyCycle;
 		BKTrackUpdateUnit (track);
 	}
 
-- 
2.43.0


From 698b908dd2fa7523c6355b8e0ad92e3ba8e603eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 12/63] fix: setting the pitch of a track changes the sounding
 note

Previously it only had an effect when something else updated the note.
---
 src/BKTrack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 5401a41..16c3d62 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -722,10 +722,12 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 		}
 		case BK_PITCH: {
 			track -> pitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_SAMPLE_PITCH: {
 			track -> samplePitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
-- 
2.43.0


From c5e6f4f3aecd331e30df0485ddf8f4ddb9395597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 13/63] fix: getting a pointer attribute of a unit does not set
 it

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 85f5d0b..1943021 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1273,7 +1273,7 @@ static BKInt BKUnitSetPtrSize (BKUnit * unit, BKEnum attr, void * ptr, BKSize si
 
 static BKInt BKUnitGetPtrSize (BKUnit * unit, BKEnum attr, void * outPtr, BKSize size)
 {
-	return BKUnitSetPtr (unit, attr, outPtr);
+	return BKUnitGetPtr (unit, attr, outPtr);
 }
 
 BKClass BKUnitClass =
-- 
2.43.0


From 2b46b5f448bbd93b630e22009121b3a078318c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 14/63] fix: respect the result of the sample callback

---
 src/BKUnit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 1943021..60f7895 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -223,7 +223,7 @@ static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
 		info.object = unit;
 		info.event  = event;
 
-		unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
+		result = unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
 	}
 
 	return result;
@@ -1067,6 +1067,7 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 			mode = 0;
 			break;
 		}
+		case BK_SAMPLE_REPEAT: // documented return value of callback
 		case BK_REPEAT: {
 			mode = resetDir;
 			break;
-- 
2.43.0


From 06ff6ac07c184361b6e9fdb16c18c5a5bc3738de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 15/63] fix: a forward sample range starts at its first frame

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 60f7895..483eb1f 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -353,7 +353,7 @@ static void BKUnitUpdateSampleRange (BKUnit * unit, BKInt offset, BKInt end)
 			newPhase = 0;
 		}
 		// set sample phase to end if sample phase is at begin
-		else if (unit -> phase.phase == 0) {
+		else if (unit -> sample.offset > unit -> sample.end && unit -> phase.phase == 0) {
 			newPhase = unit -> sample.length - 1;
 		}
 	}
-- 
2.43.0


From 94d369c64513368bfda61762a01693e7803ae4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 16/63] fix: a sample played back and forth stays within its
 frames

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 483eb1f..e015b2f 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1077,7 +1077,7 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 				unit -> phase.phase = unit -> sample.length - unit -> phase.phase - 1;
 			}
 			else if (resetDir == -1) {
-				unit -> phase.phase = unit -> sample.length - unit -> phase.phase;
+				unit -> phase.phase = BKMin (unit -> sample.length - unit -> phase.phase, unit -> sample.length - 1);
 			}
 			mode = -resetDir;
 			break;
-- 
2.43.0


From 37eecb93d2ebfffd5b6cc4b7f5f4fd209c442209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 17/63] fix: the sustain range of a sample does not exceed its
 play range

---
 src/BKUnit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index e015b2f..23fb5b9 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -370,7 +370,8 @@ static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt e
 		return;
 	}
 
-	sampleLength = unit -> sample.dataState.data -> numFrames;
+	// sustain range lies within the range to play
+	sampleLength = unit -> sample.length;
 
 	if (offset < 0) {
 		offset += sampleLength + 1;
@@ -554,7 +555,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				if (value) {
 					if ((unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
 						if (unit -> sample.period > 0) {
-							unit -> phase.phase = unit -> sample.sustainEnd;
+							unit -> phase.phase = BKMin (unit -> sample.sustainEnd, unit -> sample.length - 1);
 						}
 						else {
 							unit -> phase.phase = BKMax (0, (BKInt) unit -> sample.sustainOffset - 1);
-- 
2.43.0


From d97b37e419374314858eeac06751acdff75936dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 18/63] fix: refuse to attach a unit to a context its sample
 does not fit

---
 src/BKUnit.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 23fb5b9..9c227ed 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -260,6 +260,11 @@ void BKUnitDisposeObject (BKUnit * unit)
 BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx)
 {
 	if (unit -> ctx == NULL) {
+		// number of channels of sample must match that of context
+		if (unit -> waveform == BK_SAMPLE && unit -> sample.numChannels != 1 && unit -> sample.numChannels != ctx -> numChannels) {
+			return BK_INVALID_NUM_CHANNELS;
+		}
+
 		unit -> prevUnit = ctx -> lastUnit;
 		unit -> nextUnit = NULL;
 		unit -> ctx      = ctx;
-- 
2.43.0


From 26fffa19678d68ed805b58185a9b7c4a95190417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 19/63] fix: unsetting a sample keeps a custom waveform and
 vice versa

The data was unlinked but its frames were still used, even after the data was
disposed. Unsetting a custom waveform succeeded but returned an error.
---
 src/BKUnit.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 9c227ed..a2ef4ea 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -106,7 +106,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 				unit -> sample.offset = 0;
 				unit -> sample.end    = 0;
 				unit -> sample.frames = NULL;
-				return -1;
 			}
 
 			break;
@@ -174,7 +173,10 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
 
 	if (res == 0) {
-		BKDataStateSetData (& unit -> sample.dataState, data);
+		// keep data if it is used as the other type
+		if (data || (unit -> waveform != BK_CUSTOM && unit -> waveform != BK_SAMPLE)) {
+			BKDataStateSetData (& unit -> sample.dataState, data);
+		}
 	}
 	// unset data when failed
 	else {
-- 
2.43.0


From d3f99d453dfe0ebb8a6c1847251d07e342be96e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 20/63] fix: do not keep using the frames of sample data which
 does not fit anymore

---
 src/BKUnit.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index a2ef4ea..3468992 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -194,6 +194,7 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 
 BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 {
+	BKInt  res;
 	BKEnum type;
 
 	switch (unit -> waveform) {
@@ -212,7 +213,17 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 	}
 
 	// reset data
-	return BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+	res = BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+
+	// do not use frames which may not exist anymore
+	if (res != 0) {
+		unit -> waveform      = 0;
+		unit -> sample.offset = 0;
+		unit -> sample.end    = 0;
+		unit -> sample.frames = NULL;
+	}
+
+	return res;
 }
 
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
-- 
2.43.0


From 75db412b90e4ebd55ced2137dcc68f1ea918bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 21/63] fix: remove several users of a data object at once
 without corrupting the list

---
 src/BKData.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index a192e1d..df1c1ea 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -129,10 +129,10 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 
 			state -> nextState = NULL;
 			state -> data      = NULL;
-			state = NULL;
 		}
-
-		prevState = state;
+		else {
+			prevState = state;
+		}
 	}
 
 	data -> object.flags &= ~BKObjectFlagLocked;
-- 
2.43.0


From 1bfc914ac90cfec6aab20ddad061510e76479891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 22/63] fix: a copied data object is initialized and can be
 disposed

---
 src/BKData.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index df1c1ea..e7a90a3 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -190,11 +190,14 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 {
 	BKInt res = 0;
 
-	memcpy (copy, original, sizeof (BKData));
+	if (BKDataInit (copy) < 0)
+		return -1;
 
-	copy -> object.flags &= BK_DATA_FLAG_COPY_MASK;
-	copy -> stateList = NULL;
-	copy -> frames    = NULL;
+	copy -> numBits       = original -> numBits;
+	copy -> sampleRate    = original -> sampleRate;
+	copy -> samplePitch   = original -> samplePitch;
+	copy -> sustainOffset = original -> sustainOffset;
+	copy -> sustainEnd    = original -> sustainEnd;
 
 	if (original -> frames)
 		res = BKDataSetFrames (copy, original -> frames, original -> numFrames, original -> numChannels, 1);
-- 
2.43.0


From b94acd8e225c40323e8488b496e8b22ea093fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 23/63] fix: frames set without copying are not freed by the
 data object

---
 src/BKData.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index e7a90a3..aa77cf1 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -364,17 +364,18 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 		memcpy (newFrames, frames, size);
 	}
 	else {
+		if (frames == NULL) {
+			return -1;
+		}
+
 		if (data -> object.flags & BK_DATA_FLAG_COPY) {
 			free (data -> frames);
+			data -> object.flags &= ~BK_DATA_FLAG_COPY;
 		}
 
 		newFrames = (BKFrame *) frames;
 	}
 
-	if (newFrames == NULL) {
-		return -1;
-	}
-
 	data -> frames      = newFrames;
 	data -> numFrames   = numFrames;
 	data -> numChannels = numChannels;
-- 
2.43.0


From 0d63657d77824dd13a1e037d3d995e1ad3753e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 24/63] fix: conversion of big endian and negative 8 bit data

---
 src/BKData.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index aa77cf1..2ba86d0 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -514,7 +514,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 8: {
 				if (isSigned) {
-					outFrames [0] = (BKFrame) (* (signed char *) charData) * BK_FRAME_MAX / 127;
+					outFrames [0] = BKMax (* (signed char *) charData, -127) * (BKInt) BK_FRAME_MAX / 127;
 				} else {
 					outFrames [0] = (BKFrame) (* (unsigned char *) charData) * BK_FRAME_MAX / 255;
 				}
@@ -525,7 +525,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 16: {
 				if (reverseEndian) {
-					outFrames [0] = (charData [0] << 8) | (charData [1] >> 8);
+					outFrames [0] = (charData [0] << 8) | charData [1];
 				} else {
 					outFrames [0] =  (* (BKFrame *) charData);
 				}
-- 
2.43.0


From 38f9cb4096491093daed301756e78fd20ebfda33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 25/63] fix: converted data is owned by the data object and its
 users are updated

The frames were neither freed nor were units updated which used the previous
frames. The last frames were left uninitialized if a row of channels was not
aligned to bytes, and data with less than 2 frames was accepted.
---
 src/BKData.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 2ba86d0..b4405ab 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -476,7 +476,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 		case 16: mask = 2; break;
 	}
 
-	dataSize -= (dataSize % (mask * numChannels));
+	dataSize -= (dataSize % mask);
 
 	for (charData = data; (void *) charData < data + dataSize;) {
 		switch (numBits) {
@@ -550,6 +550,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	BKUInt    numBits;
 	BKInt     isSigned, reverseEndian = 0;
 	BKInt     numFrames;
+	BKSize    size;
 	BKFrame * frames;
 
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
@@ -566,11 +567,18 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	if (numFrames < 0)
 		return BK_INVALID_NUM_BITS;
 
+	// need at least 2 phases
+	if (numFrames / numChannels < 2)
+		return BK_INVALID_NUM_FRAMES;
+
+	// bytes are converted as a whole even if the last packet is incomplete
+	size = (BKSize) dataSize * 8 / numBits * sizeof (BKFrame);
+
 	if (data -> object.flags & BK_DATA_FLAG_COPY) {
-		frames = realloc (data -> frames, numFrames * sizeof (BKFrame));
+		frames = realloc (data -> frames, size);
 	}
 	else {
-		frames = malloc (numFrames * sizeof (BKFrame));
+		frames = malloc (size);
 	}
 
 	if (frames == NULL)
@@ -579,11 +587,14 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian, numChannels) < 0)
 		return -1;
 
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> frames      = frames;
 	data -> numFrames   = numFrames / numChannels;
 	data -> numChannels = numChannels;
 	data -> numBits     = numBits;
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From c65f4215e44d4cd74b81fd1abbd9e869b37827bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 26/63] fix: read WAVE files without channels, with odd chunks
 or incomplete data

---
 src/BKWaveFileReader.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 258184b..59fce75 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -94,6 +94,7 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 {
 	BKSize size;
 	BKSize frameSize;
+	BKSize dataSize;
 	BKWaveFileHeader header;
 	BKWaveFileHeaderFmt headerFmt;
 	BKWaveFileHeaderData headerData;
@@ -133,6 +134,10 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.numChannels == 0) {
+			return -1;
+		}
+
 		do {
 			size = fread (& headerData, 1, sizeof (headerData), reader -> file);
 
@@ -146,16 +151,12 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 				break;
 			}
 
-			// seek to next subchunk
-			fseek (reader -> file, headerData.subchunkSize, SEEK_CUR);
+			// seek to next subchunk; chunks with odd size are padded
+			fseek (reader -> file, (long) headerData.subchunkSize + (headerData.subchunkSize & 1), SEEK_CUR);
 		}
 		while (1);
 
-		reader -> sampleRate  = headerFmt.sampleRate;
-		reader -> numChannels = headerFmt.numChannels;
-		reader -> numBits     = headerFmt.bitsPerSample;
-
-		switch (reader -> numBits) {
+		switch (headerFmt.bitsPerSample) {
 			case 8: {
 				frameSize = 1;
 				break;
@@ -167,10 +168,10 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			}
 		}
 
-		reader -> dataSize  = headerData.subchunkSize;
+		dataSize = headerData.subchunkSize;
 
 		// read everything after data chunk if size not set
-		if (!reader -> dataSize) {
+		if (!dataSize) {
 			BKSize size;
 			BKSize cur = ftell (reader -> file);
 
@@ -180,10 +181,19 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 
 			size = ftell (reader -> file);
 			fseek (reader -> file, cur, SEEK_SET);
-			reader -> dataSize = size - cur;
+			dataSize = BKMax (0, size - cur);
 		}
 
-		reader -> numFrames = (BKInt) reader -> dataSize / reader -> numChannels / frameSize;
+		if (dataSize / frameSize > BK_INT_MAX) {
+			return -1;
+		}
+
+		reader -> sampleRate  = headerFmt.sampleRate;
+		reader -> numChannels = headerFmt.numChannels;
+		reader -> numBits     = headerFmt.bitsPerSample;
+		reader -> numFrames   = (BKInt) (dataSize / frameSize / headerFmt.numChannels);
+		// ignore incomplete trailing frames
+		reader -> dataSize    = reader -> numFrames * headerFmt.numChannels * frameSize;
 	}
 
 	* outNumChannels = reader -> numChannels;
@@ -268,8 +278,8 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		}
 	}
 
-	// empty trailing byte if any
-	memset (outFrames, 0, reader -> dataSize - writeSize);
+	// empty trailing frames if any
+	memset (outFrames, 0, (reader -> dataSize - writeSize) / frameSize * sizeof (BKFrame));
 
 	return 0;
 }
-- 
2.43.0


From 6610be70e2398dbbadd0a2fe867aeea6c4ce5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 27/63] fix: WAVE files without frames, at an offset, or from
 data have a valid header

---
 src/BKWaveFileWriter.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 5ccb0b6..4a58f73 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -92,10 +92,6 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return res;
 	}
 
-	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
-		return res;
-	}
-
 	if (!numBits) {
 		numBits = 16;
 	}
@@ -103,6 +99,10 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return BK_INVALID_VALUE;
 	}
 
+	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
+		return res;
+	}
+
 	writer -> file          = file;
 	writer -> initOffset    = ftell (file);
 	writer -> sampleRate    = sampleRate;
@@ -155,7 +155,7 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
 	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
 
-	writer -> fileSize += ftell (writer -> file) - 8;
+	writer -> fileSize += ftell (writer -> file) - writer -> initOffset - 8;
 
 	writer -> object.flags |= BKWaveFileFlagHeaderWritten;
 
@@ -219,6 +219,12 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	BKSize   offset;
 	uint32_t chunkSize;
 
+	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
+		if (BKWaveFileWriterWriteHeader (writer) < 0) {
+			return -1;
+		}
+	}
+
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
 	chunkSize = (uint32_t) writer -> fileSize;
 
@@ -253,7 +259,7 @@ BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, B
 {
 	BKWaveFileWriter writer;
 
-	if (BKWaveFileWriterInit (& writer, file, sampleRate, data -> numChannels, numBits) < 0) {
+	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From c860733a8df416fecba7b9329c72515543551195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 28/63] fix: a copied instrument is initialized and has its own
 sequences

---
 src/BKInstrument.c | 10 +++++++---
 src/BKSequence.c   | 12 ++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/BKInstrument.c b/src/BKInstrument.c
index b49cc35..c27f8b4 100644
--- a/src/BKInstrument.c
+++ b/src/BKInstrument.c
@@ -117,9 +117,11 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 	BKInt res = 0;
 	BKSequence * sequence;
 
-	memset (copy, 0, sizeof (sizeof (BKInstrument)));
+	if (BKInstrumentInit (copy) < 0) {
+		return -1;
+	}
 
-	copy -> object.flags = (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
+	copy -> object.flags |= (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
 	copy -> numSequences = original -> numSequences;
 
 	for (BKInt i = 0; i < original -> numSequences; i ++) {
@@ -128,8 +130,10 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 		if (sequence) {
 			res = BKSequenceCopy (& copy -> sequences [i], sequence);
 
-			if (res < 0)
+			if (res < 0) {
+				BKDispose (copy);
 				return res;
+			}
 		}
 	}
 
diff --git a/src/BKSequence.c b/src/BKSequence.c
index 67183a7..4eddb48 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -122,10 +122,12 @@ static BKInt BKSequenceFuncSimpleCopy (BKSequence ** outCopy, BKSequence const *
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
 		* outCopy = copy;
 
@@ -365,10 +367,12 @@ static BKInt BKSequenceFuncEnvelopeCopy (BKSequence ** outCopy, BKSequence const
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
 		* outCopy = copy;
 
-- 
2.43.0


From 909fc624c8270edfe945c980afc9450ddef93ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 29/63] fix: pulses from one extreme to the other do not wrap
 around

---
 src/BKBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 9a9fa94..5b33bc3 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -80,7 +80,7 @@ extern void BKBufferDispose (BKBuffer * buf);
 /**
  * Add pulse at time offset
  */
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse);
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse);
 
 /**
  * Add single frame at time offset
@@ -147,7 +147,7 @@ BK_INLINE BKInt BKBufferSize (BKBuffer const * buf)
 	return buf -> time >> BK_FINT20_SHIFT;
 }
 
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-- 
2.43.0


From ac6fc52640a4b0381d2d483fa7346ee69520a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 30/63] fix: every status has a name

---
 src/BKBase.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BKBase.c b/src/BKBase.c
index 5fa987d..86eedaf 100644
--- a/src/BKBase.c
+++ b/src/BKBase.c
@@ -48,8 +48,10 @@ char const * BKStatusGetName (BKEnum status)
 {
 	char const * name = "Unknown status";
 
-	if (status & BK_RETURN_TYPE && status <= BK_OTHER_ERROR) {
-		name = statusNames [BK_STATUS_IDX (status)];
+	BKUInt index = BK_STATUS_IDX (status);
+
+	if (index < sizeof (statusNames) / sizeof (statusNames [0]) && statusNames [index]) {
+		name = statusNames [index];
 	}
 
 	return name;
-- 
2.43.0


From d22c7a3714e69549ad49fc216787149c2cbd56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 31/63] fix: loaded, normalized and converted data is owned and
 its users are updated

---
 src/BKData.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index b4405ab..31028b8 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -646,10 +646,22 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	}
 
 	if (BKWaveFileReaderReadHeader (& reader, & numChannels, & sampleRate, & numFrames) < 0) {
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
-	size   = numFrames * numChannels * sizeof (BKFrame);
+	// need at least 2 phases
+	if (numFrames < 2) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_FRAMES;
+	}
+
+	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_CHANNELS;
+	}
+
+	size   = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 	frames = malloc (size);
 
 	if (frames == NULL) {
@@ -658,10 +670,15 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	}
 
 	if (BKWaveFileReaderReadFrames (& reader, frames) < 0) {
+		BKDispose (& reader);
 		free (frames);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
+	if (data -> object.flags & BK_DATA_FLAG_COPY) {
+		free (data -> frames);
+	}
+
 	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> numBits       = 16;
 	data -> sampleRate    = sampleRate;
@@ -669,6 +686,8 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	data -> numChannels   = numChannels;
 	data -> frames        = frames;
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	BKDispose (& reader);
 
 	return 0;
@@ -699,6 +718,8 @@ BKInt BKDataNormalize (BKData * data)
 			data -> frames [i] = (data -> frames [i] * factor) >> 16;
 	}
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
@@ -822,6 +843,7 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 
 	BKDataReduceBits (convertedFrames, data -> frames, length, & validatedInfo);
 
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> frames = convertedFrames;
 
 	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
-- 
2.43.0


From 9e9f46828eca01db6f81c79119aaac82bbbee446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 32/63] fix: generating to a time does not hand out frames
 after that time

---
 src/BKContext.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index d2513fc..203dbfc 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -340,7 +340,9 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 			BKInt size;
 			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
-			size = BKContextRead (ctx, frames, BK_MAX_GENERATE_SAMPLES);
+			// units may have been run beyond the end time
+			size = BKMin (BKContextSize (ctx), BK_MAX_GENERATE_SAMPLES);
+			size = BKContextRead (ctx, frames, size);
 			numFrames += size;
 
 			if (write (frames, size, info) != 0)
-- 
2.43.0


From 40104b55075aace1b30b5669acfb650bbcdaebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 33/63] fix: generating to a fraction of a frame keeps the
 stream continuous

---
 src/BKBuffer.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 5b33bc3..0192ff6 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -129,12 +129,13 @@ BK_INLINE BKInt BKBufferEnd (BKBuffer * buf, BKFUInt20 time)
 
 BK_INLINE BKInt BKBufferShift (BKBuffer * buf, BKFUInt20 time)
 {
-	BKFUInt20 maxShift;
+	BKUInt offset;
 
-	maxShift = buf -> capacity << BK_FINT20_SHIFT;
+	offset = (buf -> time + time) >> BK_FINT20_SHIFT;
 
-	if (buf -> time + time > maxShift) {
-		time = maxShift - buf -> time;
+	// keep the fraction of the frame not yet completed
+	if (offset > buf -> capacity) {
+		time = (buf -> capacity << BK_FINT20_SHIFT) - buf -> time;
 	}
 
 	buf -> time += time;
-- 
2.43.0


From 4aeaf28f2b194257c020683941fc5a0f1939ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 34/63] fix: mixing several loud sources saturates instead of
 wrapping around

---
 src/BKBuffer.c | 14 +++++++-------
 src/BKBuffer.h |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index ec43219..8e944d7 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -130,10 +130,10 @@ void BKBufferDispose (BKBuffer * buf)
 
 BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt interlace)
 {
-	BKInt * frames = & buf -> frames [0];
-	BKInt   accum  = buf -> accum;
-	BKUInt  bufferSize;
-	BKInt   amp;
+	int64_t * frames = & buf -> frames [0];
+	int64_t   accum  = buf -> accum;
+	BKUInt    bufferSize;
+	int64_t   amp;
 
 	interlace = BKMax (interlace, 1);          // step must be at least 1
 	size      = BKMin (size, buf -> capacity); // can only read available frames
@@ -146,7 +146,7 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 
 		// clamp
 		if ((BKFrame) amp != amp)
-			amp = (amp >> BK_FRAME_SHIFT) ^ BK_FRAME_MAX;
+			amp = amp < 0 ? ~ (BKInt) BK_FRAME_MAX : (BKInt) BK_FRAME_MAX;
 
 		// write frame
 		(* outFrames) = amp;
@@ -156,9 +156,9 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 	bufferSize = buf -> capacity + BK_STEP_WIDTH + 1;
 
 	// move frames left
-	memmove (& buf -> frames [0], & buf -> frames [size], sizeof (BKInt) * (bufferSize - size));
+	memmove (& buf -> frames [0], & buf -> frames [size], sizeof (* buf -> frames) * (bufferSize - size));
 	// zero right gap
-	memset (& buf -> frames [bufferSize - size], 0, sizeof (BKInt) * size);
+	memset (& buf -> frames [bufferSize - size], 0, sizeof (* buf -> frames) * size);
 	// reduce remaining capacity
 	buf -> capacity -= size;
 
diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 0192ff6..fa1eb41 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -49,8 +49,8 @@ struct BKBuffer
 {
 	BKFUInt20             time;
 	BKUInt                capacity;                     // dynamic capacity
-	BKInt                 accum;                        // amplitude accumulator
-	BKInt                 frames [BK_BUFFER_CAPACITY];  // frame buffer
+	int64_t               accum;                        // amplitude accumulator
+	int64_t               frames [BK_BUFFER_CAPACITY];  // frame buffer
 	BKBufferPulse const * pulse;                        // Pulse kernel
 };
 
@@ -152,7 +152,7 @@ BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-	BKInt * frames;
+	int64_t * frames;
 	BKFrame const * phase;
 
 	time   = buf -> time + time;
-- 
2.43.0


From a0d722a0994d09beca2ca57ddd87d44766df98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 35/63] fix: keep the precision of the tone periods (high notes
 were up to 43 cents sharp)

---
 src/BKTone.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTone.c b/src/BKTone.c
index 1e697db..6bb1907 100644
--- a/src/BKTone.c
+++ b/src/BKTone.c
@@ -76,7 +76,7 @@ BKFUInt20 BKTonePeriodLookup (BKFInt20 tone, BKUInt sampleRate)
 	period2 = tonePeriods [BKMin (tone + 1, BK_MAX_NOTE)];
 
 	period = period1 * (BK_TONE_UNIT - frac) + period2 * frac;
-	period = ((period >> BK_TONE_SAMPLE_RATE_SHIFT) * sampleRate) << (BK_TONE_SAMPLE_RATE_SHIFT - BK_TONE_SHIFT);
+	period = ((uint64_t) period * sampleRate) >> BK_TONE_SHIFT;
 
 	return period;
 }
-- 
2.43.0


From 1d21ace53854db81a049395d02f48ee2a9c1e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 36/63] fix: WAVE reader skips the extension of the format
 chunk

---
 src/BKWaveFileReader.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 59fce75..18087e1 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -126,6 +126,11 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		// PCM needs no extension but may have one
+		if (headerFmt.subchunkSize < 16) {
+			return -1;
+		}
+
 		if (headerFmt.audioFormat != 1) {
 			return -1;
 		}
@@ -138,6 +143,11 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		// skip extension of format chunk
+		if (headerFmt.subchunkSize > 16) {
+			fseek (reader -> file, (long) headerFmt.subchunkSize - 16 + (headerFmt.subchunkSize & 1), SEEK_CUR);
+		}
+
 		do {
 			size = fread (& headerData, 1, sizeof (headerData), reader -> file);
 
-- 
2.43.0


From 3f74885a819c970ca564eb0029fc3a33ffc18955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 37/63] fix: duty cycle envelope overflows when starting from a
 value larger than its own

---
 src/BKSequence.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 4eddb48..3b9ef77 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -151,7 +151,8 @@ BKSequenceFuncs const BKSequenceFuncsSimple =
  */
 static BKUInt BKSequencePhaseGetMaxAbsValue (BKSequencePhase const * phases, BKUInt length)
 {
-	BKInt maxValue = 0;
+	// envelope may be set to start from the duty cycle of the track
+	BKInt maxValue = BK_MAX_DUTY_CYCLE;
 
 	for (BKInt i = 0; i < length; i ++)
 		maxValue = BKMax (maxValue, BKAbs (phases [i].value));
-- 
2.43.0


From 70680cf6fcfa6676536238e68fa37443246323c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 38/63] fix: clocks attached or detached by callbacks miss
 ticks or are used after their disposal

---
 src/BKContext.c | 65 +++++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 203dbfc..b45926b 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -357,27 +357,40 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
  * Get next clock tick period of all clocks
  * Increment clock times by that period and set new time if some clock ticks
  */
-static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * error)
+static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKInt * error)
 {
 	BKClock * clock;
 	BKTime    nextTime;
 	BKTime    deltaTime;
 	BKFUInt20 period;
 
+	// callbacks may attach and detach clocks
 	do {
-		nextTime = BK_TIME_MAX;
 		ctx -> flags &= ~BK_CONTEXT_FLAG_CLOCK_RESET; // clear clock reset flag
 
-		for (clock = clocks; clock; clock = clock -> nextClock) {
+		for (clock = ctx -> firstClock; clock; clock = clock -> nextClock) {
 			BKClockTick (clock);
 
-			// get next time to tick
-			if (BKTimeIsLess (clock -> nextTime, nextTime))
-				nextTime = clock -> nextTime;
+			// has been detached by its own callback; clocks already ticked will not tick again
+			if (clock -> ctx != ctx) {
+				ctx -> flags |= BK_CONTEXT_FLAG_CLOCK_RESET;
+				break;
+			}
 		}
 	}
 	while (ctx -> flags & BK_CONTEXT_FLAG_CLOCK_RESET);
 
+	if (ctx -> firstClock == NULL)
+		return 0;
+
+	nextTime = BK_TIME_MAX;
+
+	// get next time to tick
+	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock) {
+		if (BKTimeIsLess (clock -> nextTime, nextTime))
+			nextTime = clock -> nextTime;
+	}
+
 	deltaTime = BKTimeSub (nextTime, ctx -> currentTime);
 
 	if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
@@ -388,7 +401,7 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 	}
 
 	// advance
-	for (clock = clocks; clock; clock = clock -> nextClock)
+	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockAdvance (clock, period);
 
 	ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, period);
@@ -402,35 +415,35 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 	BKUnit  * unit;
 	BKInt     result;
 
-	if (ctx -> firstClock) {
-		for (time = ctx -> deltaTime; time < endTime;) {
-			result = 0;
-			clockDelta = BKClocksAdvance (ctx, ctx -> firstClock, & result);
+	time = ctx -> deltaTime;
 
-			if (result < 0)
-				return result;
+	// callbacks may detach all clocks
+	while (ctx -> firstClock && time < endTime) {
+		result = 0;
+		clockDelta = BKClocksAdvance (ctx, & result);
 
-			// set new end time
-			time += clockDelta;
+		if (result < 0)
+			return result;
 
-			// run units
-			for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
-				unit -> run (unit, time);
-		}
+		// set new end time
+		time += clockDelta;
 
-		ctx -> deltaTime = time;
-	}
-	else {
 		// run units
+		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
+			unit -> run (unit, time);
+	}
+
+	// no clocks attached
+	if (time < endTime) {
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 			unit -> run (unit, endTime);
 
-		if (ctx -> deltaTime < endTime) {
-			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
-			ctx -> deltaTime   = endTime;
-		}
+		ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - time);
+		time = endTime;
 	}
 
+	ctx -> deltaTime = time;
+
 	return endTime;
 }
 
-- 
2.43.0


From c314606f5d858da6453c94377dd658ffe0d5bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 39/63] fix: divider is called after it has been detached by
 the callback of another one

---
 src/BKClock.c | 41 +++++++++++++++++++----------------------
 src/BKClock.h |  1 +
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 40a58bc..3519f9e 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -187,9 +187,17 @@ void BKClockAdvance (BKClock * clock, BKFUInt20 period)
 BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 {
 	BKInt reset = 0;
+	BKDivider      * nextDivider;
+	BKDividerGroup * group;
 
 	// tick each attached divider
-	for (; divider; divider = divider -> nextDivider) {
+	for (; divider; divider = nextDivider) {
+		group = divider -> group;
+
+		// is updated if the next divider is detached by the callback
+		if (group)
+			group -> nextDivider = divider -> nextDivider;
+
 		if (divider -> counter <= 0) {
 			reset = 1;
 
@@ -206,6 +214,12 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 		}
 
 		divider -> counter --;
+
+		if (divider -> group == group)
+			nextDivider = divider -> nextDivider;
+		// has been detached by its own callback
+		else
+			nextDivider = group ? group -> nextDivider : NULL;
 	}
 
 	return reset;
@@ -284,27 +298,7 @@ BKInt BKDividerAlloc (BKDivider ** outDivider, BKUInt count, BKCallback * callba
 
 static void BKDividerDisposeObject (BKDivider * divider)
 {
-	BKDividerGroup * group = divider -> group;
-
-	if (divider -> group) {
-		if (divider -> prevDivider) {
-			divider -> prevDivider -> nextDivider = divider -> nextDivider;
-		}
-		// is first clock
-		else {
-			group -> firstDivider = divider -> nextDivider;
-		}
-
-		if (divider -> nextDivider) {
-			divider -> nextDivider -> prevDivider = divider -> prevDivider;
-		}
-		// is last clock
-		else {
-			group -> lastDivider = divider -> prevDivider;
-		}
-
-		divider -> group = NULL;
-	}
+	BKDividerDetach (divider);
 }
 
 BKInt BKDividerAttachToClock (BKDivider * divider, BKClock * clock)
@@ -342,6 +336,9 @@ void BKDividerDetach (BKDivider * divider)
 	BKDividerGroup * group = divider -> group;
 
 	if (group) {
+		if (group -> nextDivider == divider)
+			group -> nextDivider = divider -> nextDivider;
+
 		if (divider -> prevDivider) {
 			divider -> prevDivider -> nextDivider = divider -> nextDivider;
 		}
diff --git a/src/BKClock.h b/src/BKClock.h
index 7e21bd5..115ce31 100644
--- a/src/BKClock.h
+++ b/src/BKClock.h
@@ -55,6 +55,7 @@ struct BKDividerGroup
 {
 	BKDivider * firstDivider;
 	BKDivider * lastDivider;
+	BKDivider * nextDivider; // next one to tick
 };
 
 struct BKClock
-- 
2.43.0


From 9f445d86b2d9e992999b8428d54c68efa17bf482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 40/63] fix: changing range in begin callback uses frames of
 previous sample

---
 src/BKUnit.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 3468992..bbb5da7 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -136,8 +136,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> sample.sustainOffset = 0;
 					unit -> sample.sustainEnd    = 0;
 
-					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
-
 					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
 				}
 			}
@@ -177,6 +175,10 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 		if (data || (unit -> waveform != BK_CUSTOM && unit -> waveform != BK_SAMPLE)) {
 			BKDataStateSetData (& unit -> sample.dataState, data);
 		}
+
+		// callback may change range of sample
+		if (data && type == BK_SAMPLE)
+			BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 	}
 	// unset data when failed
 	else {
@@ -215,6 +217,9 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 	// reset data
 	res = BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
 
+	if (res == 0 && unit -> waveform == BK_SAMPLE)
+		BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+
 	// do not use frames which may not exist anymore
 	if (res != 0) {
 		unit -> waveform      = 0;
@@ -478,6 +483,9 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				value = BKClamp (value, 0, unit -> phase.count - 1);
 			}
 			else {
+				// may change range of sample
+				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+
 				// reset to sample start
 				if (value < 0) {
 					if (unit -> sample.end > unit -> sample.offset) {
@@ -489,7 +497,6 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				}
 
 				value = BKClamp (value, 0, unit -> sample.length - 1);
-				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 			}
 
 			unit -> phase.phase = value;
-- 
2.43.0


From e63ee34af8c847720b75b47d90186eccf1637e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 41/63] fix: changes made to sample by its callback at the end
 hang, crash or are ignored

---
 src/BKUnit.c | 61 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index bbb5da7..ffe88b1 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1051,6 +1051,9 @@ static BKInt BKUnitWrapSamplePhase (BKUnit * unit, BKInt min, BKInt max)
 	BKInt resetDir = 0;
 	BKInt length   = max - min;
 
+	if (length <= 0)
+		return 0;
+
 	// reset if phase exceeds end
 	if ((BKInt) unit -> phase.phase >= max) {
 		// phase %= length
@@ -1086,6 +1089,11 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 	}
 
 	resetDir = BKUnitWrapSamplePhase (unit, 0, unit -> sample.length);
+	mode     = resetDir;
+
+	// callback has moved the phase; continue in same direction
+	if (resetDir == 0)
+		mode = unit -> sample.period < 0 ? -1 : 1;
 
 	switch (repeatMode) {
 		default:
@@ -1095,7 +1103,6 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 		}
 		case BK_SAMPLE_REPEAT: // documented return value of callback
 		case BK_REPEAT: {
-			mode = resetDir;
 			break;
 		}
 		case BK_PALINDROME: {
@@ -1105,7 +1112,9 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 			else if (resetDir == -1) {
 				unit -> phase.phase = BKMin (unit -> sample.length - unit -> phase.phase, unit -> sample.length - 1);
 			}
-			mode = -resetDir;
+			if (resetDir)
+				mode = -resetDir;
+
 			break;
 		}
 	}
@@ -1133,6 +1142,37 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 	return halt;
 }
 
+/**
+ * Check if sample can be played
+ */
+static BKInt BKUnitCanRunSample (BKUnit const * unit)
+{
+	// detached or unset by callback
+	if (unit -> ctx == NULL || unit -> waveform != BK_SAMPLE) {
+		return 0;
+	}
+
+	// muted
+	if (unit -> mute) {
+		return 0;
+	}
+
+	// prevent invalid sample length
+	if (BKAbs ((BKInt) unit -> sample.end - (BKInt) unit -> sample.offset) < 2) {
+		return 0;
+	}
+
+	return 1;
+}
+
+/**
+ * Check if phase has to be kept in sustain range
+ */
+static BKInt BKUnitHasSampleBounds (BKUnit const * unit)
+{
+	return (unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease);
+}
+
 /**
  * Fills buffer with sample to specified time
  * Calls sample callback if sample has ended and asks if it should be repeated
@@ -1146,17 +1186,11 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 	BKInt      checkBounds;
 	BKFrame  * frames;
 
-	// muted
-	if (unit -> mute) {
+	if (BKUnitCanRunSample (unit) == 0) {
 		return endTime;
 	}
 
-	// prevent invalid sample length
-	if (BKAbs ((BKInt) unit -> sample.end - (BKInt) unit -> sample.offset) < 2) {
-		return endTime;
-	}
-
-	checkBounds = (unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease);
+	checkBounds = BKUnitHasSampleBounds (unit);
 
 	for (time = unit -> time; time < endTime; time += BK_FINT20_UNIT) {
 		frames = & unit -> sample.frames [unit -> phase.phase * unit -> sample.numChannels];
@@ -1185,6 +1219,13 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 			if (BKUnitResetSample (unit) == 1) {
 				break;
 			}
+
+			// callback may have stopped unit or changed the sample
+			if (BKUnitCanRunSample (unit) == 0) {
+				break;
+			}
+
+			checkBounds = BKUnitHasSampleBounds (unit);
 		}
 
 		// check for sustain range boundary
-- 
2.43.0


From 98ccf713f13609cba814e4e447b160bf2773b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 42/63] fix: copying data which has a buffer but no frames
 failed

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 31028b8..3417fcd 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -199,7 +199,8 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 	copy -> sustainOffset = original -> sustainOffset;
 	copy -> sustainEnd    = original -> sustainEnd;
 
-	if (original -> frames)
+	// normalised or converted data may have a buffer without frames
+	if (original -> numFrames)
 		res = BKDataSetFrames (copy, original -> frames, original -> numFrames, original -> numChannels, 1);
 
 	if (res < 0)
-- 
2.43.0


From 87012ee70c91f33f470b3965bad4f315bd690873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 43/63] fix: cleared track did not update its pitch anymore
 when its waveform data was changed

---
 src/BKUnit.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index ffe88b1..2591395 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1310,8 +1310,6 @@ void BKUnitClear (BKUnit * unit)
 	unit -> sample.sustainEnd                 = 0;
 	unit -> sample.period                     = BK_FINT20_UNIT;
 	unit -> sample.timeFrac                   = 0;
-	unit -> sample.dataState.callback         = (void *) BKUnitSampleDataStateCallback;
-	unit -> sample.dataState.callbackUserInfo = unit;
 
 	// reset sample range
 	if (unit -> sample.dataState.data)
-- 
2.43.0


From eb772e43b6a84ae3ba711538fb6f7ebf9e655ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 44/63] fix: dividers attached to a context were not reset with
 it

---
 src/BKContext.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index b45926b..f182faa 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -496,9 +496,10 @@ BKInt BKContextRead (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 
 void BKContextReset (BKContext * ctx)
 {
-	BKUnit   * unit;
-	BKBuffer * channel;
-	BKClock  * clock;
+	BKUnit    * unit;
+	BKBuffer  * channel;
+	BKClock   * clock;
+	BKDivider * divider;
 
 	ctx -> deltaTime   = 0;
 	ctx -> currentTime = BK_TIME_ZERO;
@@ -511,6 +512,13 @@ void BKContextReset (BKContext * ctx)
 	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockReset (clock);
 
+	// dividers of context are not part of the clock
+	for (divider = ctx -> beatDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
+	for (divider = ctx -> effectDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferClear (channel);
-- 
2.43.0


From 8751cad95908ceaa28fc3c89028fbe9f06776ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 45/63] fix: track reset while running started its next note
 too early

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 2591395..c1dc96d 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1326,7 +1326,7 @@ void BKUnitReset (BKUnit * unit)
 
 	unit -> waveform    = 0;
 	unit -> phase.phase = 0;
-	unit -> time = 0;
+	unit -> time        = unit -> ctx ? unit -> ctx -> deltaTime : 0; // shift time to context time
 
 	for (BKInt i = 0; i < BK_MAX_CHANNELS; i ++)
 		unit -> lastPulse [i] = 0;
-- 
2.43.0


From 706adedaafa987d4315c8f6699cf21fb78ba8a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 46/63] fix: level of detached unit offset the signal when
 attached again or to other context

---
 src/BKUnit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index c1dc96d..d92f2fb 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -328,6 +328,10 @@ void BKUnitDetach (BKUnit * unit)
 
 		unit -> ctx  = NULL;
 		unit -> time = 0;
+
+		// last level remains in this context
+		for (BKInt i = 0; i < BK_MAX_CHANNELS; i ++)
+			unit -> lastPulse [i] = 0;
 	}
 }
 
-- 
2.43.0


From c7d4bec1de2c9e0b77bd4843bbeea341336be095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 47/63] fix: disable panning of tracks attached again after
 their stereo context was disposed

---
 src/BKTrack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 16c3d62..61b7931 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -518,8 +518,8 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 
 		BKContextAttachDivider (ctx, & track -> divider, BK_CLOCK_TYPE_EFFECT);
 
-		if (ctx -> numChannels == 2)
-			track -> flags |= (BKPanningEnabledFlag);
+		// may still be set if the last context was disposed
+		BKBitSetCond (track -> flags, BKPanningEnabledFlag, ctx -> numChannels == 2);
 
 		// sample rate or values may have changed while being detached
 		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote | BKTrackAttrUpdateFlagDutyCycle;
-- 
2.43.0


From 78d0c958a5088c20af3568244148c254f026eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 48/63] fix: adding or subtracting large fixed-point numbers
 overflowed in the 32-bit representation of time

---
 src/BKTime.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 7e849bf..2fefbf9 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -158,10 +158,10 @@ BK_INLINE BKTime BKTimeAddFUInt20 (BKTime a, BKFUInt20 b)
 {
 	BKFUInt20 frac;
 
-	frac = a.frac + b;
+	frac = a.frac + (b & BK_FINT20_FRAC);
 
 	a.frac = frac & BK_FINT20_FRAC;
-	a.time += (frac >> BK_FINT20_SHIFT);
+	a.time += (b >> BK_FINT20_SHIFT) + (frac >> BK_FINT20_SHIFT);
 
 	return a;
 }
@@ -183,10 +183,10 @@ BK_INLINE BKTime BKTimeSubFUInt20 (BKTime a, BKFUInt20 b)
 {
 	BKFUInt20 frac;
 
-	frac = a.frac - b;
+	frac = a.frac - (b & BK_FINT20_FRAC);
 
 	a.frac = frac & BK_FINT20_FRAC;
-	a.time = a.time + ((BKInt) frac >> BK_FINT20_SHIFT);
+	a.time = a.time - (BKInt) (b >> BK_FINT20_SHIFT) + ((BKInt) frac >> BK_FINT20_SHIFT);
 
 	return a;
 }
-- 
2.43.0


From 8a2a158512e6fb793d582dee794c57cc8f265c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 49/63] fix: WAVE writer reported success when writing to the
 file failed

---
 src/BKWaveFileWriter.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 4a58f73..04c5f21 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -151,9 +151,11 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 		fmtHeader.byteRate      = BKInt32Reverse (fmtHeader.byteRate);
 	}
 
-	fwrite (& header, sizeof (header), 1, writer -> file);
-	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
-	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
+	if (fwrite (& header, sizeof (header), 1, writer -> file) < 1 ||
+		fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file) < 1 ||
+		fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file) < 1) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> fileSize += ftell (writer -> file) - writer -> initOffset - 8;
 
@@ -172,7 +174,7 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 
 	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
 		if (BKWaveFileWriterWriteHeader (writer) < 0) {
-			return -1;
+			return BK_FILE_ERROR;
 		}
 	}
 
@@ -199,11 +201,15 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 			frames += writeSize;
 			numFrames -= writeSize;
 
-			fwrite (buffer, numBits / 8, writeSize, writer -> file);
+			if (fwrite (buffer, numBits / 8, writeSize, writer -> file) < writeSize) {
+				return BK_FILE_ERROR;
+			}
 		}
 	}
 	else {
-		fwrite (frames, sizeof (BKFrame), numFrames, writer -> file);
+		if (fwrite (frames, sizeof (BKFrame), numFrames, writer -> file) < numFrames) {
+			return BK_FILE_ERROR;
+		}
 	}
 
 	writer -> fileSize += dataSize;
@@ -221,7 +227,7 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 
 	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
 		if (BKWaveFileWriterWriteHeader (writer) < 0) {
-			return -1;
+			return BK_FILE_ERROR;
 		}
 	}
 
@@ -232,8 +238,9 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) < 0 || fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) < 1) {
+		return BK_FILE_ERROR;
+	}
 
 	offset = writer -> initOffset + sizeof (BKWaveFileHeader) + sizeof (BKWaveFileHeaderFmt);
 	offset += offsetof (BKWaveFileHeaderData, subchunkSize);
@@ -244,11 +251,13 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) < 0 || fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) < 1) {
+		return BK_FILE_ERROR;
+	}
 
-	fseek (writer -> file, 0, SEEK_END);
-	fflush (writer -> file);
+	if (fseek (writer -> file, 0, SEEK_END) < 0 || fflush (writer -> file) != 0) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> object.flags |= BKWaveFileFlagTerminated;
 
@@ -257,18 +266,19 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 
 BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, BKInt numBits)
 {
+	BKInt res, termRes;
 	BKWaveFileWriter writer;
 
 	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-	BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
-	BKWaveFileWriterTerminate (& writer);
+	res     = BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
+	termRes = BKWaveFileWriterTerminate (& writer);
 
 	BKDispose (& writer);
 
-	return 0;
+	return res < 0 ? res : termRes;
 }
 
 BKClass BKWaveFileWriterClass =
-- 
2.43.0


From bcac83a90c819c48eeeeba9fe9a39a97e4e6889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 50/63] fix: loading raw data from a file which cannot be read
 gave uninitialized frames

---
 src/BKData.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 3417fcd..af1df49 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -626,7 +626,11 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 	}
 
 	fseek (file, offset, SEEK_SET);
-	fread (frames, sizeof (char), size, file);
+
+	if (fread (frames, sizeof (char), size, file) < size) {
+		free (frames);
+		return BK_FILE_ERROR;
+	}
 
 	ret = BKDataSetData (data, frames, (BKUInt) size, numChannels, params);
 
-- 
2.43.0


From fcf0572b83dfe803906b5e3e8197bf356dfb995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 51/63] fix: more frames than readable were read from a context
 which had been run ahead

---
 src/BKBuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index 8e944d7..40cfd65 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -135,8 +135,8 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 	BKUInt    bufferSize;
 	int64_t   amp;
 
-	interlace = BKMax (interlace, 1);          // step must be at least 1
-	size      = BKMin (size, buf -> capacity); // can only read available frames
+	interlace = BKMax (interlace, 1);             // step must be at least 1
+	size      = BKMin (size, BKBufferSize (buf)); // can only read available frames
 
 	while (frames < & buf -> frames [size]) {
 		accum -= (accum >> (BK_INT_SHIFT - BK_HIGH_PASS_SHIFT));  // apply high pass filter
-- 
2.43.0


From affb26745b2d8b0ba17ebb725c74c632c50a27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 52/63] fix: arpeggio and effects set by BKTrackSetPtr had no
 effect

---
 src/BKTrack.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 61b7931..3c2d617 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1054,9 +1054,38 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 	return 0;
 }
 
+/**
+ * Get size of effect values if not given explicitly
+ */
+static BKSize BKTrackEffectSize (BKEnum attr)
+{
+	switch (attr) {
+		case BK_EFFECT_VOLUME_SLIDE:
+		case BK_EFFECT_PANNING_SLIDE:
+		case BK_EFFECT_PORTAMENTO: {
+			return sizeof (BKInt);
+		}
+		case BK_EFFECT_TREMOLO:
+		case BK_EFFECT_VIBRATO: {
+			return 2 * sizeof (BKInt);
+		}
+		default: {
+			return 0;
+		}
+	}
+}
+
 BKInt BKTrackSetPtr (BKTrack * track, BKEnum attr, void * ptr)
 {
-	return BKTrackSetPtrObj (track, attr, ptr, 0);
+	BKInt const * values = ptr;
+	BKSize size = BKTrackEffectSize (attr);
+
+	// first value contains the number of notes
+	if (attr == BK_ARPEGGIO && values) {
+		size = sizeof (BKInt) * (BKClamp (values [0], 0, BK_MAX_ARPEGGIO) + 1);
+	}
+
+	return BKTrackSetPtrObj (track, attr, ptr, size);
 }
 
 static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr, BKSize size)
@@ -1102,7 +1131,7 @@ static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr
 
 BKInt BKTrackGetPtr (BKTrack const * track, BKEnum attr, void * outPtr)
 {
-	return BKTrackGetPtrObj (track, attr, outPtr, 0);
+	return BKTrackGetPtrObj (track, attr, outPtr, BKTrackEffectSize (attr));
 }
 
 BKClass BKTrackClass =
-- 
2.43.0


From e5883a8c09a73c2804e1ee87d1afc1b9d7f3231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 53/63] fix: smallest integer as period gave a negative or zero
 period depending on the build

---
 src/BKUnit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index d92f2fb..3397db0 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -515,6 +515,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_PERIOD: {
+			value = BKMax (value, -(BKInt) BK_INT_MAX); // has no absolute value otherwise
 			value = BKMax (BKAbs (value), BK_MIN_PERIOD);
 			unit -> period = value;
 			break;
@@ -560,6 +561,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_SAMPLE_PERIOD: {
+			value = BKMax (value, -(BKInt) BK_INT_MAX); // has no absolute value otherwise
 			value = BKAbs (value);
 			value = BKClamp (value, BK_MIN_SAMPLE_PERIOD, BK_MAX_SAMPLE_PERIOD);
 
-- 
2.43.0


From 2b1f239eeaec7df95b24ebe9600a0883dea34b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 54/63] fix: raw 16-bit data at odd addresses was read
 misaligned

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index af1df49..525b4d8 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -528,7 +528,8 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 				if (reverseEndian) {
 					outFrames [0] = (charData [0] << 8) | charData [1];
 				} else {
-					outFrames [0] =  (* (BKFrame *) charData);
+					// data may start at any address
+					memcpy (outFrames, charData, sizeof (BKFrame));
 				}
 
 				charData += 2;
-- 
2.43.0


From de80286c334b266408b999f6ab07502aefee3ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:05 +0000
Subject: [PATCH 55/63] fix: sustain range of sample data was not used when
 playing the sample

---
 src/BKUnit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 3397db0..928344a 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -133,10 +133,11 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> phase.phase          = 0; // reset phase
 					unit -> sample.repeatMode    = 0;
 					unit -> sample.repeatCount   = 0;
-					unit -> sample.sustainOffset = 0;
-					unit -> sample.sustainEnd    = 0;
+					unit -> sample.sustainOffset = BKMin (data -> sustainOffset, data -> numFrames);
+					unit -> sample.sustainEnd    = BKMin (data -> sustainEnd, data -> numFrames);
 
 					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
+					BKBitSetCond (unit -> object.flags, BKUnitFlagSampleSustainRange, unit -> sample.sustainOffset != unit -> sample.sustainEnd);
 				}
 			}
 			// disable sample
-- 
2.43.0


From a264941806321031ca235163a986a5ab95a2a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 56/63] fix: slide between extreme values overflowed when the
 maximum value is a power of two

---
 src/BKInterpolation.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index f4e62cb..a4b6c85 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -24,14 +24,16 @@ void BKSlideStateInit (BKSlideState * state, BKInt maxValue)
 
 void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt steps)
 {
-	BKInt stepDelta, deltaValue;
+	BKInt   stepDelta;
+	int64_t deltaValue;
 
 	steps = BKClamp (steps, 0, BK_STATE_MAX_STEPS);
 
 	if (steps) {
 		endValue <<= state -> valueShift;
-		deltaValue = endValue - state -> value;
-		stepDelta  = deltaValue / steps;
+		// difference needs 1 bit more than the values
+		deltaValue = (int64_t) endValue - state -> value;
+		stepDelta  = (BKInt) (deltaValue / steps);
 
 		state -> endValue  = endValue;
 		state -> stepDelta = stepDelta;
-- 
2.43.0


From 9704805b97bbdde11716d6715d3bd03e10febf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:57 +0000
Subject: [PATCH 57/63] fix: sequence state continued with the precision of its
 previous sequence

---
 src/BKSequence.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 3b9ef77..7f9a8f0 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -444,8 +444,11 @@ BKInt BKSequenceStateSetSequence (BKSequenceState * state, BKSequence * sequence
 
 		state -> sequence = sequence;
 
-		if (sequence)
+		if (sequence) {
+			// continue from current value with precision of new sequence
+			sequence -> funcs -> setValue (state, state -> value);
 			result = sequence -> funcs -> setPhase (state, state -> phase);
+		}
 	}
 
 	return result;
-- 
2.43.0


From caabf31b3a3d0183f5b72e5e034d2d8a96e701dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 58/63] fix: raw data of 256 MB and more is refused or
 truncated

Sizes in bits were calculated with 32 bits. More frames than can be
counted are refused.
---
 src/BKData.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 525b4d8..f3742b5 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -443,11 +443,11 @@ static BKInt BKDataNumBitsFromParam (BKEnum param, BKUInt * outNumBits, BKInt *
 	return 0;
 }
 
-static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBits, BKUInt numChannels)
+static int64_t BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBits, BKUInt numChannels)
 {
-	BKInt numFrames = 0;
-	BKInt packetSize;
-	BKInt dataSizeBits = dataSize * 8;
+	int64_t numFrames = 0;
+	int64_t packetSize;
+	int64_t dataSizeBits = (int64_t) dataSize * 8;
 
 	if (numBits <= 8) {
 		packetSize = (numBits * numChannels);
@@ -551,7 +551,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	BKUInt    bits   = (params & BK_DATA_BITS_MASK);
 	BKUInt    numBits;
 	BKInt     isSigned, reverseEndian = 0;
-	BKInt     numFrames;
+	int64_t   numFrames;
 	BKSize    size;
 	BKFrame * frames;
 
@@ -566,8 +566,9 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 
 	numFrames = BKDataCalculateNumFramesFromNumBits (dataSize, numBits, numChannels);
 
-	if (numFrames < 0)
-		return BK_INVALID_NUM_BITS;
+	// more frames than can be counted
+	if (numFrames > BK_INT_MAX)
+		return BK_INVALID_NUM_FRAMES;
 
 	// need at least 2 phases
 	if (numFrames / numChannels < 2)
@@ -591,7 +592,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 
 	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> frames      = frames;
-	data -> numFrames   = numFrames / numChannels;
+	data -> numFrames   = (BKUInt) (numFrames / numChannels);
 	data -> numChannels = numChannels;
 	data -> numBits     = numBits;
 
@@ -620,6 +621,12 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 	}
 
 	size -= offset;
+
+	// size of data is limited
+	if ((BKSize) (BKUInt) size != size) {
+		return BK_INVALID_NUM_FRAMES;
+	}
+
 	frames = malloc (size);
 
 	if (frames == NULL) {
-- 
2.43.0


From bf1dc10a5d52b79c08afcf6a464b4ca46ed089d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:38 +0000
Subject: [PATCH 59/63] fix: BKDataSetFrames accepts more frames than can be
 counted

The size in bytes overflowed and less memory than needed was allocated.
---
 src/BKData.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index f3742b5..7462a8b 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -337,7 +337,7 @@ static BKInt BKDataGetPtr (BKData const * data, BKEnum attr, void * outPtr)
 
 BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames, BKUInt numChannels, BKInt copy)
 {
-	BKUInt    size;
+	BKSize    size;
 	BKFrame * newFrames;
 
 	// need at least 2 phases
@@ -347,7 +347,11 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
 		return BK_INVALID_NUM_CHANNELS;
 
-	size = numFrames * numChannels * sizeof (BKFrame);
+	// more frames than can be counted
+	if (numFrames > BK_INT_MAX / numChannels)
+		return BK_INVALID_NUM_FRAMES;
+
+	size = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 
 	if (copy) {
 		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-- 
2.43.0


From 9522f228b192b8c0340c5ac22a29fe48a05fd076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:32 +0000
Subject: [PATCH 60/63] fix: units attached or reset by a clock callback begin
 at the start of the request

The context's time offset was only updated after all ticks of a run. A unit
attached or reset by the callback of a clock or divider was placed at the
beginning of the requested frames instead of at the time of the tick.
---
 src/BKContext.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index f182faa..d9e8e5f 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -420,6 +420,8 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 	// callbacks may detach all clocks
 	while (ctx -> firstClock && time < endTime) {
 		result = 0;
+		// units attached or reset by callbacks begin at the time of the tick
+		ctx -> deltaTime = time;
 		clockDelta = BKClocksAdvance (ctx, & result);
 
 		if (result < 0)
-- 
2.43.0


From a1eab17417b24bc37a0bf182ddaf89ff5aff90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:10 +0000
Subject: [PATCH 61/63] fix: units attached or detached by sample callbacks
 crash or silence other units

While the units are run, a sample callback may detach and attach units. The
loop went on with the link of a unit that had been detached meanwhile, or
skipped the units left if the unit was attached again.
---
 src/BKContext.c | 16 +++++++++++-----
 src/BKContext.h |  1 +
 src/BKUnit.c    |  6 ++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index d9e8e5f..6f51ca5 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -409,10 +409,18 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKInt * error)
 	return period;
 }
 
+static void BKContextRunUnits (BKContext * ctx, BKFUInt20 endTime)
+{
+	// sample callbacks may attach and detach units
+	for (BKUnit * unit = ctx -> firstUnit; unit; unit = ctx -> nextUnit) {
+		ctx -> nextUnit = unit -> nextUnit;
+		unit -> run (unit, endTime);
+	}
+}
+
 BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 {
 	BKFUInt20 time, clockDelta;
-	BKUnit  * unit;
 	BKInt     result;
 
 	time = ctx -> deltaTime;
@@ -431,14 +439,12 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 		time += clockDelta;
 
 		// run units
-		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
-			unit -> run (unit, time);
+		BKContextRunUnits (ctx, time);
 	}
 
 	// no clocks attached
 	if (time < endTime) {
-		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
-			unit -> run (unit, endTime);
+		BKContextRunUnits (ctx, endTime);
 
 		ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - time);
 		time = endTime;
diff --git a/src/BKContext.h b/src/BKContext.h
index 9dcb632..7e9b227 100644
--- a/src/BKContext.h
+++ b/src/BKContext.h
@@ -75,6 +75,7 @@ struct BKContext
 	// linked units
 	BKUnit * firstUnit;
 	BKUnit * lastUnit;
+	BKUnit * nextUnit; // next unit to run; is updated when callbacks attach or detach units
 
 	// channels
 	BKBuffer * channels;
diff --git a/src/BKUnit.c b/src/BKUnit.c
index 928344a..7221dd5 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -298,6 +298,9 @@ BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx)
 			ctx -> firstUnit = unit;
 			ctx -> lastUnit  = unit;
 		}
+
+		if (ctx -> nextUnit == NULL)
+			ctx -> nextUnit = unit;
 	}
 	else {
 		return BK_INVALID_STATE;
@@ -327,6 +330,9 @@ void BKUnitDetach (BKUnit * unit)
 			ctx -> lastUnit = unit -> prevUnit;
 		}
 
+		if (ctx -> nextUnit == unit)
+			ctx -> nextUnit = unit -> nextUnit;
+
 		unit -> ctx  = NULL;
 		unit -> time = 0;
 
-- 
2.43.0


From 0816bfd57ea7fb257b9dd69822311afdc29fd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:13 +0000
Subject: [PATCH 62/63] fix: sample attached to another context by its callback
 is played there too early

The unit went on running for the former context's time and wrote to the
buffers of the other context.
---
 src/BKUnit.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 7221dd5..6ca1f0b 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1198,6 +1198,7 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 	BKInt      pulse, delta, chanDelta;
 	BKInt      checkBounds;
 	BKFrame  * frames;
+	BKContext * ctx = unit -> ctx;
 
 	if (BKUnitCanRunSample (unit) == 0) {
 		return endTime;
@@ -1238,6 +1239,11 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 				break;
 			}
 
+			// callback may have attached unit to another context
+			if (unit -> ctx != ctx) {
+				break;
+			}
+
 			checkBounds = BKUnitHasSampleBounds (unit);
 		}
 
@@ -1293,7 +1299,9 @@ BKInt BKUnitRun (BKUnit * unit, BKFUInt20 endTime)
 		BKBufferEnd (channel, time);
 	}
 
-	unit -> time = time;
+	// otherwise detached or attached to another context by callback
+	if (unit -> ctx == ctx)
+		unit -> time = time;
 
 	return 0;
 }
-- 
2.43.0


From 198c22b224ba3c65563a092a555a36b05a774fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:08 +0000
Subject: [PATCH 63/63] fix: clock attached by sample callback hangs context
 without clocks

The clock was given the time before the units were run, so its next tick
was in the past when the time was advanced afterwards.
---
 src/BKContext.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 6f51ca5..2b0dd25 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -444,10 +444,11 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 
 	// no clocks attached
 	if (time < endTime) {
-		BKContextRunUnits (ctx, endTime);
-
+		// clocks attached by sample callbacks begin after the units have been run
 		ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - time);
 		time = endTime;
+
+		BKContextRunUnits (ctx, endTime);
 	}
 
 	ctx -> deltaTime = time;
-- 
2.43.0

