From 893565205341801c18c533fc964acca24c0d22ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:54 +0000
Subject: [PATCH 01/15] fix: setbitu: compute the mask of a 31-bit field
 without signed overflow

---
 src/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index 3853567..56016c3 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -179,7 +179,7 @@ void setbitu(u8 *buff, u32 pos, u32 len, u32 data) {
   shift = count - shift;
 
   /* mask of bits to take from 'data' */
-  u32 data_mask = (len == 32 ? ~0 : ((1 << len) - 1));
+  u32 data_mask = (len == 32 ? ~0u : ((1u << len) - 1));
   /* in case 'data' has more bits than specified in 'len' */
   data &= data_mask;
 
-- 
2.43.0


From ee9ed1e376bd73d38d7791bcd08ee95caf0d42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 02/15] fix: bitstream, bytestream: compute the end of a
 request without 32-bit wrap-around

---
 include/swiftnav/bitstream.h  | 4 ++--
 include/swiftnav/bytestream.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/swiftnav/bitstream.h b/include/swiftnav/bitstream.h
index 1644d4b..5a33363 100644
--- a/include/swiftnav/bitstream.h
+++ b/include/swiftnav/bitstream.h
@@ -26,7 +26,7 @@ typedef struct swiftnav_out_bitstream {
 
 static inline bool swiftnav_in_bitstream_would_overflow(
     const swiftnav_in_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 
 static inline void swiftnav_in_bitstream_init(swiftnav_in_bitstream_t *buf,
@@ -88,7 +88,7 @@ static inline u32 swiftnav_in_bitstream_remaining(
 
 static inline bool swiftnav_out_bitstream_would_overflow(
     const swiftnav_out_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 static inline void swiftnav_out_bitstream_init(swiftnav_out_bitstream_t *buf,
                                                uint8_t *data,
diff --git a/include/swiftnav/bytestream.h b/include/swiftnav/bytestream.h
index f2e5648..56fcf2c 100644
--- a/include/swiftnav/bytestream.h
+++ b/include/swiftnav/bytestream.h
@@ -20,7 +20,7 @@ typedef struct swiftnav_bytestream {
 
 static inline bool swiftnav_bytestream_would_overflow(
     const swiftnav_bytestream_t *buf, u32 index, u32 len) {
-  return (buf->offset + index + len) > buf->len;
+  return ((u64)buf->offset + index + len) > buf->len;
 }
 
 static inline void swiftnav_bytestream_init(swiftnav_bytestream_t *buf,
-- 
2.43.0


From 80f318919ec5b4afc52161cefead592f2277b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 03/15] fix: crc24q_bits: do not read past (or prepend a byte
 to) whole-byte messages

---
 src/edc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/edc.c b/src/edc.c
index 79445f6..37da5e2 100644
--- a/src/edc.c
+++ b/src/edc.c
@@ -99,7 +99,7 @@ u32 crc24q(const u8 *buf, u32 len, u32 crc) {
 u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
   u16 acc = 0;
   u8 b = 0;
-  u32 shift = 8 - n_bits % 8;
+  u32 shift = (8 - n_bits % 8) % 8;
 
   for (u32 i = 0; i < n_bits / 8; ++i) {
     acc = (acc << 8) | *buf++;
@@ -109,6 +109,10 @@ u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
     b = (acc >> shift) & 0xFFu;
     crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
   }
+  if (0 == shift) {
+    /* No padding: the message ended with the last whole byte */
+    return crc;
+  }
   acc = (acc << 8) | *buf;
   if (invert) {
     acc ^= 0xFFu;
-- 
2.43.0


From 08f20a3eb6c9688ad1080160bdde7625c9df272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:01 +0000
Subject: [PATCH 04/15] fix: remove_element: no out-of-bounds copy when every
 element is smaller

---
 src/set.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/set.c b/src/set.c
index eb39851..05cad70 100644
--- a/src/set.c
+++ b/src/set.c
@@ -227,6 +227,13 @@ u32 remove_element(
    * If b is larger than all of as, the last element of as will be removed. */
   u32 index = insertion_index(na, sa, as, b, cmp);
 
+  if (0 == na) {
+    return index;
+  }
+  if (index == na) {
+    index = na - 1;
+  }
+
   memcpy(a_out, as, index * sa);
   memcpy((char *)a_out + index * sa,
          (const char *)as + (index + 1) * sa,
-- 
2.43.0


From 1ff03c6447acc272b22f873e0d69fc38775baebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 05/15] fix: gnss_time: convert weeks to seconds in 64 bits
 (overflow from week 3029)

---
 src/gnss_time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 7d59b34..f57fc13 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -50,7 +50,7 @@ bool unix_time_valid(const time_t *t) {
  */
 bool unix_time_valid_with_wn_ref(const time_t *t, u16 wn_ref) {
   return (isfinite((float)*t) && ((*t) >= 0) &&
-          ((*t) > (wn_ref * WEEK_SECS) + GPS_EPOCH));
+          ((*t) > ((s64)wn_ref * WEEK_SECS) + GPS_EPOCH));
 }
 
 /** Tell whether a `gps_time_t` struct is valid and within current GPS week
@@ -310,7 +310,7 @@ time_t gps2time(const gps_time_t *t_gps) {
 
   time_t t = (time_t)(GPS_EPOCH - get_gps_utc_offset(t_gps, NULL));
 
-  t += WEEK_SECS * t_gps->wn;
+  t += (time_t)WEEK_SECS * t_gps->wn;
   t += (s32)t_gps->tow;
 
   return t;
@@ -326,7 +326,7 @@ gps_time_t time2gps_t(const time_t t_unix) {
   assert(unix_time_valid(&t_unix));
   gps_time_t t_gps;
   t_gps.wn = (s16)((t_unix - GPS_EPOCH) / WEEK_SECS);
-  t_gps.tow = t_unix - GPS_EPOCH - WEEK_SECS * t_gps.wn;
+  t_gps.tow = t_unix - GPS_EPOCH - (time_t)WEEK_SECS * t_gps.wn;
   assert(gps_time_valid(&t_gps));
   return t_gps;
 }
-- 
2.43.0


From 88834aee3d44b65dfb880d3d92e689036b6a3a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 06/15] fix: normalize_gps_time_duration: keep seconds below a
 week after rounding

---
 src/gnss_time.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index f57fc13..e4ac1d5 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -178,6 +178,11 @@ void normalize_gps_time_duration(gps_time_duration_t *dt) {
   if (sign_weeks * sign_seconds < -FLOAT_EQUALITY_EPS) {
     dt->weeks -= (s16)sign_weeks;
     dt->seconds += sign_weeks * WEEK_SECS;
+    /* A tiny number of seconds may round up to a full week */
+    if (fabs(dt->seconds) >= WEEK_SECS) {
+      dt->weeks += (s16)sign_weeks;
+      dt->seconds -= sign_weeks * WEEK_SECS;
+    }
   }
 }
 
-- 
2.43.0


From ed77c9e8bf9c1e8bffb65abdf57f195edac12378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 07/15] fix: gps2utc: a leap second ends within a rounding
 error of midnight, do not abort there

---
 src/gnss_time.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index e4ac1d5..2ce63cf 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -11,6 +11,7 @@
  */
 
 #include <assert.h>
+#include <float.h>
 #include <math.h>
 #include <stdio.h>
 #include <string.h>
@@ -203,12 +204,16 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
   bool is_lse = is_leap_second_event(t, p);
 
   double tow_utc = t->tow - dt_utc;
+  double lse_frac = 0;
 
   if (is_lse) {
     /* positive leap second event ongoing, so we are at 23:59:60.xxxx
-     * subtract one second from time for now to make the conversion
-     * into yyyy/mm/dd HH:MM:SS.sssss format, and add it back later */
-    tow_utc = tow_utc - 1;
+     * convert 23:59:59 of that day into yyyy/mm/dd HH:MM:SS format for now,
+     * and add the second and its fraction back later: the fraction may be
+     * within a rounding error of the neighbouring seconds */
+    double midnight = round(tow_utc / DAY_SECS) * DAY_SECS;
+    lse_frac = fmin(fmax(tow_utc - midnight, 0.0), 1.0 - DBL_EPSILON);
+    tow_utc = midnight - 1;
   }
 
   gps_time_t t_u = {.wn = t->wn, .tow = tow_utc};
@@ -223,6 +228,7 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
     assert(u->second_int == 59);
     /* add the extra second back in*/
     u->second_int += 1;
+    u->second_frac = lse_frac;
   }
 }
 
-- 
2.43.0


From b68fd52c25a0b09c115b938f89b7d531ff251a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 08/15] fix: glo2gps: count days of the four-year cycle from
 its first year (2100 is no leap year)

---
 src/gnss_time.c | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 2ce63cf..1f67ac9 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -528,38 +528,20 @@ u16 gps_adjust_week_cycle256(u16 wn_raw, u16 wn_ref) {
  */
 
 gps_time_t glo2gps(const glo_time_t *glo_t, const utc_params_t *utc_params) {
-  u8 year_of_cycle = 0;
-  u16 day_of_year = 0;
-  u32 glo_year = 0;
   gps_time_t gps_t = GPS_TIME_UNKNOWN;
 
   if (glo_t->n4 < GLO_N4_MIN || glo_t->n4 > GLO_N4_MAX) {
     return GPS_TIME_UNKNOWN;
   }
 
-  if (glo_t->nt < GLO_NT_0_FLOOR) {
+  if (glo_t->nt < GLO_NT_0_FLOOR || glo_t->nt > GLO_NT_3_CEILING) {
     return GPS_TIME_UNKNOWN;
   }
-  if (glo_t->nt <= GLO_NT_0_CEILING) {
-    year_of_cycle = 1;
-    day_of_year = glo_t->nt;
-  } else if (glo_t->nt <= GLO_NT_1_CEILING) {
-    year_of_cycle = 2;
-    day_of_year = glo_t->nt - LEAP_YEAR_DAYS;
-  } else if (glo_t->nt <= GLO_NT_2_CEILING) {
-    year_of_cycle = 3;
-    day_of_year = glo_t->nt - LEAP_YEAR_DAYS - YEAR_DAYS;
-  } else if (glo_t->nt <= GLO_NT_3_CEILING) {
-    year_of_cycle = 4;
-    day_of_year = glo_t->nt - LEAP_YEAR_DAYS - YEAR_DAYS * 2;
-  } else {
-    return GPS_TIME_UNKNOWN;
-  }
-
-  glo_year = GLO_EPOCH_YEAR + 4 * (glo_t->n4 - 1) + (year_of_cycle - 1);
 
-  /* Calculate days since GPS epoch */
-  s64 days_gps_epoch = YEAR_1980_GPS_DAYS + day_of_year - 1;
+  /* Calculate days since GPS epoch, counting the day number from the first year
+   * of the 4-year cycle (not always a leap year: 2100 is not) */
+  u32 glo_year = GLO_EPOCH_YEAR + 4 * (glo_t->n4 - 1);
+  s64 days_gps_epoch = YEAR_1980_GPS_DAYS + glo_t->nt - 1;
   u32 y = GPS_EPOCH_YEAR;
   while (++y < glo_year) {
     days_gps_epoch += is_leap_year(y) ? LEAP_YEAR_DAYS : YEAR_DAYS;
-- 
2.43.0


From b689c5ab0400927a80d36177879efbcd4b03ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 09/15] fix: mark a Galileo ephemeris invalid when its decoding
 is refused

decode_gal_ephemeris_safe sets eph->valid from the health status before it
checks the reference times; when it then returned false the record was left
flagged valid with an out-of-range toe or toc.
---
 src/ephemeris.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b872a7e..b0ffbfc 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1683,9 +1683,11 @@ bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE],
   /* Match TOE week number with the time of transmission, fixes the case
    * near week roll-over where time of ephemeris is across the week boundary */
   if (!gps_time_match_weeks_safe(&eph->toe, &t)) {
+    eph->valid = false;
     return false;
   }
   if (!gps_time_match_weeks_safe(&kep->toc, &t)) {
+    eph->valid = false;
     return false;
   }
 
-- 
2.43.0


From 4a21649c80b699dd3c75cefc587273057b5524cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 10/15] fix: decode_ura_index: index 16 is past the end of the
 table

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b0ffbfc..ebe2f0e 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1168,7 +1168,7 @@ static const float gps_ura_values[URA_VALUE_TABLE_LEN] = {
  */
 float decode_ura_index(const u8 index) {
   /* Invalid index */
-  if (URA_VALUE_TABLE_LEN < index) {
+  if (URA_VALUE_TABLE_LEN <= index) {
     return INVALID_URA_VALUE;
   }
 
-- 
2.43.0


From e8f6c9d85ff7519121e8059a4ff7bb22311737ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 11/15] fix: encode_lock_time: intervals begin at the power of
 two, no out-of-range conversion

---
 src/nav_meas.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 7ce44c8..d3689b2 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -148,7 +148,7 @@ u8 encode_lock_time(double nm_lock_time) {
 
   /* Convert to milliseconds */
   u32 ms_lock_time;
-  if (nm_lock_time < UINT32_MAX) {
+  if (nm_lock_time * SECS_MS < UINT32_MAX) {
     ms_lock_time = (u32)(nm_lock_time * SECS_MS);
   } else {
     ms_lock_time = UINT32_MAX;
@@ -158,7 +158,7 @@ u8 encode_lock_time(double nm_lock_time) {
     return 0;
   }
   for (u8 i = 0; i < 16; i++) {
-    if (ms_lock_time > (1u << (i + 5))) {
+    if (ms_lock_time >= (1u << (i + 5))) {
       continue;
     }
     return i;
-- 
2.43.0


From 687763ee8cca51ded5e6adc3c0c9dfe4105fe6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:36 +0000
Subject: [PATCH 12/15] fix: get_geoid_offset: refuse a position that is not a
 number

---
 src/geoid_model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoid_model.c b/src/geoid_model.c
index dca6549..212d3a1 100644
--- a/src/geoid_model.c
+++ b/src/geoid_model.c
@@ -87,7 +87,7 @@ geoid_model_t get_geoid_model(void) { return GEOID_MODEL_EGM2008; }
 float get_geoid_offset(double lat_rad, double lon_rad) {
   /* Convert to degrees, returning 0.0 if out of bounds */
   float lat_deg = (float)(R2D * lat_rad);
-  if (lat_deg > MAX_LAT || lat_deg < MIN_LAT) {
+  if (!(lat_deg <= MAX_LAT && lat_deg >= MIN_LAT)) {
     log_error("Invalid latitude passed to get_geoid_offset: %lf", lat_rad);
     return 0.0;
   }
@@ -96,7 +96,7 @@ float get_geoid_offset(double lat_rad, double lon_rad) {
   if (lon_deg < 0.) {
     lon_deg += 360.f;
   }
-  if (lon_deg > MAX_LON || lon_deg < MIN_LON) {
+  if (!(lon_deg <= MAX_LON && lon_deg >= MIN_LON)) {
     log_error("Invalid longitude passed to get_geoid_offset: %lf", lon_rad);
     return 0.0;
   }
-- 
2.43.0


From 42789fb7720babc7d49cf0b662446ccbc0cdf6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 13/15] fix: calc_sat_doppler added the receiver velocity
 instead of subtracting it

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index ebe2f0e..7ebf4af 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -808,7 +808,7 @@ s8 calc_sat_doppler(const ephemeris_t *e,
   vector_subtract(3, sat_pos, ref_pos, vec_ref_sat_pos);
 
   /* Find the velocity diff between receiver and satellite. */
-  vector_add(3, sat_vel, ref_vel, vec_ref_sat_vel);
+  vector_subtract(3, sat_vel, ref_vel, vec_ref_sat_vel);
 
   /* Find the satellite - receiver velocity projected on the line of sight
    * vector from the reference position to the satellite. */
-- 
2.43.0


From d5d3a32d8b6d677d839fa846c48a97aa4b17d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 14/15] fix: sign of the radius correction in the acceleration
 of a Keplerian orbit

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 7ebf4af..aa9e748 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -473,7 +473,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Calculate the radius correction */
   double dr = (k->crs * sin2al + k->crc * cos2al);
   double dr_dot = 2 * al_dot * (k->crs * cos2al - k->crc * sin2al);
-  double dr_acc = 4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
+  double dr_acc = -4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
 
   /* Calculate corrected radius based on argument of latitude. */
   double r = a * temp + k->crc * cos2al + k->crs * sin2al;
-- 
2.43.0


From c1173405a9cc3f36f793416c883b7ece1c438a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 15/15] fix: sign of the second derivative of the eccentric
 anomaly in calc_sat_state_kepler

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index aa9e748..c03141b 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -446,7 +446,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   } while (fabs(ea - ea_old) > 1.0E-14);
 
   double ea_dot = ma_dot / temp;
-  double ea_acc = ea_dot * ea_dot * ecc * sin(ea) / temp;
+  double ea_acc = -ea_dot * ea_dot * ecc * sin(ea) / temp;
 
   /* Begin calc for True Anomaly and Argument of Latitude */
   double temp2 = sqrt(1.0 - ecc * ecc);
-- 
2.43.0

