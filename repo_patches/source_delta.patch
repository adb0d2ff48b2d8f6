From f26cdfc03fe5f93c60a2445acf5e870dd515cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 01/15] fix: Sunpos.sunset raised UnboundLocalError for units
 deg and rad

---
 src/sunwhere/_base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a0e3b18..29f216f 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -517,11 +517,9 @@ class Sunpos:
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
 
-        if units == 'deg':
-            wss = (12. - wss)*15
-
-        if units == 'rad':
-            wss = np.radians((12. - wss)*15)
+        if units in ('deg', 'rad'):
+            # the sunset hour angle is symmetric to that of sunrise
+            wss = -self.sunrise(units)
 
         return wss.rename('wss').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
-- 
2.43.0


From 6d94969a0c5a6e6046a103ca96c78ca07d74e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 02/15] fix: true_solar_time/universal_time_coordinated failed
 to read the equation of time

---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index fd97acc..61c6974 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -8,7 +8,7 @@ def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_utc, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
@@ -26,7 +26,7 @@ def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_tst, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
-- 
2.43.0


From 6595dad11e22f9fbd18ae8048bbf93b33ef062c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 03/15] fix: Sunpos mislabelled times with non-pytz time zones
 and failed in ambiguous local times

---
 src/sunwhere/_base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 29f216f..f32c3a5 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -59,15 +59,17 @@ class Sunpos:
         _times = pd.to_datetime(times)
 
         if _times.tz is None:
-            self._timezone = 'UTC'
-        elif hasattr(_times.tz, 'zone'):
-            self._timezone = _times.tz.zone
-        else:
-            self._timezone = 'UTC'
+            _times = _times.tz_localize('UTC')
+
+        # pytz time zones have attribute `zone` (None for fixed offsets),
+        # but zoneinfo and datetime time zones do not
+        self._timezone = getattr(_times.tz, 'zone', None) or str(_times.tz)
 
+        # de-localize in UTC, rather than in local time, to keep unambiguous
+        # the local times in the daylight saving time transitions
         self._times = pd.to_datetime(
-            np.array(_times.tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-        ).tz_localize(self._timezone, ambiguous='infer')
+            np.array(_times.tz_convert('UTC').tz_localize(None), ndmin=1, dtype='datetime64[ns]')
+        ).tz_localize('UTC').tz_convert(_times.tz)
 
         self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')
 
-- 
2.43.0


From 2cd92cc6ef75e5da7ce03ab09f538748b81673a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 04/15] fix: nrel failed when there were no valid times

---
 src/sunwhere/libspa/ne_nrel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 4d0c475..989c961 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -40,6 +40,15 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
     longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
     latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
+    if unixtime.size == 0:
+
+        # numexpr does not retain the broadcast shape of empty arrays
+
+        shape = (0, latitude.size, longitude.size)[:ndim+1]
+        return {'zenith': np.empty(shape), 'azimuth': np.empty(shape),
+                'ecf': np.empty((0,)), 'eot': np.empty((0,)),
+                'declination': np.empty((0,))}
+
     if ndim == 0:
 
         # -- one dimensional space: (n_locations,) == (n_times,)
-- 
2.43.0


From 711b8cd6cebebc1c9ec766c9744b0ef612f2c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 05/15] fix: truthy refraction values other than True were
 silently ignored

---
 src/sunwhere/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index 155328c..e53f8e3 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -151,7 +151,7 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
 
     # load function to compute solar position...
     spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos
-    spa_args = [ndim, refraction]
+    spa_args = [ndim, bool(refraction)]
 
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
-- 
2.43.0


From b7ce65f0f126bd4c58c9a22fe1879e4c0d1a1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 06/15] fix: rounding errors made zenith NaN (or up to 0.06 deg
 off) with the sun at the zenith or nadir

---
 src/sunwhere/libspa/ne_iqbal.py    | 9 ++++++---
 src/sunwhere/libspa/ne_nrel.py     | 9 ++++++---
 src/sunwhere/libspa/ne_psa.py      | 9 ++++++---
 src/sunwhere/libspa/ne_soltrack.py | 3 +++
 src/sunwhere/libspa/py_iqbal.py    | 6 +++---
 src/sunwhere/libspa/py_psa.py      | 6 +++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 7 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index bbacc02..e1b64dc 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -142,7 +142,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.)
+    sza_rad = nex('arccos(cosz)')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -203,7 +204,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.)
+    sza_rad = nex('arccos(cosz)')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -265,7 +267,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.)
+    sza_rad = nex('arccos(cosz)')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 989c961..6de7240 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -236,7 +236,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp))')
+    sin_e = np.clip(nex('sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp)'), -1., 1.)
+    e = nex('arcsin(sin_e)')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -289,7 +290,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    sin_e = np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.)
+    e = nex('arcsin(sin_e)')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -342,7 +344,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    sin_e = np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.)
+    e = nex('arcsin(sin_e)')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index e5ba0f3..7b9ad38 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -127,7 +127,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(delta)')
     tandec = nex('tan(delta)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    cosz = np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.)
+    zenith = nex('arccos(cosz)')
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -169,7 +170,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')  # radians
+    cosz = np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.)
+    zenith = nex('arccos(cosz)')  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -211,7 +213,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    cosz = np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.)
+    zenith = nex('arccos(cosz)')
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax Correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 27bd91b..d815e38 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -147,6 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
+    sin_alt = np.clip(sin_alt, -1., 1.)
     alt_uncorr = nex('arcsin(sin_alt)')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')      # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -182,6 +183,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
+    sin_alt = np.clip(sin_alt, -1., 1.)
     alt_uncorr = nex('arcsin(sin_alt)')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -218,6 +220,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
+    sin_alt = np.clip(sin_alt, -1., 1.)
     alt_uncorr = nex('arcsin(sin_alt)')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index c60aaa8..20613a1 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -139,7 +139,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -198,7 +198,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -259,7 +259,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/py_psa.py b/src/sunwhere/libspa/py_psa.py
index 87fc09c..a0a9547 100644
--- a/src/sunwhere/libspa/py_psa.py
+++ b/src/sunwhere/libspa/py_psa.py
@@ -129,7 +129,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta)
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -173,7 +173,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -218,7 +218,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index afae171..d98d8ed 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -140,7 +140,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -188,7 +188,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -236,7 +236,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
-- 
2.43.0


From 1072f903c626aa50ed84f4350bcc82563cf456e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 07/15] fix: soltrack refraction diverged with the sun about 5
 deg below the horizon

---
 src/sunwhere/libspa/ne_soltrack.py | 9 ++++++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index d815e38..6a47100 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -153,7 +153,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')  # only if the sun is up, as in NREL's SPA
 
     zenith = HALFPI - alt
 
@@ -189,7 +190,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')  # only if the sun is up, as in NREL's SPA
 
     zenith = HALFPI - alt
 
@@ -226,7 +228,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')  # only if the sun is up, as in NREL's SPA
 
     zenith = HALFPI - alt
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index d98d8ed..b5d0be7 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -147,7 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)  # only if the sun is up, as in NREL's SPA
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -195,7 +195,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)  # only if the sun is up, as in NREL's SPA
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -243,7 +243,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)  # only if the sun is up, as in NREL's SPA
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
-- 
2.43.0


From 088206c3003cee424eed2b7c37e188f408b2b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 08/15] fix: iqbal refraction gave negative zenith overhead and
 lowered the sun below the horizon

---
 src/sunwhere/libspa/ne_iqbal.py | 9 ++++++---
 src/sunwhere/libspa/py_iqbal.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index e1b64dc..4982e14 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -154,7 +154,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # only if the sun is up (as in NREL's SPA) and not beyond the zenith
+        sza_rad = np.where(alpha >= -1.4545e-2, np.maximum(sza_rad - refcor, 0.), sza_rad)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')
@@ -216,7 +217,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # only if the sun is up (as in NREL's SPA) and not beyond the zenith
+        sza_rad = np.where(alpha >= -1.4545e-2, np.maximum(sza_rad - refcor, 0.), sza_rad)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None]
@@ -279,7 +281,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # only if the sun is up (as in NREL's SPA) and not beyond the zenith
+        sza_rad = np.where(alpha >= -1.4545e-2, np.maximum(sza_rad - refcor, 0.), sza_rad)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None, None]
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index 20613a1..32f5e1d 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -149,7 +149,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # only if the sun is up (as in NREL's SPA) and not beyond the zenith
+        sza_rad = np.where(alpha >= -1.4545e-2, np.maximum(sza_rad - refcor, 0.), sza_rad)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -208,7 +209,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # only if the sun is up (as in NREL's SPA) and not beyond the zenith
+        sza_rad = np.where(alpha >= -1.4545e-2, np.maximum(sza_rad - refcor, 0.), sza_rad)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -269,7 +271,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # only if the sun is up (as in NREL's SPA) and not beyond the zenith
+        sza_rad = np.where(alpha >= -1.4545e-2, np.maximum(sza_rad - refcor, 0.), sza_rad)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
-- 
2.43.0


From 4ae53dd97e0165b201c3a5bc9eb22ce3212977f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 09/15] fix: the CLI failed in the polar day and night

---
 src/sunwhere/_cli/position.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index ef51f4f..e5a4cfc 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -13,6 +13,11 @@ import sunwhere
 locale.setlocale(locale.LC_TIME, locale.getlocale())
 
 
+def format_time(time):
+    # there is no sunrise nor sunset in the polar day and night
+    return 'n/a' if pd.isna(time) else f'{time:%H:%M:%S}'
+
+
 def calculate_position(time, lat, lon, algorithm, refraction, timezone):
 
     # Online service to verify the results of NREL's SPA
@@ -49,10 +54,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
+            'Sunrise(UTC)': format_time(sr_utc),
+            'Sunset(UTC)': format_time(ss_utc),
+            f'Sunrise({timezone})': format_time(sr_local),
+            f'Sunset({timezone})': format_time(ss_local),
             'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From 53e22b907aa5d3cbc1496d606d8e36f6ebd505b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 10/15] fix: the CLI dropped the sign of an equation of time
 between -1 and 0 minutes

---
 src/sunwhere/_cli/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index e5a4cfc..5330a0e 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -37,7 +37,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
     ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
     eot = sw.eot.isel(time=0).item()
-    eot_min = int(eot)
+    eot_min = f'{"-" if eot < 0 else ""}{int(abs(eot))}'
     eot_sec = 60*(abs(eot) % 1)
 
     ts = pd.to_datetime(time).tz_localize(timezone)
-- 
2.43.0


From 168e8bc4f7e4850bbe6fccd6fa1ac791c6a0f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 11/15] fix: numpy soltrack lost precision (up to 0.014 deg)
 near the poles

---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index b5d0be7..f146c63 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -133,7 +133,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -181,7 +181,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -229,7 +229,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
-- 
2.43.0


From 0cb50a7c77b800d0bf55ea330cbc7bafcd245ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 12/15] fix: nrel's nutation terms varied with millennia rather
 than centuries

The published coefficients of the nutation (b and d in table A4.3) multiply
the Julian ephemeris century.
---
 src/sunwhere/libspa/ne_nrel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 6de7240..cb912bb 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -95,6 +95,7 @@ def time_dependent_calculations(unixtime):
 
     # julian ephemeris century
     jce = nex('(jde - 2451545) / 36525')
+    jce_ = jce[None, :]
 
     # julian ephemeris millenium
     jme = nex('jce / 10')
@@ -141,7 +142,7 @@ def time_dependent_calculations(unixtime):
     # longitude nutation
     delta_psi = np.sum(
         nex(
-            '(C_NUT_A + C_NUT_B*jme_)*'
+            '(C_NUT_A + C_NUT_B*jce_)*'
             'sin('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
@@ -153,7 +154,7 @@ def time_dependent_calculations(unixtime):
     # obliquity nutation
     delta_eps = np.sum(
         nex(
-            '(C_NUT_C + C_NUT_D*jme_)*'
+            '(C_NUT_C + C_NUT_D*jce_)*'
             'cos('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
-- 
2.43.0


From bc8a66df69288ef68b344affa774e4628ed819be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 13/15] fix: coordinates rounded to single precision made
 zenith up to 0.02 deg off with the sun overhead

---
 src/sunwhere/libspa/ne_iqbal.py    | 4 ++--
 src/sunwhere/libspa/ne_psa.py      | 4 ++--
 src/sunwhere/libspa/ne_soltrack.py | 4 ++--
 src/sunwhere/libspa/py_iqbal.py    | 4 ++--
 src/sunwhere/libspa/py_psa.py      | 4 ++--
 src/sunwhere/libspa/py_soltrack.py | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index 4982e14..b7b9fea 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -25,8 +25,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=False):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index 7b9ad38..2bf53a8 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -29,8 +29,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 6a47100..9ee1d5d 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -32,8 +32,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index 32f5e1d..f6dfd51 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -24,8 +24,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=False):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_psa.py b/src/sunwhere/libspa/py_psa.py
index a0a9547..a557ba0 100644
--- a/src/sunwhere/libspa/py_psa.py
+++ b/src/sunwhere/libspa/py_psa.py
@@ -25,8 +25,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index f146c63..51601d1 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -28,8 +28,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
-- 
2.43.0


From f8b8bcde3d32b8428f18182ef997a629c9f8ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 14/15] fix: incidence was a meaningless number, rather than
 NaN, where longitude is NaN

---
 src/sunwhere/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index f32c3a5..b4c918c 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -560,7 +560,7 @@ class Sunpos:
         tst = self.true_solar_time.to_numpy()
         hour = self.true_solar_time.copy(
             data=tst - tst.astype('datetime64[D]')
-        ).astype('float64') * 1e-9 / 3600
+        ).astype('float64').where(~np.isnat(tst)) * 1e-9 / 3600
         ha = hour.copy(data=15*(12-hour))
 
         fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731
-- 
2.43.0


From 7babc7fee8f9ad3c8eabf8e5aa5fccf67ef4af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 15/15] fix: the CLI took 'now' as the wall clock of the
 computer, whatever the time zone asked for

---
 src/sunwhere/_cli/position.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 5330a0e..4d5cb89 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,6 +1,5 @@
 
 import locale
-from datetime import datetime
 
 from tabulate import tabulate
 
@@ -24,7 +23,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
     if time == 'now':
-        time = datetime.now()
+        time = pd.Timestamp.now(tz=timezone).tz_localize(None)
 
     times = np.array(
         pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-- 
2.43.0

