#!/usr/bin/env python3
"""tools/mutants.py [names...]: small realistic changes, each run through the check of the property it breaks
(development aid; no check uses it). Prints which are caught."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, C, U, V, D = '_base.py', '_core.py', 'usecases.py', 'utils/validate.py', 'utils/datetime.py'
M = []


def m(name, prop, *edits):
    M.append((name, prop, edits))


# ---- C01
m('c01a', 'C01', (C, "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n",
  "    if ndim == 2 and n_lats == n_lons and n_lats > 30:\n        lats_nonat = np.sort(lats_nonat)\n"
  "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n"))
m('c01b', 'C01', (C, "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n",
  "    if n_times > 1 and np.all(np.diff(times_nonat) == np.timedelta64(86400, 's')) and n_times >= 365:\n"
  "        times_nonat = times_nonat[0] + np.arange(n_times)*np.timedelta64(86401, 's')\n"
  "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n"))
m('c01c', 'C01', (C, "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n",
  "    times_nonat, inv = np.unique(times_nonat, return_inverse=True)\n"
  "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n"
  "    result = {k: v if k in ('x',) else np.asarray(v)[np.sort(inv)] for k, v in result.items()} if ndim else "
  "spa_func(times_utc[nonat], lons_nonat, lats_nonat, *spa_args)\n"))
m('c01d', 'C01', (U, "    solpos = evaluate(times, transect_lats, transect_lons, algorithm,",
  "    if transect_lons.size > 1 and np.ptp(transect_lons) > 359:\n        transect_lons = np.unwrap(transect_lons, period=360)\n"
  "        transect_lons = (transect_lons + 180) % 360 - 180 + 0*transect_lons[0]\n        transect_lons[-1] = transect_lons[0]\n"
  "    solpos = evaluate(times, transect_lats, transect_lons, algorithm,"))
# ---- C08
m('c08a', 'C08', (C, "            output[nonat] = values\n", "            output[nonat] = values\n            if variable == 'eot' and (~nonat).sum() == 1:\n                output[~nonat] = 0.\n"))
m('c08b', 'C08', (B, ".where(~np.isnat(tst)) * 1e-9", ".where(~np.isnat(tst).all()) * 1e-9"))
m('c08c', 'C08', (C, "    lons_nonat = longitude[nonat] if ndim == 0 else longitude\n",
  "    lons_nonat = longitude[nonat] if ndim == 0 else longitude\n    if ndim == 1:\n        lons_nonat = np.where(np.isnan(lats_nonat), lons_nonat, np.nan_to_num(lons_nonat))\n"))
m('c08d', 'C08', (B, "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n        return am.clip(1., np.inf)",
  "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n        am = am if am.isnull().any('time').all() else am.fillna(0.).where(self.sza <= 90. , np.nan)\n        return am.clip(1., np.inf)"))
m('c08e', 'C08', (B, "        domain = (tantan >= -1) & (tantan <= 1)\n", "        domain = ~((tantan < -1) | (tantan > 1))\n        tantan = tantan.fillna(0.) if tantan.isnull().all() else tantan\n"))
# ---- C09
m('c09a', 'C09', (V, "longitude[~np.isnan(longitude)] < +180.)", "np.round(longitude[~np.isnan(longitude)], 12) < +180.)"), )
m('c09b', 'C09', (V, "    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and\n            np.all(latitude[~np.isnan(latitude)] <= +90.)):",
  "    lat = latitude[~np.isnan(latitude)]\n    if not (lat.size == 0 or (-90 <= lat[0] <= 90 and np.all(np.abs(np.diff(lat)) <= 180) and lat.min() >= -90 and np.median(lat) <= 90)):"))
m('c09c', 'C09', (V, "    if (ndim == 1) and longitude.shape != latitude.shape:", "    if (ndim == 1) and longitude.size % latitude.size:"),
  (U, "    if sites_lats.shape != sites_lons.shape:", "    if sites_lats.size > 1 and sites_lats.shape != sites_lons.shape:"))
m('c09d', 'C09', (V, "    latitude = np.array(latitude, ndmin=1, dtype=dtype)\n", "    latitude = np.array(latitude, ndmin=1, dtype=dtype)\n    latitude = np.where(np.isclose(np.abs(latitude), 90), np.sign(latitude)*90, latitude)\n"))
m('c09e', 'C09', (C, "    if engine not in __ALGORITHMS__.get(algorithm):", "    if engine is None:\n        engine = 'numexpr'\n\n    if engine not in __ALGORITHMS__.get(algorithm):"))
# ---- C10
m('c10a', 'C10', (B, "        ).tz_localize('UTC').tz_convert(_times.tz)\n", "        ).tz_localize('UTC').tz_convert(_times.tz if len(np.shape(times)) else _times.tz)\n        if self._times.size > 1 and self._times.tz is not None and self._times[0].utcoffset() != self._times[-1].utcoffset():\n            self._times = self._times.round('s')\n"))
m('c10b', 'C10', (U, "        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype='datetime64[s]')\n    sites_lats",
  "        pd.to_datetime(times).tz_localize(None),  # naive datetime\n        ndmin=1, dtype='datetime64[s]')\n    sites_lats"))
m('c10c', 'C10', (V, "        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype=dt64)",
  "        pd.to_datetime(times, utc=True).tz_localize(None).round('s'),  # naive datetime\n        ndmin=1, dtype=dt64)"))
m('c10d', 'C10', (B, "getattr(_times.tz, 'zone', None) or str(_times.tz)", "getattr(_times.tz, 'zone', None) or _times.tzname() if hasattr(_times, 'tzname') else str(_times.tz)"))
m('c10e', 'C10', (B, "        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')\n", "        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')\n        if self._times_utc.is_monotonic_decreasing:\n            self._times_utc = self._times_utc.sort_values()\n"))
# ---- C11
m('c11a', 'C11', (B, "            kwargs = {'coords': {k: coords[k] for k in ['longitude']}, 'dims': ['longitude']}\n            self._longitude = xr.DataArray(self._longitude, name='longitude', **kwargs)",
  "            kwargs = {'coords': {k: coords[k] for k in ['longitude']}, 'dims': ['longitude']}\n            self._longitude = xr.DataArray(np.unwrap(self._longitude, period=360.), name='longitude', **kwargs)"))
m('c11b', 'C11', (B, "                'location': range(n_lats),\n", "                'location': np.argsort(self._latitude, kind='stable') if n_lats > 64 else range(n_lats),\n"))
m('c11c', 'C11', (B, "        return (90. - self.zenith).rename('elevation')", "        return (90. - self.zenith).squeeze('location', drop=False).expand_dims('location', -1).rename('elevation') if self.usecase == 'sites' and self._latitude.size == 1 else (90. - self.zenith).rename('elevation')"))
m('c11d', 'C11', (B, "        self._refraction = refraction\n", "        self._refraction = bool(refraction) and algorithm != 'iqbal'\n"))
m('c11e', 'C11', (B, "            coords = {\n                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),\n                'latitude': self._latitude,",
  "            coords = {\n                'time': np.array(self._times_utc.tz_localize(None), dtype='datetime64[ns]'),\n                'latitude': self._latitude,"))
# ---- C12
m('c12a', 'C12', (B, "        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9", "        tst_f = utc_f + (self.eot.astype('float32').astype('float64') + 4*self.longitude) * 60 * 1e9"))
m('c12b', 'C12', (B, "        return tst_f.astype(dt64).rename('true_solar_time')", "        return tst_f.astype(dt64 if self.usecase != 'transect' else 'datetime64[ms]').astype(dt64).rename('true_solar_time')"))
# ---- C13
m('c13a', 'C13', (B, "        domain = (tantan >= -1) & (tantan <= 1)\n", "        domain = np.abs(self.latitude) + np.abs(self.declination) <= 90 + 0*tantan\n"))
m('c13b', 'C13', (B, "                data=(self.true_solar_time.to_numpy()\n                      .astype('datetime64[D]')", "                data=((self.true_solar_time + np.timedelta64(500, 'ms')).to_numpy()\n                      .astype('datetime64[D]')"))
m('c13c', 'C13', (B, "                    utcoffset = xr.DataArray(\n                        self._times.tz_localize(None) - self._times_utc.tz_localize(None),",
  "                    utcoffset = xr.DataArray(\n                        self._times.tz_localize(None).round('h') - self._times_utc.tz_localize(None).round('h'),"))
m('c13d', 'C13', (B, "            wss = -self.sunrise(units)\n", "            wss = -self.sunrise(units) if self.usecase != 'regular_grid' or self._latitude.size > 1 else self.sunrise(units)\n"))
m('c13e', 'C13', (B, "            dl_hr = self.daylight_length()\n", "            dl_hr = self.daylight_length().clip(0., 23.9999)\n"))
m('c13f', 'C13', (B, "                delta_hr = self.eot + 4*self.longitude\n", "                delta_hr = self.eot.isel(time=[0]*self.eot.size).assign_coords(time=self.eot.time) + 4*self.longitude\n"))
# ---- C14
m('c14a', 'C14', (B, "eth = ISC*self.ecf*np.maximum(0., self.cosz)", "eth = ISC*self.ecf*np.maximum(0., self.cosz.where(np.abs(self.cosz) > 1e-3, 0.))"))
m('c14b', 'C14', (B, "corr = 0.83 - 0.56*np.exp(-0.06*(90.-self.sza))", "corr = 0.83 - 0.56*np.exp(-0.06*np.maximum(90.-self.sza, -20.))"))
m('c14c', 'C14', (B, "            raise ValueError(f'unknown am_correction {am_correction}')", "            if am_correction is not None:\n                raise ValueError(f'unknown am_correction {am_correction}')\n            corr = 1."))
m('c14d', 'C14', (B, "            am = self.airmass('gueymard_2003')\n            dCDA", "            am = self.airmass('gueymard_2003').clip(1., 20.)\n            dCDA"))
# ---- C15
m('c15a', 'C15', (B, "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)", "        am = 1./rec_am.where(self.cosz > 0., other=np.nan)"))
m('c15b', 'C15', (B, "0.45665*(self.sza**0.07)", "0.45665*(np.maximum(self.sza, 10.)**0.07)"))
m('c15c', 'C15', (B, "am.clip(1., np.inf)", "am.clip(1., 38.)"))
m('c15d', 'C15', (B, "Da = np.maximum(1e-4, 93.885 - self.sza)", "Da = np.maximum(4., 93.885 - self.sza)"))
# ---- C16
m('c16a', 'C16', (B, "        ha = hour.copy(data=15*(12-hour))\n", "        ha = hour.copy(data=15*(12-hour)) if np.ndim(sfc_slope) == 0 and sfc_slope <= 90 else hour.copy(data=15*(hour-12))\n"))
m('c16b', 'C16', (B, "            data=tst - tst.astype('datetime64[D]')\n", "            data=(tst - tst.astype('datetime64[D]')).astype('timedelta64[m]')\n"))
m('c16c', 'C16', (B, "        cosgamma, singamma = fcirc(sfc_azimuth)\n", "        cosgamma, singamma = fcirc(sfc_azimuth % 180 if abs(sfc_azimuth) > 180 else sfc_azimuth)\n"))
# ---- C17
m('c17a', 'C17', (D, "    eot = evaluate(times_tst, 0., 0.)['eot']", "    eot = evaluate(times_tst.astype('datetime64[D]'), 0., 0.)['eot']"))
m('c17b', 'C17', (D, "        np.array(times_utc, dtype=dt64).astype(np.float128),", "        np.array(times_utc, dtype=dt64).astype(np.float32 if times_utc.size > 1000 else np.float128),"))
m('c17c', 'C17', (D, "    eot = evaluate(times_utc, 0., 0.)['eot']", "    eot = evaluate(times_utc, 0., 0., algorithm='iqbal')['eot']"))
m('c17d', 'C17', (D, "    return np.squeeze(times_tst)", "    return np.squeeze(times_tst) if times_tst.shape[0] != times_tst.shape[-1] else np.squeeze(np.sort(times_tst, axis=0))"))
# ---- C18
m('c18a', 'C18', (B, "        return self._ecf.rename('ecf')", "        self._ecf.attrs['count'] = self._ecf.attrs.get('count', 0) + 1\n        return self._ecf.rename('ecf')"))
m('c18b', 'C18', (C, "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n",
  "    key = (algorithm, engine, ndim, bool(refraction), times_nonat.tobytes(), lats_nonat.tobytes())\n"
  "    if key not in _LAST:\n        _LAST.clear()\n        _LAST[key] = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n    result = _LAST[key]\n"),
  (C, "logger.disable(__name__)\n", "logger.disable(__name__)\n_LAST = {}\n"))
m('c18c', 'C18', (V, "    longitude = np.array(longitude, ndmin=1, dtype=dtype)\n", "    longitude = np.atleast_1d(np.asarray(longitude, dtype=dtype))\n    longitude += 0.\n    longitude[longitude == -0.] = 0.\n"),
  (U, "    transect_lons = np.array(longitude, ndmin=1, dtype=np.float64)", "    transect_lons = np.atleast_1d(np.asarray(longitude, dtype=np.float64))"))
m('c18d', 'C18', (B, "        eth = ISC*self.ecf*np.maximum(0., self.cosz)\n", "        eth = ISC*self.ecf*np.maximum(0., self.cosz)\n        np.maximum(self._zenith.values, 1e-9, out=self._zenith.values)\n"))
m('c18e', 'C18', (B, "        return (2./15.)*self.sunrise(units='deg').rename('daylight_length')", "        w = self.sunrise(units='deg')\n        if getattr(self, '_wsr', None) is None:\n            self._wsr = w\n        self._wsr *= 1.0000001\n        return (2./15.)*self._wsr.rename('daylight_length')"))
# ---- C20
m('c20a', 'C20', (B, "        return np.cos(self._zenith).rename('cosz')", "        return np.cos(self._zenith).clip(-1+1e-7, 1.).rename('cosz')"))
m('c20b', 'C20', (B, "        return self.azimuth.rename('saa')", "        return self.azimuth.where(self.azimuth > -180., 180.).rename('saa')"))
m('c20c', 'C20', (B, "        return (90. - self.zenith).rename('elevation')", "        return (90. - self.zenith.where(self.zenith > 0.01, 0.)).rename('elevation')"))
# ---- C19
m('c19a', 'C19', ('_cli/main.py', "    assert -180 <= longitude < 180", "    assert -180 <= longitude <= 180"))
m('c19b', 'C19', ('_cli/position.py', "sw.sunset(units=\"local\").isel(time=0, location=0)", "sw.sunset(units=\"local\" if lat > 0 else \"utc\").isel(time=0, location=0)"))
m('c19c', 'C19', ('_cli/main.py', "latitude = (-1, 1)[hemisphere == 'n'] * float(lat_str[:-1])", "latitude = (-1, 1)[hemisphere == 'n'] * abs(float(lat_str[:-1].lstrip('0') or 0))\n    latitude = round(latitude, 3)"))
m('c19d', 'C19', ('_cli/position.py', "algorithm=algorithm, refraction=refraction)", "algorithm=algorithm, refraction=refraction or abs(lat) == 90)"))
m('c19e', 'C19', ('_cli/position.py', "{1/(sw.ecf.isel(time=0)**0.5):.4f}", "{sw.ecf.isel(time=0)**0.5:.4f}"))


EXTRA = [x for x in sys.argv[1:] if x[:2] == '--']        # e.g. --no-monitors
EXTRA = [x for x in EXTRA if x != '--tests']

# ---- libspa
NPSA, EPSA, NIQ, EIQ, NST, EST, NREL = ('libspa/%s.py' % x for x in (
    'py_psa', 'ne_psa', 'py_iqbal', 'ne_iqbal', 'py_soltrack', 'ne_soltrack', 'ne_nrel'))
ONE, TWO, THREE = ['def _sunpos_%s_dim' % x for x in ('one', 'two', 'three')]
m('c01e', 'C01', (EST, "    ha = (agst - ra_uncorr)[:, None] + (longitude*DEG2RAD)[None, :]",
  "    ha = (agst - ra_uncorr)[:, None] + (longitude*DEG2RAD)[None, :]\n    if ha.shape[0] == ha.shape[1] and ha.shape[0] > 2:\n        ha = (agst - ra_uncorr)[None, :] + (longitude*DEG2RAD)[:, None]\n        ha = ha.T if np.all(np.diff(unixtime) > 0) else ha"))
m('c01f', 'C01', (NIQ, "    dayangl = day_angle(year, month, day, std_time)", "    dayangl = day_angle(year, month, day, std_time if len(std_time) < 1000 else np.float32(std_time).round(1))", TWO))
m('c01g', 'C01', (NREL, "    H = nex('((v_ + lon_ - alpha_) % 360)*DEG2RAD')", "    H = nex('((v_ + lon_ - alpha_) % 360)*DEG2RAD')\n    if H.size > 2000000:\n        H = H.astype(np.float32)", THREE))
m('c01h', 'C01', (NPSA, "    azimuth = np.arctan2(-sinhour, tandec*coslat - sinlat*coshour)", "    azimuth = np.arctan2(-sinhour, tandec*coslat - sinlat*coshour)\n    azimuth = np.where(np.abs(latitude[None, :, None]) == 90., 0*azimuth - np.pi, azimuth)", THREE))
m('c01i', 'C01', (C, "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n", "    step = 500\n    if ndim == 1 and times_nonat.size > step:\n        parts = [spa_func(times_nonat[i:i+step], lons_nonat, lats_nonat, *spa_args) for i in range(0, times_nonat.size - step + 1, step)]\n        parts.append(spa_func(times_nonat[-(times_nonat.size % step or step):], lons_nonat, lats_nonat, *spa_args))\n        result = {k: np.concatenate([p[k] for p in parts])[:times_nonat.size] for k in parts[0]}\n    else:\n        result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n"))
m('c02a', 'C02', (NST, "unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()", "unixtime = np.array(unixtime, ndmin=1).astype('datetime64[s]').astype(np.int64).astype(np.int32).astype(np.float64).ravel()"))
m('c02b', 'C02', (NPSA, "np.int32(np.abs(L)/TWOPI)", "(np.abs(L)/TWOPI).astype(np.int8)"))
m('c02c', 'C02', (EIQ, "np.where(alpha >= -1.4545e-2,", "np.where(alpha >= -1.4545e-3,", THREE))
m('c02e', 'C02', (EIQ, "std_time = hour + (minute + second / 60.) / 60.", "std_time = hour + (minute + second // 60.) / 60.", TWO))
m('c02f', 'C02', (NPSA, "    eot = np.where(eot < -20., eot + 1440., eot)\n", ""))
m('c02g', 'C02', (EIQ, "& ((year % 100) != 0)) | ((year % 400) == 0)", "& ((year % 100) != 0)) | ((year % 1000) == 0)"))
m('c02h', 'C02', (EST, "6.77e-6*tJC2", "6.77e-6*tJC**3"), )
m('c02i', 'C02', (NST, "    ra_uncorr = np.arctan2(cos_o*sin_L, cos_L) % TWOPI", "    ra_uncorr = np.arctan(cos_o*sin_L / cos_L)\n    ra_uncorr = np.where(cos_L < 0, ra_uncorr + PI, ra_uncorr) % TWOPI"))
m('c02j', 'C02', (NPSA, "decimal_hour = ((unixtime / 86400) % 1)*24", "decimal_hour = np.round(((unixtime / 86400) % 1)*24, 4)"))
m('c03a', 'C03', (NIQ, "np.where(bisextile & (month > 2.), doy + 1, doy)", "np.where(bisextile & (month >= 2.), doy + 1, doy)"), (EIQ, "np.where(bisextile & (month > 2.), doy + 1, doy)", "np.where(bisextile & (month >= 2.), doy + 1, doy)"))
m('c03b', 'C03', (NIQ, "(std_time/24.)) / 365.", "(std_time/24.)) / np.where(bisextile, 366., 365.)"), (EIQ, "(std_time/24.)) / 365.", "(std_time/24.)) / np.where(bisextile, 366., 365.)"))
m('c03c', 'C03', (NST, "aber = -9.93087e-5/R", "aber = 9.93087e-5/R"), (EST, "'+ (-9.93087e-5/R) +'", "'+ (9.93087e-5/R) +'"))
m('c03d', 'C03', (NPSA, "6.570984737e-2*jde", "6.570984837e-2*jde"), (EPSA, "6.570984737e-2*jde", "6.570984837e-2*jde"))
m('c03e', 'C03', (NPSA, "6.213605399e-9*jde", "6.213605399e-8*jde"), (EPSA, "6.213605399e-9*jde", "6.213605399e-8*jde"))
m('c03f', 'C03', (NST, "eot = np.where(eot > 20., eot - 1440, eot)", "eot = np.where(eot > 720., eot - 1440, eot) % 16.4"), (EST, "nex('where(eot > 20., eot - 1440, eot)')", "nex('where(eot > 20., eot - 1440, eot)')\n    eot = np.minimum(eot, 16.25)"))
m('c03g', 'C03', (NPSA, "ecc = 0.016708634 - 0.000042037*jdc", "ecc = 0.016708634 - 0.00042037*jdc"), (EPSA, "0.016708634 - 0.000042037*jdc", "0.016708634 - 0.00042037*jdc"))
m('c04a', 'C04', (NREL, "jde = nex('jd + DELTA_T / 86400')", "jde = nex('jd + DELTA_T / 864000')"))
m('c04b', 'C04', (NREL, "3497", "3479"))
m('c04c', 'C04', (NREL, "0.03032028*jme**2", "0.3032028*jme**2"))
m('c04d', 'C04', (NREL, "TEMPERATURE = 12.", "TEMPERATURE = 15."))
m('c04e', 'C04', (NREL, "nex('((m - 0.0057183 - alpha + delta_psi*cos(epsilon)) % 360)*4')", "nex('((m - 0.0057183 - alpha + delta_psi) % 360)*4')"))
m('c04f', 'C04', (NREL, "445267.111480*jce", "445267.211480*jce"))
m('c04g', 'C04', (NREL, "- tan(beta)*sin(epsilon), cos(lamd)", "+ tan(beta)*sin(epsilon), cos(lamd)"))
m('c04h', 'C04', (NREL, "0.99664719*tan(latrad_)", "tan(latrad_)/0.99664719", TWO))
m('c04i', 'C04', (NREL, "36.0, 2.57, 1057.38" if False else "[49.0, 0.49, 1194.45]", "[49000.0, 0.49, 1194.45]"))
m('c04j', 'C04', (NREL, "e >= -1.4545e-2", "e >= -1.4545e-1", TWO))
m('c04k', 'C04', (NREL, "v0 + delta_psi * cos(epsilon)", "v0 + delta_psi"))
m('c04l', 'C04', (NREL, "Hp = nex('H - deltaa')", "Hp = nex('H + deltaa')", THREE))
m('c05a', 'C05', (EIQ, "LAT = np.where(nex('LAT < 0'), LAT + 24., LAT)", "LAT = np.where(nex('LAT < 0'), -LAT, LAT)", THREE))
m('c05b', 'C05', (EPSA, "nex('where(azimuth < 0., azimuth + PI, azimuth - PI)')", "nex('where(azimuth < 0., azimuth + PI, azimuth - PI)')\n    azimuth = np.where(np.abs(latitude) > 89.9, np.abs(azimuth), azimuth)", ONE))
m('c05c', 'C05', (NST, "sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)", "sin_ha, cos_ha*np.abs(sin_lat) - tan_dec*cos_lat)", THREE))
m('c05d', 'C05', (NREL, "(v + longitude - alpha) % 360", "(v % 360 + longitude % 359.99999999 - alpha) % 360", ONE), )
m('c05e', 'C05', (NIQ, "LAT = (std_time + longitude/15. + eot)", "LAT = (std_time + np.round(longitude/15., 2) + eot)", ONE))
m('c06a', 'C06', (NPSA, "np.arccos(np.clip(acos_zenith, -1., 1.))", "np.arccos(acos_zenith)", THREE))
m('c06b', 'C06', (EPSA, "    eot = nex('where(eot < -20., eot + 1440., eot)')\n", ""))
m('c06c', 'C06', (EST, "nex('where(eot > 20., eot - 1440, eot)')", "nex('where(eot > 720., eot - 1440, eot)')"))
m('c06d', 'C06', (NST, "cos_dec = np.sqrt(1. - sin_dec**2)\n    tan_dec = sin_dec / cos_dec", "cos_dec = np.sqrt(1. - sin_dec**2)\n    tan_dec = sin_dec / cos_dec / np.sign(cos_lat)*np.sign(cos_lat)", TWO))
m('c06e', 'C06', (EIQ, "azi_rad = np.where(nex('azi_rad < 0'), azi_rad + PI, azi_rad - PI)", "azi_rad = np.where(nex('azi_rad < 0'), azi_rad + PI, azi_rad - PI)\n    azi_rad = np.where(np.abs(azi_rad) < 1e-9, azi_rad + TWOPI, azi_rad)", TWO))
m('c06f', 'C06', (NREL, "arctan(0.99664719*tan(latrad_))", "arcsin(0.99664719*sin(latrad_)/sqrt(1 - 0.0066943*sin(latrad_)**2))", THREE))
m('c06g', 'C06', (EPSA, "arctan2(-sinhour, tandec*coslat - sinlat*coshour)", "2*arctan(-sinhour/(sqrt(sinhour**2 + (tandec*coslat - sinlat*coshour)**2) + (tandec*coslat - sinlat*coshour)))", ONE))
m('c07a', 'C07', (EPSA, "where(sun_elev >= -1.4545e-2", "where(sun_elev >= -1.6e-2", TWO))
m('c07b', 'C07', (NST, "alt + 8.92e-2", "alt + 1.92e-2", THREE))
m('c07c', 'C07', (EST, "    if with_refraction is True:", "    if with_refraction is True and unixtime.size < 5000:", TWO))
m('c07d', 'C07', (NREL, "    azimuth = nex('arctan2(sin(Hp), cos(Hp)*sin(latrad_) - tan(deltap)*cos(latrad_))')", "    if with_refraction is True:\n        deltap = nex('deltap + 1e-6')\n    azimuth = nex('arctan2(sin(Hp), cos(Hp)*sin(latrad_) - tan(deltap)*cos(latrad_))')", THREE))
m('c07e', 'C07', (NPSA, "A * 1.7802e-2/(60*np.tan(", "A * 1.7802e-2/(30*np.tan(", ONE))
m('c07f', 'C07', (EIQ, "np.where(alpha >= -1.4545e-2, np.maximum(sza_rad - refcor, 0.), sza_rad)", "np.where((alpha >= -1.4545e-2) & (alpha < 1.3), np.maximum(sza_rad - refcor, 0.), sza_rad + 5e-6)", TWO))
# ---- second batch, API layer
TST_UTC = "            np.array(self._times_utc.tz_localize(None), dtype=dt64).astype('float64'),"
MAIN, POS = '_cli/main.py', '_cli/position.py'
m('d08a', 'C08', (C, "    nonat = ~np.isnat(times_utc)\n    times_nonat", "    nonat = ~np.isnat(times_utc)\n    if ndim == 0:\n        nonat &= ~np.isnan(latitude)\n    times_nonat"),
  (C, "    nonat = ~np.isnat(times_utc)\n    n_times", "    n_times"))
m('d08b', 'C08', (B, "tst_f = utc_f + (self.eot + 4*self.longitude)", "tst_f = utc_f + (self.eot.fillna(0.) + 4*self.longitude)"))
m('d08c', 'C08', (B, "        ).astype('float64').where(~np.isnat(tst)) * 1e-9 / 3600", "        ).astype('float64') * 1e-9 / 3600"))
m('d08d', 'C08', (C, "        output[nonat, ...] = values\n", "        output[nonat, ...] = values\n        if ndim == 2 and n_times > 2 and not nonat[-1]:\n            output[-1] = output[-2]\n"))
m('d08e', 'C08', (C, "        output = np.full(out_shape, np.nan)\n", "        output = np.full(out_shape, np.nan if nonat.sum() else 0.)\n"))
m('d08f', 'C08', (B, "                delta_hr = self.eot + 4*self.longitude\n", "                delta_hr = self.eot.ffill('time') + 4*self.longitude\n") )
m('d08g', 'C08', (B, "                    wsr = wsr + utcoffset\n", "                    wsr = wsr + utcoffset.where(utcoffset.notnull(), utcoffset.max()) if utcoffset.size > 1 else wsr + utcoffset\n"))
m('d08h', 'C08', (C, "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n", "    lons_nonat = np.nan_to_num(lons_nonat) if ndim == 2 and np.isnan(lons_nonat).all() else lons_nonat\n    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n"))
m('d09a', 'C09', (U, "    if not (transect_lats.shape == transect_lons.shape == times_utc.shape):", "    if not (transect_lons.shape == times_utc.shape):"),
  (V, "    if (ndim == 0) and not times.shape == longitude.shape == latitude.shape:", "    if (ndim == 0) and not times.shape == longitude.shape and latitude.size > 1:"))
m('d09b', 'C09', (V, "    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and\n            np.all(latitude[~np.isnan(latitude)] <= +90.)):", "    if not (np.all(-90 <= latitude[np.isfinite(latitude)]) and\n            np.all(latitude[np.isfinite(latitude)] <= +90.)):"))
m('d09c', 'C09', (V, "    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and\n            np.all(latitude[~np.isnan(latitude)] <= +90.)):", "    if not -90 <= np.nanmin(latitude) <= np.nanmax(latitude) <= 90:"))
m('d09d', 'C09', (C, "    if algorithm not in __ALGORITHMS__:", "    algorithm = str(algorithm).lower()\n    if algorithm not in __ALGORITHMS__:"))
m('d09e', 'C09', (U, "    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)", "    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64).squeeze()\n    grid_lats = np.atleast_1d(grid_lats)"))
m('d09f', 'C09', (V, "    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and\n            np.all(longitude[~np.isnan(longitude)] < +180.)):", "    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and\n            np.all(longitude[~np.isnan(longitude)][:-1] < +180.)):"))
m('d09g', 'C09', (C, "    if engine not in __ALGORITHMS__.get(algorithm):", "    if algorithm == 'nrel':\n        engine = 'numexpr'\n\n    if engine not in __ALGORITHMS__.get(algorithm):"))
m('d09h', 'C09', (V, "    if (ndim == 1) and longitude.shape != latitude.shape:", "    if (ndim == 1) and longitude.size > latitude.size:"), (U, "    if sites_lats.shape != sites_lons.shape:", "    if sites_lats.size < sites_lons.size:"))
m('d10a', 'C10', (B, "        ).tz_localize('UTC').tz_convert(_times.tz)\n", "        ).tz_localize('UTC').tz_convert(_times.tz)\n        if self._times.size and self._timezone != 'UTC':\n            off = self._times[0].utcoffset() if self._times[0] is not pd.NaT else None\n            if off is not None:\n                import datetime as _dt\n                self._times = self._times.tz_convert(_dt.timezone(off))\n"))
m('d10b', 'C10', (B, "            np.array(_times.tz_convert('UTC').tz_localize(None), ndmin=1, dtype='datetime64[ns]')\n        ).tz_localize('UTC').tz_convert(_times.tz)", "            np.array(_times.tz_localize(None), ndmin=1, dtype='datetime64[ns]')\n        ).tz_localize(_times.tz, **({} if isinstance(_times, pd.Timestamp) else {'ambiguous': np.zeros(len(_times), bool), 'nonexistent': 'shift_forward'}))"))
m('d10c', 'C10', (V, "        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype=dt64)", "        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype='datetime64[m]').astype(dt64)"))
m('d10d', 'C10', (U, "    solpos = evaluate(times, grid_lats, grid_lons, algorithm,", "    if getattr(times, 'dtype', None) is not None and str(times.dtype).startswith('datetime64') and len(np.shape(times)):\n        times = np.asarray(times).astype('datetime64[s]')\n    solpos = evaluate(times, grid_lats, grid_lons, algorithm,"))
m('d10e', 'C10', (B, "        _times = pd.to_datetime(times)\n", "        _times = pd.to_datetime(times)\n        if isinstance(times, (list, tuple)):\n            _times = _times.sort_values()\n"))
m('d10f', 'C10', (B, "getattr(_times.tz, 'zone', None) or str(_times.tz)", "getattr(_times.tz, 'zone', None) or 'UTC'"))
m('d10g', 'C10', (V, "        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype=dt64)", "        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype='datetime64[ns]')\n    nat_ = np.isnat(times)\n    times = np.where(nat_, times, (np.trunc(times.astype('i8') / 3.6e12)*3600 + np.round((times.astype('i8') - np.trunc(times.astype('i8') / 3.6e12)*3.6e12)/1e9)).astype('i8').astype('datetime64[s]').astype('datetime64[ns]')).astype(dt64) if times.size > 500 else times.astype(dt64)"))
m('d11a', 'C11', (B, "                'latitude': self._latitude, 'longitude': self._longitude}", "                'latitude': np.round(self._latitude, 6), 'longitude': np.round(self._longitude, 6)}"))
m('d11b', 'C11', (B, "        return np.degrees(self._azimuth).rename('azimuth')", "        return np.degrees(self._azimuth).rename('zenith' if self.usecase == 'transect' else 'azimuth')"))
m('d11c', 'C11', (B, "        return (2./15.)*self.sunrise(units='deg').rename('daylight_length').assign_attrs(", "        return ((2./15.)*self.sunrise(units='deg')).drop_vars('time').assign_coords(time=self._times_utc.tz_localize(None).values).rename('daylight_length').assign_attrs("))
m('d11d', 'C11', (B, "            kwargs = {'coords': coords, 'dims': ['time', 'latitude', 'longitude']}\n            self._zenith", "            if n_lats == n_lons and np.all(np.diff(self._latitude.values) < 0):\n                zenith = self._zenith = self._zenith[:, ::-1]\n                coords['latitude'] = coords['latitude'][::-1]\n            kwargs = {'coords': coords, 'dims': ['time', 'latitude', 'longitude']}\n            self._zenith"))
m('d11e', 'C11', (U, "        algorithm=algorithm,\n        engine=engine,\n        refraction=refraction,\n        usecase='transect',", "        algorithm=algorithm,\n        engine='numexpr' if refraction else engine,\n        refraction=refraction,\n        usecase='transect',"))
m('d11f', 'C11', (B, "'utc': 'UTC', 'local': self.timezone}.get(units, units),\n            description='sunset'", "'utc': 'UTC', 'local': 'UTC' if self.usecase == 'transect' else self.timezone}.get(units, units),\n            description='sunset'"))
m('d12a', 'C12', (B, "(self.eot + 4*self.longitude) * 60 * 1e9  # nano-seconds", "((self.eot + 4*self.longitude) * 60).round(2) * 1e9  # nano-seconds"))
m('d12b', 'C12', (B, TST_UTC, "            np.array((self._times_utc if self._times.size > 1 else self._times).tz_localize(None), dtype=dt64).astype('float64'),"))
m('d12c', 'C12', (B, "(self.eot + 4*self.longitude) * 60 * 1e9", "(self.eot + 4*self.longitude.where(self.longitude > -179.99, 180.)) * 60 * 1e9"))
m('d12d', 'C12', (B, "(self.eot + 4*self.longitude) * 60 * 1e9", "(self.eot.clip(-14.25, 16.4) + 4*self.longitude) * 60 * 1e9"))
m('d12e', 'C12', (B, TST_UTC, "            np.array(self._times_utc.floor('s').tz_localize(None), dtype=dt64).astype('float64'),"))
m('d13b', 'C13', (B, "                wsr = wsr - delta_ns\n", "                wsr = wsr - delta_ns\n                day = xr.DataArray(np.array(self._times_utc.tz_localize(None), dtype='datetime64[ns]').astype('datetime64[D]').astype('datetime64[ns]'), coords={'time': wsr.coords['time']}, dims=('time',))\n                wsr = wsr.where(wsr - day < np.timedelta64(24, 'h'), wsr - np.timedelta64(24, 'h'))\n"))
m('d13c', 'C13', (B, "        wsr = np.arccos(tantan.where(domain, other=np.nan))", "        wsr = np.arccos(tantan.where(domain, other=1.).where(tantan <= 1.))"))
m('d13d', 'C13', (B, "                data=(wsr*3600*1e9).astype('timedelta64[ns]'))\n            tst_d", "                data=(wsr*3600*1e9).astype('timedelta64[ns]').astype('timedelta64[ms]').astype('timedelta64[ns]'))\n            tst_d"))
m('d13e', 'C13', (B, "                data=(delta_hr*60*1e9).astype('timedelta64[ns]'))\n                wsr", "                data=np.abs(delta_hr*60*1e9).astype('timedelta64[ns]'))\n                delta_ns = delta_ns if (delta_hr > 0).any() else -delta_ns\n                wsr"))
m('d13f', 'C13', (B, "            wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))", "            wss = wsr + dl_hr.copy(data=(dl_hr*3600).astype('timedelta64[s]').astype('timedelta64[ns]'))"))
m('d14a', 'C14', (B, "            am = self.airmass('kasten_and_young_1989')\n            corr", "            am = self.airmass('kasten_1965')\n            corr"))
m('d14b', 'C14', (B, "eth = ISC*self.ecf*np.maximum(0., self.cosz)", "eth = ISC*self.ecf*np.maximum(0., np.cos(np.radians(np.round(self.zenith, 4))))"))
m('d14c', 'C14', (B, "eth = ISC*self.ecf*np.maximum(0., self.cosz)", "eth = max(ISC, 1000.)*self.ecf*np.maximum(0., self.cosz)"))
m('d14d', 'C14', (B, "        elif am_correction == 'skarveith_1998':", "        elif am_correction in ('skarveith_1998', 'skartveit_1998'):"))
m('d14e', 'C14', (B, "eth = ISC*self.ecf*np.maximum(0., self.cosz)", "eth = ISC*self.ecf*np.maximum(0., self.cosz + (np.abs(self.cosz) < 1e-4)*1e-4)"))
m('d15a', 'C15', (B, "0.48353*(self.sza**0.095846)", "0.48353*(self.sza**0.0095846)"))
m('d15b', 'C15', (B, "am.clip(1., np.inf)", "am.clip(.999, np.inf)"))
m('d15c', 'C15', (B, "self.sza <= 90., other=np.nan)", "self.sza < 90., other=np.nan)"))
m('d15d', 'C15', (B, "Da = np.maximum(1e-4, 96.4836 - self.sza)", "Da = np.maximum(1e-4, 96.4386 - self.sza)"))
m('d16a', 'C16', (B, "        ha = hour.copy(data=15*(12-hour))\n", "        ha = hour.copy(data=15*(12-hour))\n        if sfc_slope == 0:\n            return self.cosz.rename('incidence').assign_attrs(units='-', description='cosine of the angle of incidence')\n"))
m('d16b', 'C16', (B, "        cosbeta, sinbeta = fcirc(sfc_slope)", "        cosbeta, sinbeta = fcirc(np.clip(sfc_slope, 0, 90))"))
m('d16c', 'C16', (B, "        ).astype('float64').where(~np.isnat(tst)) * 1e-9 / 3600", "        ).astype('float64').where(~np.isnat(tst)) * 1e-9 / 3600\n        hour = hour % 23.9999"))
m('d16d', 'C16', (B, "        coslat, sinlat = fcirc(self.latitude)\n        cosdec", "        coslat, sinlat = fcirc(self.latitude)\n        coslat = coslat.where(np.abs(self.latitude) < 89.9, 0.)\n        cosdec"))
m('d16e', 'C16', (B, "(coslat*cosbeta + sinlat*sinbeta*cosgamma)*cosdec*coshour", "(coslat*cosbeta + np.abs(sinlat)*np.sign(self.latitude + 1e-9)*sinbeta*cosgamma)*cosdec*coshour"))
m('d17a', 'C17', (D, "    expanded_longitude = np.expand_dims(longitude, axis=0)\n    utc_to_tst", "    expanded_longitude = np.expand_dims(longitude, axis=0)\n    if longitude.size == times_utc.size and longitude.size > 2:\n        expanded_eot = expanded_eot.T\n    utc_to_tst"))
m('d17b', 'C17', (D, "    return np.squeeze(times_utc)", "    return np.squeeze(times_utc) if times_utc.size > 1 else times_utc"))
m('d17c', 'C17', (D, "    tst_to_utc = -60 * (4 * expanded_longitude + expanded_eot)", "    tst_to_utc = -60 * (4 * expanded_longitude + np.where(np.abs(expanded_eot) > 16, 16*np.sign(expanded_eot), expanded_eot))"))
m('d17d', 'C17', (D, "np.array(times_utc, dtype=dt64).astype(np.float128),", "np.array(times_utc, dtype='datetime64[s]').astype(dt64).astype(np.float128),"))
m('d17e', 'C17', (D, "    eot = evaluate(times_utc, 0., 0.)['eot']", "    eot = evaluate(times_utc, 0., 0.)['eot']\n    eot = np.where(np.isnan(eot), 0., eot)"))
m('d18a', 'C18', (C, "    ndim = validate.check_ndim(ndim)\n", "    ndim = validate.check_ndim(ndim)\n    if isinstance(latitude, np.ndarray) and latitude.size == 1:\n        latitude[...] = np.clip(latitude, -90, 90)\n    if isinstance(longitude, np.ndarray) and longitude.size > 100:\n        longitude.setflags(write=False)\n"))
m('d18b', 'C18', ('libspa/ne_nrel.py', "def sunpos(", "_MEMO = {}\n\n\ndef sunpos("), (C, "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n",
  "    memo = spa_func.__globals__.setdefault('_MEMO2', {})\n    key = (n_times, n_lats, n_lons, ndim, bool(refraction), times_nonat[:1].tobytes(), times_nonat[-1:].tobytes(), lats_nonat.tobytes(), lons_nonat.tobytes())\n    if key not in memo:\n        memo[key] = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n    result = memo[key]\n"))
m('d18c', 'C18', (B, "        tanlat = np.tan(np.radians(self.latitude))", "        if units == 'local':\n            self._timezone = str(self._timezone).replace('UTC', 'Z')\n        tanlat = np.tan(np.radians(self.latitude))"))
m('d18d', 'C18', (B, "        return self._times   # np", "        self._times.name = 'times'\n        return self._times   # np"), (B, "        return self._times_utc  # np", "        self._times_utc = self._times_utc.floor('s')\n        return self._times_utc  # np"))
m('d18e', 'C18', (B, "        cosbeta, sinbeta = fcirc(sfc_slope)", "        if sfc_slope > 90:\n            self._latitude = -self._latitude\n        cosbeta, sinbeta = fcirc(sfc_slope)"))
m('d18f', 'C18', (D, "def true_solar_time(times_utc, longitude):\n    dt64 = 'datetime64[ns]'\n", "def true_solar_time(times_utc, longitude, _cache={}):\n    dt64 = 'datetime64[ns]'\n    if np.size(longitude) > 1 and isinstance(longitude, np.ndarray):\n        longitude.sort()\n"))
m('d19a', 'C19', (MAIN, "    latitude = (-1, 1)[hemisphere == 'n'] * float(lat_str[:-1])\n    assert -90", "    latitude = (-1, 1)[hemisphere == 'n'] * float(lat_str[:-1].replace('-', ''))\n    assert -90"))
m('d19b', 'C19', (POS, "    times = pd.to_datetime(times).tz_localize(timezone)\n", "    times = pd.to_datetime(times.astype('datetime64[m]') if times[0].astype('i8') < 0 else times).tz_localize(timezone)\n"))
m('d19c', 'C19', (POS, "f'Sunset({timezone})': format_time(ss_local)", "f'Sunset({timezone})': format_time(ss_local if not pd.isna(ss_local) and ss_local > sr_local and ss_local.date() == sr_local.date() else ss_utc)"))
m('d19d', 'C19', (POS, "    eot_sec = 60*(abs(eot) % 1)", "    eot_sec = 60*(eot % 1)"))
m('d19e', 'C19', (MAIN, "    assert hemisphere in ('e', 'w')\n", "    assert hemisphere in ('e', 'w', 'o')\n"))
m('d20a', 'C20', (B, "        return self.declination\n", "        return self.declination.round(6)\n"))
m('d20b', 'C20', (B, "        return self.zenith.rename('sza')", "        return (90. - self.elevation.fillna(90.)).rename('sza')"))
m('d20c', 'C20', (B, "    def local_standard_time(self):\n        \"\"\"Array of datetime64: Times where solar geometry is evaluated.\"\"\"\n        return self.times", "    def local_standard_time(self):\n        \"\"\"Array of datetime64: Times where solar geometry is evaluated.\"\"\"\n        return self.times if not len(self.times) or self.times[0] is pd.NaT or not self.times[0].dst() else self.times - self.times[0].dst()"))
m('d20d', 'C20', (B, "        return np.cos(self._zenith).rename('cosz')", "        return np.cos(np.radians(self.zenith.astype('float32').astype(float))).rename('cosz')"))
TESTS = '--tests' in sys.argv


def one(x):
    name, prop, edits = x
    w = '/tmp/mut_%s' % name
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'))
    for f, a, b, *after in edits:
        p = os.path.join(w, 'src/sunwhere', f)
        s = open(p).read()
        k = s.index(after[0]) if after else 0
        if a not in s[k:]:
            shutil.rmtree(w)
            return name, prop, 'BAD EDIT ' + a[:50], 0, ''
        open(p, 'w').write(s[:k] + s[k:].replace(a, b, 1))
    if TESTS:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=w + '/src'))
        tests = (r.stdout.splitlines()[-1:] or ['?'])[0]
    t = time.time()
    o = w + '_out'
    r = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), prop] + EXTRA, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1',
                       VF_OUT=o), capture_output=True, text=True)
    v = [x for x in r.stdout.splitlines() if 'failed obligation' in x]
    last = r.stdout.splitlines()[-1:] or r.stderr.splitlines()[-1:]
    nv = any(x.startswith('VIOLATION') for x in r.stdout.splitlines())
    try:
        und = [q['name'] for q in json.load(open(os.path.join(o, 'evidence', prop + '.json')))['coverage']['undischarged']]
    except Exception:
        und = ['?']
    shutil.rmtree(w)
    shutil.rmtree(o, ignore_errors=True)
    if TESTS:
        und.append('tests: ' + tests)
    return name, prop, 'caught' if r.returncode == 1 and nv else 'MISSED', time.time() - t, '%s | undischarged %d %s' % (
        v[:1] or last, len(und), und[:1] + und[-1:] * TESTS)


if __name__ == '__main__':
    want = [x for x in sys.argv[1:] if x[:2] != '--']
    todo = [x for x in M if not want or x[0] in want or x[1] in want or x[0][0] + '_' in want]
    with ThreadPoolExecutor(5) as ex:
        for r in ex.map(one, todo):
            print('%s %s %s %.0fs %s' % r, flush=True)
