#!/usr/bin/env python3
"""tools/refactors.py [names|file...] [--props C01,C08] [--monitors]: behaviour-preserving edits; every check has to stay
quiet on them, and the obligations should stay discharged (development aid; no check uses it)."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, C, U, V, D = '_base.py', '_core.py', 'usecases.py', 'utils/validate.py', 'utils/datetime.py'
MAIN, POS = '_cli/main.py', '_cli/position.py'
NPSA, EPSA, NIQ, EIQ, NST, EST, NREL = ('libspa/%s.py' % x for x in (
    'py_psa', 'ne_psa', 'py_iqbal', 'ne_iqbal', 'py_soltrack', 'ne_soltrack', 'ne_nrel'))
R = []
ALL = ['C%02d' % i for i in range(1, 21)]
LIB = ['C%02d' % i for i in range(1, 9)]


def r(name, *edits, props=None):
    R.append((name, props or (LIB if all(e[0].startswith('libspa') for e in edits) else
                              ['C19'] if all(e[0].startswith('_cli') for e in edits) else
                              ['C17'] if all(e[0] == D for e in edits) else ALL), edits))


# ------------------------------------------------------------------ _base.py
r('b_to_timedelta',
  (B, "class Sunpos:", "def _to_timedelta(values, seconds):\n    return values.copy(data=(values*seconds*1e9).astype('timedelta64[ns]'))\n\n\nclass Sunpos:"),
  (B, "            delta_ns = wsr.copy(\n                data=(wsr*3600*1e9).astype('timedelta64[ns]'))", "            delta_ns = _to_timedelta(wsr, 3600)"),
  (B, "                delta_ns = delta_hr.copy(\n                    data=(delta_hr*60*1e9).astype('timedelta64[ns]'))", "                delta_ns = _to_timedelta(delta_hr, 60)"),
  (B, "wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))", "wsr + _to_timedelta(dl_hr, 3600)"))
AM0 = "        if parameterization == 'kasten_1965':"
AM1 = "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)"
r('b_airmass_table', (B, (AM0, AM1), '''        sza = self.sza
        table = {
            'kasten_1965': (93.885, 0.15, 0., -1.253),
            'kasten_and_young_1989': (96.07995, 0.50572, 0., -1.6364),
            'gueymard_2001': (96.4836, 0.45665, 0.07, -1.697),
            'gueymard_2003': (96.741, 0.48353, 0.095846, -1.754),
        }
        if parameterization not in table:
            raise ValueError(
                f'unknown airmass parameterization {parameterization}')
        top, factor, power, exponent = table[parameterization]
        Da = np.maximum(1e-4, top - sza)
        term = factor*Da**exponent
        if power:
            term = term*sza**power
        rec_am = self.cosz + term

'''))
r('b_airmass_methods', (B, (AM0, AM1), '''        def denominator(limit):
            return np.maximum(1e-4, limit - self.sza)

        if parameterization not in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'):
            raise ValueError(
                f'unknown airmass parameterization {parameterization}')

        cosz = self.cosz
        if parameterization == 'kasten_1965':
            rec_am = 0.15*denominator(93.885)**(-1.253) + cosz
        elif parameterization == 'kasten_and_young_1989':
            rec_am = 0.50572*denominator(96.07995)**(-1.6364) + cosz
        elif parameterization == 'gueymard_2001':
            rec_am = 0.45665*(self.sza**0.07)*(denominator(96.4836)**(-1.697)) + cosz
        else:
            rec_am = 0.48353*(self.sza**0.095846)*(denominator(96.741)**(-1.754)) + cosz

'''))
r('b_airmass_where_last', (B, "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n        return am.clip(1., np.inf)", "        am = (1./rec_am).clip(min=1.).where(self.sza <= 90.)\n        return am"))
r('b_airmass_maximum', (B, "        return am.clip(1., np.inf)", "        return np.maximum(am, 1.)"))
E0 = "        eth = ISC*self.ecf*np.maximum(0., self.cosz)\n"
E1 = "        return (eth*corr).rename('eth')"
r('b_eth_helper', (B, "    def eth(self, ISC", '''    def _am_correction(self, name):
        if name == 'none':
            return 1.
        if name == 'perez_1990':
            am = self.airmass('kasten_and_young_1989')
            return 0.1 + 1.031*np.exp(-1.4 / (0.9 + (9.4 / am)))
        if name == 'skarveith_1998':
            return 0.83 - 0.56*np.exp(-0.06*self.elevation)
        if name == 'gonzalez_and_calbo_1999':
            am = self.airmass('gueymard_2003')
            dCDA = 0.124 - 0.0285*np.log(am)
            return 0.229 + 0.957*np.exp(-1.74*am*dCDA)
        raise ValueError(f'unknown am_correction {name}')

    def eth(self, ISC'''),
  (B, (E0, E1), "        corr = self._am_correction(am_correction)\n        eth = np.maximum(self.cosz, 0.)*self.ecf*ISC\n"))
r('b_eth_clip', (B, "np.maximum(0., self.cosz)", "self.cosz.clip(min=0.)"))
r('b_eth_where', (B, "        eth = ISC*self.ecf*np.maximum(0., self.cosz)\n", "        cosz = self.cosz\n        eth = (ISC*self.ecf*cosz).where(~(cosz < 0.), 0.)\n"))
r('b_attrs_const', (B, "class Sunpos:", "_SZA_ATTRS = {'units': 'degrees', 'range': '[0, 180]', 'description': 'solar zenith angle'}\n\n\nclass Sunpos:"),
  (B, "        return np.degrees(self._zenith).rename('zenith').assign_attrs(\n            units='degrees',\n            range='[0, 180]',\n            description='solar zenith angle')",
   "        sza = np.degrees(self._zenith)\n        sza = sza.rename('zenith')\n        return sza.assign_attrs(**_SZA_ATTRS)"))
r('b_degrees_helper', (B, "class Sunpos:", "def _in_degrees(values, name, **attrs):\n    return np.rad2deg(values).rename(name).assign_attrs(units='degrees', **attrs)\n\n\nclass Sunpos:"),
  (B, "        return np.degrees(self._azimuth).rename('azimuth').assign_attrs(\n            units='degrees',\n            range='(-180 am, 180 pm)',\n            description='solar azimuth angle'\n        )",
   "        return _in_degrees(self._azimuth, 'azimuth', range='(-180 am, 180 pm)', description='solar azimuth angle')"),
  (B, "        return np.degrees(self._declination).rename('declination').assign_attrs(\n            units='degrees',\n            description='solar declination')",
   "        return _in_degrees(self._declination, 'declination', description='solar declination')"))
r('b_elevation', (B, "return (90. - self.zenith).rename('elevation')", "return (-np.degrees(self._zenith) + 90.).rename('elevation')"))
r('b_domain_abs', (B, "        domain = (tantan >= -1) & (tantan <= 1)\n        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians\n",
  "        wsr = np.arccos(tantan.where(np.abs(tantan) <= 1.))  # radians\n"))
r('b_sunrise_lat', (B, "        tanlat = np.tan(np.radians(self.latitude))\n        tandec = np.tan(np.radians(self.declination))\n        tantan = -tandec*tanlat\n",
  "        tanlat = np.tan(np.deg2rad(self._latitude))\n        tandec = np.tan(self._declination)\n        tantan = -(tandec*tanlat)\n"))
r('b_sunrise_xrwhere', (B, "        domain = (tantan >= -1) & (tantan <= 1)\n        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians\n",
  "        domain = (tantan >= -1) & (tantan <= 1)\n        wsr = xr.where(domain, np.arccos(tantan.clip(-1, 1)), np.nan)  # radians\n"))
r('b_sunset_elif', (B, '''        if units in ('tst', 'utc', 'local'):
            wsr = self.sunrise(units)
            dl_hr = self.daylight_length()
            wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))

        if units in ('deg', 'rad'):
            # the sunset hour angle is symmetric to that of sunrise
            wss = -self.sunrise(units)
''', '''        wsr = self.sunrise(units)
        if units in ('deg', 'rad'):
            wss = -1.*wsr
        else:
            length = self.daylight_length()*3600*1e9
            wss = wsr + length.copy(data=length.astype('timedelta64[ns]'))
'''))
r('b_daylight', (B, "        return (2./15.)*self.sunrise(units='deg').rename('daylight_length').assign_attrs(\n", "        length = self.sunrise()*2./15.\n        return length.rename('daylight_length').assign_attrs(\n"))
r('b_incidence_def', (B, "        fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731\n",
  "        def fcirc(angle):\n            radians = np.radians(angle)\n            return np.cos(radians), np.sin(radians)\n"))
r('b_incidence_parts', (B, "        coss = ((sinlat*cosbeta - coslat*sinbeta*cosgamma)*sindec +\n                (coslat*cosbeta + sinlat*sinbeta*cosgamma)*cosdec*coshour +\n                cosdec*sinhour*sinbeta*singamma)\n",
  "        north = sinlat*cosbeta - coslat*sinbeta*cosgamma\n        south = coslat*cosbeta + sinlat*sinbeta*cosgamma\n        coss = north*sindec + south*cosdec*coshour\n        coss = coss + cosdec*sinhour*sinbeta*singamma\n"),
  (B, "        ha = hour.copy(data=15*(12-hour))\n", "        ha = 180. - 15.*hour\n"))
r('b_incidence_hour', (B, "        hour = self.true_solar_time.copy(\n            data=tst - tst.astype('datetime64[D]')\n        ).astype('float64').where(~np.isnat(tst)) * 1e-9 / 3600\n",
  "        since_midnight = (tst - tst.astype('datetime64[D]'))/np.timedelta64(1, 'h')\n        hour = self.true_solar_time.copy(data=since_midnight)\n"))
r('b_tst_minutes', (B, "        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9  # nano-seconds\n", "        minutes = self.eot + 4*self.longitude\n        tst_f = utc_f + 60e9*minutes\n"))
r('b_tst_coords', (B, "            coords={'time': np.array(self._times.tz_localize(None), dtype=dt64)},\n            dims=['time'])\n", "            coords={'time': self._eot.coords['time']},\n            dims=('time',))\n"))
r('b_local_offset', (B, "                    utcoffset = xr.DataArray(\n                        self._times.tz_localize(None) - self._times_utc.tz_localize(None),\n                        coords={'time': wsr.coords['time']}, dims=('time',))\n                    wsr = wsr + utcoffset\n",
  "                    local = self._times.tz_localize(None)\n                    utc = self._times_utc.tz_localize(None)\n                    offset = xr.DataArray(\n                        (local - utc).to_numpy(), coords={'time': wsr['time']}, dims=['time'])\n                    wsr = offset + wsr\n"))
I0, I1 = "        if self._usecase == 'sites':\n            # sanity check\n", "        self._algorithm = algorithm\n"
r('b_init_table', (B, (I0, I1), '''        times = np.array(self._times.tz_localize(None), dtype='datetime64[ns]')
        if self._usecase == 'sites':
            assert n_lats == n_lons
            lat_dims, lon_dims, dims = ('location',), ('location',), ('time', 'location')
            coords = {
                'time': times,
                'location': range(n_lats),
                'latitude': ('location', self._latitude),
                'longitude': ('location', self._longitude)}
            shape = (n_times, n_lats)
        elif self._usecase == 'regular_grid':
            lat_dims, lon_dims, dims = ('latitude',), ('longitude',), ('time', 'latitude', 'longitude')
            coords = {
                'time': times,
                'latitude': self._latitude, 'longitude': self._longitude}
            shape = (n_times, n_lats, n_lons)
        else:
            assert n_times == n_lats == n_lons
            lat_dims, lon_dims, dims = ('time',), ('time',), ('time',)
            coords = {
                'time': times,
                'latitude': ('time', self._latitude),
                'longitude': ('time', self._longitude)}
            shape = (n_times,)

        assert self._ecf.shape == self._eot.shape == self._declination.shape == (n_times,)
        assert self._zenith.shape == self._azimuth.shape == shape

        def data_array(values, name, dims):
            if self._usecase == 'transect':
                return xr.DataArray(values, name=name, coords=coords, dims=list(dims))
            if len(dims) == 1:
                return xr.DataArray(values, name=name, coords={dims[0]: coords[dims[0]]}, dims=list(dims))
            return xr.DataArray(values, name=name, coords=coords, dims=list(dims))

        self._latitude = data_array(self._latitude, 'latitude', lat_dims)
        self._longitude = data_array(self._longitude, 'longitude', lon_dims)
        for name in ('ecf', 'eot', 'declination'):
            setattr(self, '_' + name, data_array(getattr(self, '_' + name), name, ('time',)))
        for name in ('zenith', 'azimuth'):
            setattr(self, '_' + name, data_array(getattr(self, '_' + name), name, dims))

'''))
r('b_init_coords', (B, "            kwargs = {'coords': {k: coords[k] for k in ['time']}, 'dims': ['time']}\n            self._ecf = xr.DataArray(self._ecf, name='ecf', **kwargs)\n",
  "            kwargs = dict(coords={'time': coords['time']}, dims=('time',))\n            self._ecf = xr.DataArray(self._ecf, name='ecf', **kwargs)\n"))
r('b_init_times', (B, "        self._times = pd.to_datetime(\n            np.array(_times.tz_convert('UTC').tz_localize(None), ndmin=1, dtype='datetime64[ns]')\n        ).tz_localize('UTC').tz_convert(_times.tz)\n\n        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')\n",
  "        utc = np.array(_times.tz_convert('UTC').tz_localize(None), ndmin=1, dtype='datetime64[ns]')\n        self._times_utc = pd.DatetimeIndex(utc).tz_localize('UTC')\n        self._times = self._times_utc.tz_convert(_times.tz)\n"))
r('b_init_asarray', (B, "        self._ecf = np.array(ecf)\n        self._eot = np.array(eot)\n        self._declination = np.array(declination)\n", "        self._ecf, self._eot, self._declination = map(np.array, (ecf, eot, declination))\n"))
# ------------------------------------------------------------------ _core.py
r('c_fill', (C, "def evaluate(times, latitude", '''def _fill(values, nonat, shape):
    output = np.full(shape, np.nan)
    output[nonat] = values
    return output


def evaluate(times, latitude'''),
  (C, "            output = np.full((n_times,), np.nan)\n            output[nonat] = values\n            return output\n\n        output = np.full(out_shape, np.nan)\n        output[nonat, ...] = values\n        return output\n",
   "            return _fill(values, nonat, (n_times,))\n\n        return _fill(values, nonat, out_shape)\n"))
r('c_dead', (C, ("    # dimensions...\n    n_times = times_nonat.size", "    # load function to compute"), ""),
  (C, "    # fill with NaN where times is NaT...\n    nonat = ~np.isnat(times_utc)\n", ""))
r('c_dict', (C, ("    return {\n        'times': times,", "<EOF>"), '''    output = {name: reshape(name) for name in ('ecf', 'eot', 'declination', 'zenith', 'azimuth')}
    return dict(times=times, latitude=latitude, longitude=longitude, algorithm=algorithm,
                engine=engine, refraction=refraction, **output)
'''))
r('c_shape_if', (C, ("    out_shape = {\n        0: (n_times,),                # n_times == n_lats == n_lons\n        1: (n_times, n_lats),         # n_lats == n_lons\n        2: (n_times, n_lats, n_lons)\n    }[ndim]\n\n    def", "reshape"), "    out_shape = (n_times,)\n    if ndim == 1:\n        out_shape = (n_times, n_lats)\n    elif ndim == 2:\n        out_shape = (n_times, n_lats, n_lons)\n\n    def "))
r('c_ndim_if', (C, "    lats_nonat = latitude[nonat] if ndim == 0 else latitude\n    lons_nonat = longitude[nonat] if ndim == 0 else longitude\n", "    lats_nonat, lons_nonat = latitude, longitude\n    if ndim == 0:\n        lats_nonat, lons_nonat = lats_nonat[nonat], lons_nonat[nonat]\n"))
r('c_engines', (C, "    if engine not in __ALGORITHMS__.get(algorithm):\n", "    engines = __ALGORITHMS__[algorithm]\n    if engine not in engines:\n"), (C, "__ALGORITHMS__.get(algorithm).get(engine).sunpos", "engines[engine].sunpos"))
r('c_nanempty', (C, "        output = np.full(out_shape, np.nan)\n        output[nonat, ...] = values\n", "        output = np.empty(out_shape)\n        output[...] = np.nan\n        output[nonat] = values\n"))
r('c_allvalid', (C, "        output = np.full(out_shape, np.nan)\n        output[nonat, ...] = values\n", "        if nonat.all():\n            return np.array(values, dtype=np.float64)\n        output = np.full(out_shape, np.nan)\n        output[nonat, ...] = values\n"))
r('c_posargs', (C, "    spa_args = [ndim, bool(refraction)]\n", ""), (C, "lats_nonat, *spa_args)", "lats_nonat, ndim=ndim, with_refraction=bool(refraction))"))
# ------------------------------------------------------------------ usecases.py
UT = "    times_utc = np.array(\n        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype='datetime64[s]')\n"
r('u_helper', (U, "def sites(times", '''def _as_utc(times):
    times_utc = pd.to_datetime(times, utc=True).tz_localize(None)
    return np.array(times_utc, ndmin=1, dtype='datetime64[s]')


def _as_degrees(*angles):
    return [np.array(angle, ndmin=1, dtype=np.float64) for angle in angles]


def sites(times'''), (U, UT, "    times_utc = _as_utc(times)\n", 'all'),
  (U, "    sites_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n    sites_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n", "    sites_lats, sites_lons = _as_degrees(latitude, longitude)\n"))
SP = "        ecf=solpos.get('ecf'),\n        eot=solpos.get('eot'),\n        declination=solpos.get('declination'),\n        zenith=solpos.get('zenith'),\n        azimuth=solpos.get('azimuth')\n"
r('u_kwargs', (U, SP, "        **{name: solpos[name] for name in ('ecf', 'eot', 'declination', 'zenith', 'azimuth')}\n", 'all'))
r('u_atleast', (U, "    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n    grid_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n", "    grid_lats = np.atleast_1d(np.asarray(latitude, dtype=np.float64))\n    grid_lons = np.atleast_1d(np.asarray(longitude, dtype=np.float64))\n"))
r('u_run', (U, "def sites(times", '''def _run(usecase, ndim, times, lats, lons, algorithm, refraction, engine):
    solpos = evaluate(times, lats, lons, algorithm,
                      ndim=ndim, refraction=refraction, engine=engine)
    return Sunpos(times, lats, lons, algorithm, engine, refraction, usecase,
                  *(solpos.get(k) for k in ('ecf', 'eot', 'declination', 'zenith', 'azimuth')))


def sites(times'''), (U, ("    solpos = evaluate(times, transect_lats", "<EOF>"), "    return _run('transect', 0, times, transect_lats, transect_lons, algorithm, refraction, engine)\n"))
r('u_size', (U, "    if sites_lats.shape != sites_lons.shape:", "    if sites_lats.size != sites_lons.size:"))
# ------------------------------------------------------------------ validate.py
LL = "    %s_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n    %s_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n"
r('u_lists', *[(U, LL % (k, k), """    if isinstance(latitude, (list, tuple)):
        latitude = np.array(latitude, dtype=float)
    if not isinstance(longitude, np.ndarray):
        longitude = np.asarray(longitude, dtype='float64')
    %s_lats, %s_lons = [np.array(v, ndmin=1).astype(np.float64) for v in (latitude, longitude)]
""" % (k, k)) for k in ('sites', 'grid', 'transect')])
r('u_scalar', *[(U, LL % (k, k), """    def _vector(v):
        v = np.asarray(v, dtype=np.float64)
        return v.reshape(1) if v.ndim == 0 else v.copy()
    %s_lats = _vector(latitude)
    %s_lons = _vector(longitude)
""" % (k, k)) for k in ('sites', 'grid', 'transect')])
r('u_times_str', (U, "def sites(times", """def _naive_utc(times):
    if isinstance(times, str):
        times = pd.Timestamp(times)
    if getattr(times, 'tzinfo', None) is None:
        times = pd.to_datetime(times)
    times = times.tz_localize('UTC') if times.tz is None else times.tz_convert('UTC')
    return np.array(times.tz_localize(None), ndmin=1, dtype='datetime64[s]')


def sites(times"""),
  (U, "    times_utc = np.array(\n        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype='datetime64[s]')\n",
   "    times_utc = _naive_utc(times)\n", 'all'))
r('u_isstr', (U, "def sites(times", """def _is_text(times):
    return isinstance(times, str)


def sites(times"""),
  (U, "    times_utc = np.array(\n        pd.to_datetime(times, utc=True)", "    if _is_text(times) or isinstance(times, list):\n        logger = None\n    times_utc = np.array(\n        pd.to_datetime(times, utc=True)", 'all'))
r('b_zone_key', (B, "getattr(_times.tz, 'zone', None) or str(_times.tz)", "getattr(_times.tz, 'zone', None) or getattr(_times.tz, 'key', None) or str(_times.tz)"))
r('v_range', (V, "def check_timelatlon(", '''def _within(values, lower, upper, closed):
    values = values[~np.isnan(values)]
    below = values <= upper if closed else values < upper
    return bool(np.all(lower <= values) and np.all(below))


def check_timelatlon('''),
  (V, "    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and\n            np.all(longitude[~np.isnan(longitude)] < +180.)):", "    if not _within(longitude, -180., 180., False):"),
  (V, "    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and\n            np.all(latitude[~np.isnan(latitude)] <= +90.)):", "    if not _within(latitude, -90., 90., True):"))
r('v_any', (V, "    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and\n            np.all(longitude[~np.isnan(longitude)] < +180.)):", "    if np.any(longitude < -180) or np.any(longitude >= 180):"),
  (V, "    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and\n            np.all(latitude[~np.isnan(latitude)] <= +90.)):", "    if ((latitude < -90.) | (latitude > 90.)).any():"))
r('v_abs', (V, "    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and\n            np.all(latitude[~np.isnan(latitude)] <= +90.)):", "    if np.any(np.abs(latitude) > 90.):"))
r('v_elif', (V, "    if (ndim == 1) and longitude.shape != latitude.shape:", "    elif ndim == 1 and not longitude.shape == latitude.shape:"))
r('v_dims', (V, "    req_times_dim, req_lats_dim, req_lons_dim = required_dims\n    if not ((times_dim == req_times_dim) and\n            (lats_dim == req_lats_dim) and\n            (lons_dim == req_lons_dim)):",
  "    req_times_dim, req_lats_dim, req_lons_dim = required_dims\n    if (times_dim, lats_dim, lons_dim) != tuple(required_dims):"))
r('v_ndimset', (V, "    ndim = int(ndim)\n    if ndim not in (0, 1, 2):", "    ndim = int(ndim)\n    if not 0 <= ndim <= 2:"))
# ------------------------------------------------------------------ datetime.py
r('d_shift', (D, ("def true_solar_time(", "<EOF>"), '''def _shift(times, longitude, sign):
    dt64 = 'datetime64[ns]'
    times = np.array(times, ndmin=1)
    longitude = np.array(longitude, ndmin=1)
    eot = evaluate(times, 0., 0.)['eot']  # eot, minutes
    new_shape = eot.shape + (1,)*longitude.ndim
    eot = eot.reshape(new_shape)
    ns = np.array(times, dtype=dt64).astype(np.float128).reshape(new_shape)
    offset = sign * 60 * (4 * longitude[None, ...] + eot)
    return np.squeeze(np.array(ns + 1e9 * offset, dtype=dt64))


def true_solar_time(times_utc, longitude):
    return _shift(times_utc, longitude, 1)


def universal_time_coordinated(times_tst, longitude):
    return _shift(times_tst, longitude, -1)
'''))
r('d_astype', (D, "    times_tst = np.array(expanded_times_utc + 1e9 * utc_to_tst, dtype=dt64)\n    return np.squeeze(times_tst)", "    times_tst = expanded_times_utc + 1e9 * utc_to_tst\n    return times_tst.astype(dt64).squeeze()"))
r('d_expand', (D, "    expanded_eot = np.reshape(eot, new_shape)\n", "    expanded_eot = np.expand_dims(eot, axis=tuple(range(1, len(new_shape))))\n", 'all'))
# ------------------------------------------------------------------ CLI
r('m_sign', (MAIN, "    latitude = (-1, 1)[hemisphere == 'n'] * float(lat_str[:-1])\n", "    sign = 1 if hemisphere == 'n' else -1\n    latitude = sign * float(lat_str[:-1])\n"),
  (MAIN, "    assert hemisphere in ('e', 'w')\n    longitude = (-1, 1)[hemisphere == 'e'] * float(lon_str[:-1])\n", "    assert hemisphere in 'ew'\n    longitude = float(lon_str[:-1])\n    if hemisphere == 'w':\n        longitude = -longitude\n"))
r('m_helper', (MAIN, ("def parse_latitude(", "@app.command(help=\"computes"), '''def _signed(text, positive, negative):
    hemisphere = text[-1].casefold()
    assert hemisphere in (positive, negative)
    value = float(text[:-1])
    return value if hemisphere == positive else -value


def parse_latitude(lat_str):
    latitude = _signed(lat_str, 'n', 's')
    assert abs(latitude) <= 90
    return latitude


def parse_longitude(lon_str):
    longitude = _signed(lon_str, 'e', 'w')
    assert -180 <= longitude < 180
    return longitude


'''))
r('p_item', (POS, "def calculate_position(", '''def _timestamp(values):
    return pd.Timestamp(values.isel(time=0, location=0).item())


def calculate_position('''),
  (POS, ("    sr_utc = ", "    eot = sw.eot"), '''    sr_utc = _timestamp(sw.sunrise(units="utc"))
    ss_utc = _timestamp(sw.sunset(units="utc"))
    sr_local = _timestamp(sw.sunrise(units="local"))
    ss_local = _timestamp(sw.sunset(units="local"))
'''))
r('p_eot', (POS, ("    eot = sw.eot.isel", "    ts = pd"), '''    eot = sw.eot.isel(time=0).item()
    sign = '-' if eot < 0 else ''
    minutes, fraction = divmod(abs(eot), 1)
    eot_min = f'{sign}{int(minutes)}'
    eot_sec = 60*fraction

'''))
r('p_values', (POS, "    s = pd.Series(\n", "    first = dict(time=0, location=0)\n    zenith = sw.zenith.isel(**first).item()\n    azimuth = sw.azimuth.isel(first).item()\n    distance = 1/np.sqrt(sw.ecf.isel(time=0).item())\n    s = pd.Series(\n"),
  (POS, "{sw.sza.isel(time=0, location=0):.4f}", "{zenith:.4f}"), (POS, "{sw.saa.isel(time=0, location=0):.4f}", "{azimuth:.4f}"),
  (POS, "{1/(sw.ecf.isel(time=0)**0.5):.4f}", "{distance:.4f}"), (POS, "{sw.elevation.isel(time=0, location=0):.4f}", "{90 - zenith:.4f}"))
r('p_format', (POS, "    return 'n/a' if pd.isna(time) else f'{time:%H:%M:%S}'", "    if pd.isna(time):\n        return 'n/a'\n    return time.strftime('%H:%M:%S')"))
r('p_ts', (POS, "    ts = pd.to_datetime(time).tz_localize(timezone)\n", "    ts = times[0]\n"))
# ------------------------------------------------------------------ libspa
REFR = "        sun_elev = HALFPI - zenith\n        A = 1  # assumed A=1: A = (pressure / 1010.) * (283 / (273+temperature))\n        refr_corr = A * 1.7802e-2/(60*np.tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))\n        zenith = HALFPI - np.where(sun_elev >= -1.4545e-2, sun_elev + refr_corr, sun_elev)\n"
r('npsa_refr', (NPSA, "def _sunpos_one_dimensional(", '''def _refracted(zenith):
    elevation = HALFPI - zenith
    correction = 1.7802e-2/(60*np.tan(elevation + 3.1376e-3 / (elevation + 8.9186e-2)))
    return np.where(elevation >= -1.4545e-2, zenith - correction, zenith)


def _sunpos_one_dimensional('''), (NPSA, REFR, "        zenith = _refracted(zenith)\n", 'all'))
r('npsa_core', (NPSA, ("def _sunpos_one_dimensional(", "<EOF>"), '''def _local(gmst, ra, delta, longitude, latitude, with_refraction):
    hour_angle = np.radians(gmst*15 + longitude) - ra
    latrad = np.radians(latitude)
    coslat, sinlat = np.cos(latrad), np.sin(latrad)
    cosz = coslat*np.cos(hour_angle)*np.cos(delta) + np.sin(delta)*sinlat
    zenith = np.arccos(np.clip(cosz, -1., 1.))
    zenith += EMRAU * np.sin(zenith)
    if with_refraction is True:
        sun_elev = HALFPI - zenith
        refr_corr = 1.7802e-2/(60*np.tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))
        zenith = HALFPI - np.where(sun_elev >= -1.4545e-2, sun_elev + refr_corr, sun_elev)
    azimuth = np.arctan2(-np.sin(hour_angle), np.tan(delta)*coslat - sinlat*np.cos(hour_angle))
    azimuth = np.where(azimuth < 0., azimuth + PI, azimuth - PI)
    return zenith, azimuth


def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)
    zenith, azimuth = _local(gmst, ra, delta, longitude, latitude, with_refraction)
    return zenith, azimuth, ecf, delta, eot


def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)
    at = np.s_[:, None]
    zenith, azimuth = _local(gmst[at], ra[at], delta[at], longitude[None, :], latitude[None, :], with_refraction)
    return zenith, azimuth, ecf, delta, eot


def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)
    at = (slice(None), None, None)
    zenith, azimuth = _local(gmst[at], ra[at], delta[at], longitude[None, None, :],
                             latitude[None, :, None], with_refraction)
    return zenith, azimuth, ecf, delta, eot
'''))
r('npsa_noalloc', (NPSA, "    Nt = len(unixtime)\n    Nr = len(latitude)\n\n    zenith = np.zeros((Nt, Nr))  # solar zenith angle, radians\n    azimuth = np.zeros((Nt, Nr))  # solar azimuth angle, radians\n", ""))
r('npsa_newaxis', (NPSA, "    lmst = gmst[:, None]*15 + longitude[None, :]", "    lmst = gmst[:, np.newaxis]*15 + longitude"), (NPSA, "np.radians(latitude[None, :])", "np.radians(latitude)[np.newaxis]"),
  (NPSA, "np.sin(delta[:, None])", "np.sin(delta)[:, None]"), (NPSA, "np.cos(delta[:, None])", "np.cos(delta.reshape(-1, 1))"))
r('npsa_names', (NPSA, "jde", "days", 'all'), (NPSA, "gmst", "sidereal", 'all'))
r('npsa_eot', (NPSA, "    dXsun = np.int32(np.abs(L)/TWOPI)\n    eot = 4. * np.degrees(L + TWOPI*np.where(L < 0., 1. + dXsun, -dXsun) - ra)\n", "    turns = np.trunc(np.abs(L)/TWOPI)\n    Lmod = np.where(L < 0., L + TWOPI*(1. + turns), L - TWOPI*turns)\n    eot = 4. * np.degrees(Lmod - ra)\n"))
r('npsa_eotmod', (NPSA, "    dXsun = np.int32(np.abs(L)/TWOPI)\n    eot = 4. * np.degrees(L + TWOPI*np.where(L < 0., 1. + dXsun, -dXsun) - ra)\n", "    eot = 4. * np.degrees(np.mod(L, TWOPI) - ra)\n"))
r('npsa_ra', (NPSA, "    ra = np.where(ra < 0., ra + TWOPI, ra)\n", "    ra = ra % TWOPI\n"))
r('npsa_order', (NPSA, "    gmst = 6.697096103 + 6.570984737e-2*jde + decimal_hour\n\n", ""), (NPSA, "    # ecliptic coordinates..\n", "    gmst = 6.697096103 + 6.570984737e-2*jde + decimal_hour\n\n"))
r('npsa_horner', (NPSA, "    ecc = 0.016708634 - 0.000042037*jdc - 0.0000001267*jdc*jdc\n", "    ecc = 0.016708634 - jdc*(0.000042037 + 0.0000001267*jdc)\n"), (NPSA, "1.0000010178*(1.0 - ecc**2)/(1.0 + ecc*np.cos((ma+sec)))", "1.0000010178*(1.0 - ecc*ecc)/(1.0 + ecc*np.cos(sec + ma))"),
  (NPSA, "    ecf = 1. / R**2", "    ecf = np.square(1. / R)"))
r('epsa_refr', (EPSA, "def _sunpos_one_dimensional(", '''def _refracted(zenith):
    elev = HALFPI - zenith
    corr = ne.evaluate('1.7802e-2/(60*tan(elev + 3.1376e-3 / (elev + 8.9186e-2)))')
    return ne.evaluate('where(elev >= -1.4545e-2, zenith - corr, zenith)')


def _sunpos_one_dimensional('''),
  (EPSA, "        sun_elev = HALFPI - zenith\n        A = 1  #  assumed A=1: A = (pressure / 1010.) * (283 / (273+temperature))\n        refr_corr = nex('A*1.7802e-2/(60*tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))')\n        zenith = nex('HALFPI - where(sun_elev >= -1.4545e-2, sun_elev + refr_corr, sun_elev)')\n", "        zenith = _refracted(zenith)\n", 'all'))
r('epsa_direct', (EPSA, "    sinhour = nex('sin(hour_angle)')\n    coshour = nex('cos(hour_angle)')\n", "    sinhour, coshour = np.sin(hour_angle), np.cos(hour_angle)\n", 'all'))
r('epsa_local', (EPSA, "    jde = nex('unixtime / 86400 - 10957.5')  # julian days since 1 Jan 2000 UT\n    decimal_hour = nex('((unixtime / 86400) % 1)*24')\n", "    unixday = nex('unixtime / 86400')\n    jde = unixday - 10957.5\n    decimal_hour = nex('(unixday % 1)*24')\n"))
r('epsa_split', (EPSA, "    l = nex(  # ecliptic longitude, radians\n        'L - 1.544353226e-4 + 3.338320972e-2*sin(g)'\n        '+ 3.497596876e-4*sin(2*g) - 8.689729360e-6*sin(omega)')\n", "    centre = nex('3.338320972e-2*sin(g) + 3.497596876e-4*sin(2*g)')\n    nutation = nex('8.689729360e-6*sin(omega)')\n    l = L - 1.544353226e-4 + centre - nutation\n"))
r('epsa_dispatch', (EPSA, ("    if ndim == 0:\n", "    return {'zenith': sza"), '''    if ndim == 0:
        assert unixtime.size == longitude.size == latitude.size, 'shape mismatch'
    elif ndim == 1:
        assert longitude.size == latitude.size, 'shape mismatch'
    function = (_sunpos_one_dimensional, _sunpos_two_dimensional, _sunpos_three_dimensional)[ndim]
    sza, saa, ecf, decl, eot = function(unixtime, longitude, latitude, with_refraction)

'''))
r('epsa_where', (EPSA, "    azimuth = nex('where(azimuth < 0., azimuth + PI, azimuth - PI)')\n", "    azimuth = np.where(azimuth < 0., azimuth, azimuth - TWOPI) + PI\n", 'all'))
HARM = '''def _harmonics(constant, coefs, dayangl):
    total = constant
    for n, (a, b) in enumerate(coefs, start=1):
        total = total + a*np.cos(n*dayangl) + b*np.sin(n*dayangl)
    return total


'''
r('niq_harmonics', (NIQ, "def eccentricity_correction_factor(", HARM + "def eccentricity_correction_factor("),
  (NIQ, ("    return (1.00012825e+00", "def equation_of_time"), "    return _harmonics(1.00012825e+00, [(3.33572253e-02, 1.99417932e-03), (6.97434604e-04, 1.14828177e-04),\n                                       (1.74028675e-05, 1.13778023e-05)], dayangl)\n\n\n"),
  (NIQ, ("    return (0.00986571", "def solar_declination"), "    minutes = _harmonics(0.00986571, [(0.58688718, -7.34538133), (-3.31493999, -9.35366541),\n                                      (-0.08151750, -0.30892409), (-0.13532889, -0.17336220)], dayangl)\n    return minutes/60.\n\n\n"))
r('niq_dates', (NIQ, ("    times = unixtime.astype('datetime64[s]')\n    Y, M, D, h, m, _", "    std_time = hour"), '''    times = unixtime.astype('datetime64[s]')
    years, months, days = (times.astype('M8[%s]' % u) for u in 'YMD')
    year = years.astype(np.int64).astype(np.int32) + np.int32(1970)
    month = (months - years).astype(np.int32) + 1
    day = (days - months).astype(np.int32) + 1
    seconds = (times - days).astype(np.int64)
    hour = seconds // 3600
    minute = (seconds % 3600) // 60
    second = seconds % 60

''', 'all'))
r('niq_helper', (NIQ, "def _sunpos_one_dimensional(", '''def _calendar(unixtime):
    times = unixtime.astype('datetime64[s]')
    Y, M, D, h, m = [times.astype(f'M8[{t}]') for t in 'YMDhm']
    year = (1970+Y).astype(np.int32)
    month = ((M-Y)+1).astype(np.int32)
    day = ((D-M)+1).astype(np.int32)
    hour = ((times-D).astype('m8[h]')).astype(np.int32)
    minute = ((times-h).astype('m8[m]')).astype(np.int32)
    second = ((times-m).astype('m8[s]')).astype(np.int32)
    return year, month, day, hour, minute, second


def _sunpos_one_dimensional('''), (NIQ, ("    times = unixtime.astype('datetime64[s]')\n    Y, M, D, h, m, _", "    std_time = hour"), "    year, month, day, hour, minute, second = _calendar(unixtime)\n", 'all'))
r('niq_doy', (NIQ, "    doy = np.where(bisextile & (month > 2.), doy + 1, doy)\n", "    doy = doy + (bisextile & (month > 2))\n"))
r('niq_bisextile', (NIQ, "    bisextile = (((year % 4) == 0) & ((year % 100) != 0)) | ((year % 400) == 0)\n", "    bisextile = np.where(year % 100 == 0, year % 400 == 0, year % 4 == 0)\n"))
r('niq_lat', (NIQ, "    LAT = np.where(LAT < 0., LAT + 24., LAT)\n    LAT = np.where(LAT >= 24., LAT - 24., LAT)\n", "    LAT = LAT % 24.\n", 'all'))
r('niq_poly', (NIQ, "(0.061359*(0.1594+(1.1230*alpha)\n                  + (0.065656*alpha2))/(1.+(28.9344*alpha)\n                  + (277.3971*alpha2)))", "0.061359*(0.1594 + alpha*(1.1230 + 0.065656*alpha))/(1. + alpha*(28.9344 + 277.3971*alpha))", 'all'))
r('niq_clipmax', (NIQ, "np.maximum(sza_rad - refcor, 0.)", "(sza_rad - refcor).clip(min=0.)", 'all'))
r('eiq_np', (EIQ, "    LAT = np.where(nex('LAT < 0'), LAT + 24., LAT)\n    LAT = np.where(nex('LAT >= 24'), LAT - 24., LAT)\n", "    LAT = nex('where(LAT < 0, LAT + 24., LAT)')\n    LAT = nex('where(LAT >= 24, LAT - 24., LAT)')\n", 'all'))
r('nst_sq', (NST, "    sin_o = np.sqrt(1.0 - np.cos(obliquity)**2)\n", "    sin_o = np.sin(obliquity)\n"), (NST, "    cos_dec = np.sqrt(1. - sin_dec**2)\n    tan_dec = sin_dec / cos_dec\n", "    cos_dec = np.sqrt((1. - sin_dec)*(1. + sin_dec))\n    tan_dec = sin_dec / cos_dec\n", 'all'))
r('nst_zen', (NST, "    zenith = HALFPI - alt\n", "    zenith = -alt + PI/2 if 'PI' in globals() else HALFPI - alt\n"))
r('nst_coord', (NST, "    lat_rad = np.radians(latitude)[None, :, None]\n    lon_rad = np.radians(longitude)[None, None, :]\n", "    lat_rad = np.deg2rad(latitude).reshape(1, -1, 1)\n    lon_rad = np.deg2rad(longitude)\n"))
r('nst_tan', (NST, "    tan_dec = sin_dec / cos_dec\n", "    tan_dec = np.tan(np.arcsin(sin_dec))\n"))
r('nrel_sums', (NREL, "    r0, r1, r2, r3, r4 = np.sum(nex('C_R_0*cos(C_R_1+C_R_2*jme_)'), axis=1)\n    R = nex('(r0 + r1 * jme + r2 * jme**2 + r3 * jme**3 + r4 * jme**4)/10**8')\n",
  "    series = nex('C_R_0*cos(C_R_1+C_R_2*jme_)').sum(axis=1)\n    R = 0.\n    for coef in series[::-1]:\n        R = R*jme + coef\n    R = R/10**8\n"))
r('nrel_dot', (NREL, "    b0, b1 = np.sum(nex('C_LAT_0*cos(C_LAT_1+C_LAT_2*jme_)'), axis=1)\n    B = nex('RAD2DEG*(b0 + b1 * jme)/10**8')\n", "    terms = nex('C_LAT_0*cos(C_LAT_1+C_LAT_2*jme_)')\n    b0 = terms[0].sum(axis=0)\n    b1 = np.sum(terms[1], axis=0)\n    B = nex('RAD2DEG*(b0 + b1 * jme)/100000000')\n"))
r('nrel_nut', (NREL, "    # longitude nutation\n    delta_psi = np.sum(\n        nex(\n            '(C_NUT_A + C_NUT_B*jce_)*'\n            'sin('\n            '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '\n            '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '\n            '   C_NUT_Y_4*x4_)*DEG2RAD'\n            ')/36000000'\n        ), axis=0\n    )\n",
  "    # longitude nutation\n    arguments = nex('(C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + C_NUT_Y_4*x4_)*DEG2RAD')\n    delta_psi = nex('(C_NUT_A + C_NUT_B*jce_)*sin(arguments)').sum(axis=0)/36000000\n"))
r('nrel_par', (NREL, "    u = nex('arctan(0.99664719*tan(latrad_))')\n    x = nex('cos(u) + ELEVATION / 6378140. * cos(latrad_)')\n    y = nex('0.99664719*sin(u) + ELEVATION / 6378140. * sin(latrad_)')\n", "    u = np.arctan(0.99664719*np.tan(latrad_))\n    x = np.cos(u)\n    y = 0.99664719*np.sin(u)\n", 'all'))
r('nrel_mod', (NREL, "    H = nex('((v_ + lon_ - alpha_) % 360)*DEG2RAD')\n", "    H = np.radians((v_ + lon_ - alpha_) % 360)\n", 'all'))
r('nrel_empty', (NREL, "        shape = (0, latitude.size, longitude.size)[:ndim+1]\n        return {'zenith': np.empty(shape), 'azimuth': np.empty(shape),\n                'ecf': np.empty((0,)), 'eot': np.empty((0,)),\n                'declination': np.empty((0,))}\n",
  "        shape = {0: (0,), 1: (0, latitude.size), 2: (0, latitude.size, longitude.size)}[ndim]\n        empty = np.empty((0,))\n        return dict(zenith=np.empty(shape), azimuth=np.empty(shape), ecf=empty, eot=empty, declination=empty)\n"))

# ------------------------------------------------------------------ more unusual Python
ACOSZ = "    acos_zenith = coslat*coshour*cosdec + sindec*sinlat\n    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians\n"
r('w_npsa_hypot', (NPSA, ACOSZ, "    # the zenith by its tangent\n    up = coslat*coshour*cosdec + sindec*sinlat\n    east = cosdec*sinhour\n    north = cosdec*coshour*sinlat - sindec*coslat\n    zenith = np.arctan2(np.hypot(east, north), up)  # radians\n", 'all'))
r('w_npsa_out', (NPSA, "    zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction\n", "    np.add(zenith, EMRAU * np.sin(zenith), out=zenith)  # parallax correction\n", 'all'))
r('w_npsa_mask', (NPSA, "    azimuth = np.where(azimuth < 0., azimuth + PI, azimuth - PI)\n", "    negative = azimuth < 0.\n    azimuth[negative] += PI\n    azimuth[~negative] -= PI\n", 'all'))
r('w_npsa_class', (NPSA, "def _sunpos_one_dimensional(", "class _Refraction:\n    \"\"\"adapted from the NREL's SPA\"\"\"\n    limit = -1.4545e-2\n\n    def __init__(self, enabled):\n        self.enabled = enabled is True\n\n    def __call__(self, zenith):\n        if not self.enabled:\n            return zenith\n        sun_elev = HALFPI - zenith\n        corr = 1.7802e-2/(60*np.tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))\n        return np.where(sun_elev >= self.limit, zenith - corr, zenith)\n\n\ndef _sunpos_one_dimensional("),
  (NPSA, ("    if with_refraction is True:\n", "    azimuth = np.arctan2"), "    zenith = _Refraction(with_refraction)(zenith)\n\n", 'all'))
r('w_npsa_match', (NPSA, ("    if ndim == 0:\n", "    return {'zenith': sza"), "    match ndim:\n        case 0:\n            assert unixtime.size == longitude.size == latitude.size, 'unixtime, latitude and longitude must have same shape'\n            function = _sunpos_one_dimensional\n        case 1:\n            assert longitude.size == latitude.size, 'longitude and latitude must have same shape'\n            function = _sunpos_two_dimensional\n        case _:\n            function = _sunpos_three_dimensional\n\n    sza, saa, ecf, decl, eot = function(unixtime, longitude, latitude, with_refraction)\n\n"))
r('w_npsa_nt', (NPSA, "import numpy as np\n", "from collections import namedtuple\n\nimport numpy as np\n"), (NPSA, "def time_dependent_calculations(", "Sun = namedtuple('Sun', 'gmst ra delta ecf eot')\n\n\ndef time_dependent_calculations("),
  (NPSA, "    return gmst, ra, delta, ecf, eot\n", "    return Sun(gmst=gmst, ra=ra, delta=delta, ecf=ecf, eot=eot)\n"),
  (NPSA, "    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)\n", "    sun = time_dependent_calculations(unixtime)\n    gmst, ra, delta, ecf, eot = sun\n", 'all'))
r('w_npsa_outer', (NPSA, "    lmst = gmst[:, None]*15 + longitude[None, :]  # local mean sidereal time, degrees\n", "    lmst = np.add.outer(gmst*15, longitude)  # local mean sidereal time, degrees\n"))
r('w_npsa_ix', (NPSA, "    hour_angle = np.radians(lmst) - ra[:, None, None]  # hour angle, radians\n", "    hour_angle = np.subtract(np.radians(lmst), np.expand_dims(ra, (1, 2)))  # hour angle, radians\n"))
r('w_npsa_select', (NPSA, "    eot = np.where(eot > 20., eot - 1440., eot)\n    eot = np.where(eot < -20., eot + 1440., eot)\n", "    eot = np.select([eot > 20., eot < -20.], [eot - 1440., eot + 1440.], default=eot)\n"))
r('w_npsa_divmod', (NPSA, "    decimal_hour = ((unixtime / 86400) % 1)*24\n", "    _, decimal_hour = np.divmod(unixtime / 86400, 1)\n    decimal_hour = decimal_hour*24\n"))
r('w_npsa_einsum', (NPSA, "    gmst = 6.697096103 + 6.570984737e-2*jde + decimal_hour\n", "    gmst = np.polyval((6.570984737e-2, 6.697096103), jde) + decimal_hour\n"))
r('w_epsa_dict', (EPSA, "    jde = nex('unixtime / 86400 - 10957.5')", "    jde = nex('t / 86400 - 10957.5', local_dict={'t': unixtime})"))
r('w_niq_while', (NIQ, "    LAT = np.where(LAT < 0., LAT + 24., LAT)\n    LAT = np.where(LAT >= 24., LAT - 24., LAT)\n", "    LAT = np.where(LAT < 0., LAT + 24., np.where(LAT >= 24., LAT - 24., LAT))\n", 'all'))
r('w_niq_dy', (NIQ, "    dy = -np.sin(hour_angle)\n", "    dy = np.sin(-hour_angle)\n", 'all'))
r('w_niq_sum', (NIQ, ("    return (1.00012825e+00\n", "\n\ndef equation_of_time"), "    cos, sin = np.cos, np.sin\n    coefs = ((3.33572253e-02, 1.99417932e-03), (6.97434604e-04, 1.14828177e-04), (1.74028675e-05, 1.13778023e-05))\n    return 1.00012825 + sum(a*cos(n*dayangl) + b*sin(n*dayangl) for n, (a, b) in enumerate(coefs, start=1))\n"))
r('w_niq_zip', (NIQ, "    Y, M, D, h, m, _ = [times.astype(f'M8[{t}]') for t in 'YMDhms']\n", "    Y, M, D, h, m = map(times.astype, ('M8[Y]', 'M8[M]', 'M8[D]', 'M8[h]', 'M8[m]'))\n", 'all'))
r('w_niq_cumsum', (NIQ, "    FIRST_DAY_OF_MONTH = np.array([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365])\n", "    FIRST_DAY_OF_MONTH = np.cumsum([0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])\n"))
r('w_nrel_unpack', (NREL, "    b0, b1 = np.sum(nex('C_LAT_0*cos(C_LAT_1+C_LAT_2*jme_)'), axis=1)\n    B = nex('RAD2DEG*(b0 + b1 * jme)/10**8')\n", "    b0, *rest = np.add.reduce(nex('C_LAT_0*cos(C_LAT_1+C_LAT_2*jme_)'), axis=1)\n    b1, = rest\n    B = RAD2DEG*(b0 + b1*jme)/1e8\n"))
r('w_nrel_polyval', (NREL, "    R = nex('(r0 + r1 * jme + r2 * jme**2 + r3 * jme**3 + r4 * jme**4)/10**8')\n", "    R = np.polyval([r4, r3, r2, r1, r0], jme)/10**8\n"))
r('w_nrel_powers', (NREL, "    epsilon0 = nex(\n        '84381.448 - 4680.93*(jme/10.) - 1.55*(jme/10.)**2 + 1999.25*(jme/10.)**3 - '\n        '51.38*(jme/10.)**4 - 249.67*(jme/10.)**5 - 39.05*(jme/10.)**6 + 7.12*(jme/10.)**7 + '\n        '27.87*(jme/10.)**8 + 5.79*(jme/10.)**9 + 2.45*(jme/10.)**10')\n",
  "    coefs = (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45)\n    u10 = jme/10.\n    epsilon0 = sum(c*u10**n for n, c in enumerate(coefs))\n"))
r('w_nrel_reduce', (NREL, "    R = nex('(r0 + r1 * jme + r2 * jme**2 + r3 * jme**3 + r4 * jme**4)/10**8')\n", "    R = functools.reduce(lambda acc, c: acc*jme + c, (r4, r3, r2, r1, r0))/10**8\n"), (NREL, "import numpy as np\n", "import functools\n\nimport numpy as np\n"))
r('w_nrel_wrap', (NREL, "    theta = nex('(L + 180.) % 360')\n", "    theta = np.remainder(L + 180., 360)\n"))
r('w_nrel_xs', (NREL, "    x4_ = x4[None, :]\n", "    x0_, x1_, x2_, x3_, x4_ = (x[np.newaxis, :] for x in (x0, x1, x2, x3, x4))\n"))
r('w_nrel_matmul', (NREL, "    # longitude nutation\n    delta_psi = np.sum(\n        nex(\n            '(C_NUT_A + C_NUT_B*jce_)*'\n            'sin('\n            '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '\n            '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '\n            '   C_NUT_Y_4*x4_)*DEG2RAD'\n            ')/36000000'\n        ), axis=0\n    )\n",
  "    # longitude nutation\n    nut_y = np.hstack([C_NUT_Y_0, C_NUT_Y_1, C_NUT_Y_2, C_NUT_Y_3, C_NUT_Y_4])\n    arguments = np.radians(nut_y @ np.stack([x0, x1, x2, x3, x4]))\n    delta_psi = np.sum((C_NUT_A + C_NUT_B*jce_)*np.sin(arguments), axis=0)/36000000\n"))
r('w_base_partial', (B, "import numpy as np\n", "import functools\n\nimport numpy as np\n"),
  (B, "        fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731\n", "        fcirc = functools.partial(_cos_sin, scale=np.pi/180)\n"),
  (B, "class Sunpos:", "def _cos_sin(angle, scale=1.):\n    return tuple(f(angle*scale) for f in (np.cos, np.sin))\n\n\nclass Sunpos:"))
r('w_base_static', (B, "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n        return am.clip(1., np.inf)", "        am = self._reciprocal(rec_am, self.sza)\n        return am.clip(1., np.inf)"),
  (B, "    def sunrise(self, units='deg'):", "    @staticmethod\n    def _reciprocal(values, sza):\n        return xr.where(sza <= 90., 1./values, np.nan)\n\n    def sunrise(self, units='deg'):"))
r('w_base_lambdas', (B, ("        if parameterization == 'kasten_1965':", "        am = 1./rec_am"), """        formulas = {
            'kasten_1965': lambda z: 0.15*np.maximum(1e-4, 93.885 - z)**(-1.253),
            'kasten_and_young_1989': lambda z: 0.50572*np.maximum(1e-4, 96.07995 - z)**(-1.6364),
            'gueymard_2001': lambda z: 0.45665*(z**0.07)*(np.maximum(1e-4, 96.4836 - z)**(-1.697)),
            'gueymard_2003': lambda z: 0.48353*(z**0.095846)*(np.maximum(1e-4, 96.741 - z)**(-1.754)),
        }
        try:
            formula = formulas[parameterization]
        except KeyError:
            raise ValueError(
                f'unknown airmass parameterization {parameterization}') from None
        rec_am = self.cosz + formula(self.sza)

"""))
r('w_base_setattr', (B, "            self._ecf = xr.DataArray(self._ecf, name='ecf', **kwargs)\n            self._eot = xr.DataArray(self._eot, name='eot', **kwargs)\n            self._declination = xr.DataArray(self._declination, name='declination', **kwargs)\n            kwargs = {'coords': coords, 'dims': ['time', 'location']}\n",
  "            for name in ('ecf', 'eot', 'declination'):\n                setattr(self, '_' + name, xr.DataArray(getattr(self, '_' + name), name=name, **kwargs))\n            kwargs = {'coords': coords, 'dims': ['time', 'location']}\n"))
r('w_base_dimcoord', (B, "            kwargs = {'coords': {k: coords[k] for k in ['latitude']}, 'dims': ['latitude']}\n            self._latitude = xr.DataArray(self._latitude, name='latitude', **kwargs)\n", "            self._latitude = xr.DataArray(self._latitude, coords=[('latitude', self._latitude)], name='latitude')\n"))
r('w_base_tstint', (B, "        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9  # nano-seconds\n        return tst_f.astype(dt64)", "        shift = 60e9*(4*self.longitude + self.eot)  # nano-seconds\n        tst_f = utc_f + shift\n        return tst_f.astype(dt64)"))
r('w_base_aliases', (B, "        return self.zenith.rename('sza')\n", "        sza = self.zenith\n        sza.name = 'sza'\n        return sza\n"))
r('w_base_attrs', (B, "        return np.cos(self._zenith).rename('cosz').assign_attrs(\n            units='-',\n            range='[-1, 1]',\n            description='solar zenith angle\\'s cosine')", "        cosz = np.cos(self._zenith)\n        cosz.name = 'cosz'\n        cosz.attrs = {'units': '-', 'range': '[-1, 1]', 'description': 'solar zenith angle\\'s cosine'}\n        return cosz"))
r('w_core_flatnz', (C, "    nonat = ~np.isnat(times_utc)\n    times_nonat = times_utc[nonat]\n    lats_nonat = latitude[nonat] if ndim == 0 else latitude\n    lons_nonat = longitude[nonat] if ndim == 0 else longitude\n", "    valid, = np.nonzero(~np.isnat(times_utc))\n    times_nonat = times_utc.take(valid)\n    lats_nonat, lons_nonat = (x.take(valid) if ndim == 0 else x for x in (latitude, longitude))\n"))
r('w_core_comp', (C, ("    return {\n        'times': times,", "<EOF>"), "    output = {'times': times, 'latitude': latitude, 'longitude': longitude,\n              'algorithm': algorithm, 'engine': engine, 'refraction': refraction}\n    output |= {name: reshape(name) for name in ('ecf', 'eot', 'declination', 'zenith', 'azimuth')}\n    return output\n"))
r('w_core_try', (C, "    if algorithm not in __ALGORITHMS__:\n        raise ValueError(", "    try:\n        engines = __ALGORITHMS__[algorithm]\n    except (KeyError, TypeError):\n        raise ValueError("))
r('w_core_nonlocal', (C, "        output = np.full(out_shape, np.nan)\n        output[nonat, ...] = values\n        return output\n", "        output = np.empty(out_shape)\n        output[...] = np.nan\n        np.copyto(output[nonat], values) if False else output.__setitem__(nonat, values)\n        return output\n"))
r('w_val_loop', (V, ("    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and\n", "    # validate latitudes...\n"), "    if any(not -180 <= x < 180 for x in longitude[~np.isnan(longitude)].tolist()):\n        raise ValueError(\n            'longitude out of bounds: expected -180 <= longitude < 180 '\n            'but got values beyond')\n\n"))
r('w_val_min', (V, "    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and\n            np.all(latitude[~np.isnan(latitude)] <= +90.)):\n", "    valid = latitude[~np.isnan(latitude)]\n    if valid.size and (valid.min() < -90 or valid.max() > 90):\n"))
r('w_val_in', (V, "    if not ((times_dim == req_times_dim) and\n            (lats_dim == req_lats_dim) and\n            (lons_dim == req_lons_dim)):\n", "    if any(got != want for got, want in zip((times_dim, lats_dim, lons_dim), required_dims)):\n"))
r('w_use_checker', (U, "    check_dimensions(times_utc.ndim, transect_lats.ndim, transect_lons.ndim, (1, 1, 1))\n", "    arrays = times_utc, transect_lats, transect_lons\n    check_dimensions(*(x.ndim for x in arrays), required_dims=(1, 1, 1))\n"))
r('w_use_star', (U, "    return Sunpos(\n        times=times,\n        latitude=grid_lats,\n        longitude=grid_lons,\n        algorithm=algorithm,\n        engine=engine,\n        refraction=refraction,\n        usecase='regular_grid',\n        ecf=solpos.get('ecf'),\n        eot=solpos.get('eot'),\n        declination=solpos.get('declination'),\n        zenith=solpos.get('zenith'),\n        azimuth=solpos.get('azimuth')\n    )\n",
  "    inputs = {'times': times, 'latitude': grid_lats, 'longitude': grid_lons}\n    settings = dict(algorithm=algorithm, engine=engine, refraction=refraction)\n    return Sunpos(usecase='regular_grid', **{**solpos, **inputs, **settings})\n"))
r('w_date_ufunc', (D, "    utc_to_tst = 60 * (4 * expanded_longitude + expanded_eot)\n    times_tst = np.array(expanded_times_utc + 1e9 * utc_to_tst, dtype=dt64)\n    return np.squeeze(times_tst)\n", "    shift = (60e9 * (expanded_eot + 4 * expanded_longitude)).astype(np.float128)\n    return (expanded_times_utc + shift).astype(dt64).squeeze()\n"))
r('w_date_common', (D, "def true_solar_time(", "def _shift(times, longitude, sign):\n    dt64 = 'datetime64[ns]'\n    times = np.array(times, ndmin=1)\n    longitude = np.array(longitude, ndmin=1)\n    eot = evaluate(times, 0., 0.)['eot']  # eot, minutes\n    index = (slice(None),) + (None,)*longitude.ndim\n    minutes = 4 * longitude[None, ...] + eot[index]\n    ns = times.astype(dt64).astype(np.float128)[index] + sign * 60e9 * minutes\n    return np.squeeze(ns.astype(dt64))\n\n\ndef true_solar_time("),
  (D, ("    dt64 = 'datetime64[ns]'\n    times_utc = np.array(times_utc", "\n\ndef universal"), "    return _shift(times_utc, longitude, +1)\n"), (D, ("    dt64 = 'datetime64[ns]'\n    times_tst = np.array(times_tst", "<EOF>"), "    return _shift(times_tst, longitude, -1)\n"))

# ------------------------------------------------------------------ code that the engine does not take (numpy.lexsort)
def out_of_reach(x):
    return "np.lexsort((np.ravel(%s),))\n" % x


r('x_core', (C, "    lats_nonat = latitude[nonat]", "    " + out_of_reach('times_nonat') + "    lats_nonat = latitude[nonat]"))
r('x_init', (B, "        self._latitude = np.array(latitude, ndmin=1)\n", "        self._latitude = np.array(latitude, ndmin=1)\n        " + out_of_reach('latitude')))
for name, at in (('true_solar_time', "        tst_f = utc_f + ("), ('zenith', "        return np.degrees(self._zenith)"), ('eth', "        eth = ISC*self.ecf"),
                 ('airmass', "        am = 1./rec_am"), ('sunrise', "        tanlat = np.tan("), ('sunset', "        return wss."),
                 ('daylight', "        return (2./15.)"), ('incidence', "        cosbeta, sinbeta"), ('cosz', "        return np.cos(self._zenith)"),
                 ('elevation', "        return (90. - self.zenith)")):
    r('x_' + name, (B, at, "        " + out_of_reach('self._zenith.values') + at))
r('x_date', (D, "    # for compat with", "    " + out_of_reach('longitude') + "    # for compat with", 'all'))
r('x_validate', (V, "    # validate longitudes...\n", "    " + out_of_reach('longitude') + "    # validate longitudes...\n"))
r('x_use', (U, "    check_dimensions(", "    " + out_of_reach('longitude') + "    check_dimensions(", 'all'))
r('x_cli', (POS, "    eot = sw.eot", "    " + out_of_reach('sw.eot.values') + "    eot = sw.eot"), props=['C19'])
for name, f in (('npsa', NPSA), ('epsa', EPSA), ('nst', NST), ('est', EST), ('niq', NIQ), ('eiq', EIQ), ('nrel', NREL)):
    r('x_' + name, (f, "    if ndim == 0:\n", "    " + out_of_reach('unixtime') + "    if ndim == 0:\n"))


def apply(w, edits):
    for e in edits:
        f, a, b = e[:3]
        p = os.path.join(w, 'src/sunwhere', f)
        s = open(p).read()
        many = len(e) > 3
        if isinstance(a, tuple):
            n, i = 0, 0
            while True:
                i = s.find(a[0], i)
                if i < 0:
                    break
                j = len(s) if a[1] == '<EOF>' else s.find(a[1], i + 1)
                if j < 0:
                    return 'BAD END ' + a[1][:40]
                s = s[:i] + b + s[j:]
                i += len(b)
                n += 1
                if not many:
                    break
            if not n:
                return 'BAD EDIT ' + a[0][:50]
        else:
            if a not in s:
                return 'BAD EDIT ' + a[:50]
            s = s.replace(a, b) if many else s.replace(a, b, 1)
        open(p, 'w').write(s)
    return ''


def one(x):
    name, props, edits = x
    w, o = '/tmp/ref_%s' % name, '/tmp/ref_%s_out' % name
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'))
    err = apply(w, edits)
    t = time.time()
    out = []
    if err:
        out.append(err)
    else:
        q = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'] if 0 else
                           ['/opt/venv/bin/python', '-c', SMOKE], env=dict(os.environ, PYTHONPATH=w + '/src'), capture_output=True, text=True, cwd=w)
        if q.returncode:
            out.append('BEHAVIOUR ' + (q.stderr or q.stdout)[-300:])
        for p in props:
            if PROPS and p not in PROPS:
                continue
            r = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), p] + ([] if MON else ['--no-monitors']),
                               env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VF_OUT=o), capture_output=True, text=True)
            nv = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            try:
                cov = json.load(open(os.path.join(o, 'evidence', p + '.json')))['coverage']
                und, notes = cov['undischarged'], cov['notes']
                tot = cov['obligations']
            except Exception:
                und, notes, tot = [{'name': '?', 'detail': r.stderr[-300:]}], [], 0
            base = BASE.get(p)
            if r.returncode or nv:
                out.append('%s ALARM%s %s' % (p, ' (no input)' if all('no-failing-input' in x for x in nv) else '', [x for x in r.stdout.splitlines() if 'failed obl' in x][:2]))
            if und or notes or (base and tot != base):
                out.append('%s undischarged %d/%d %s %s' % (p, len(und), tot, [(u['name'], u['detail'][:160]) for u in und[:2]], notes[:1]))
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(o, ignore_errors=True)
    return name, time.time() - t, out


SMOKE = r'''
import sys, os, pickle
import numpy as np, pandas as pd
sys.path.insert(0, os.getcwd() + '/src')
import sunwhere
from sunwhere.utils.datetime import true_solar_time, universal_time_coordinated
assert sunwhere.__file__.startswith(os.getcwd()), sunwhere.__file__
rng = np.random.default_rng(1)
t = pd.DatetimeIndex(list(pd.date_range('2024-02-28 01:02:03', periods=30, freq='7h13min')) + [pd.NaT]).tz_localize('Europe/Madrid')
lat, lon = rng.uniform(-90, 90, 31), rng.uniform(-180, 180, 31)
lat[:3] = 90, -90, np.nan
out = []
for alg, engs in (('psa', ('numpy', 'numexpr')), ('soltrack', ('numpy', 'numexpr')), ('iqbal', ('numpy', 'numexpr')), ('nrel', ('numexpr',))):
    for eng in engs:
        for uc in ('sites', 'transect', 'regular_grid'):
            for ref in (True, False):
                s = getattr(sunwhere, uc)(t, lat, lon, algorithm=alg, engine=eng, refraction=ref)
                for k in 'latitude longitude ecf eot declination dec zenith sza elevation azimuth saa cosz true_solar_time'.split():
                    v = getattr(s, k)
                    out.append((v.name, v.dims, sorted(map(str, v.coords)), sorted(v.attrs.items()), v.values))
                if alg == 'psa' and ref:
                    for k in 'none perez_1990 skarveith_1998 gonzalez_and_calbo_1999'.split():
                        out.append(s.eth(am_correction=k).values)
                    for k in 'kasten_1965 kasten_and_young_1989 gueymard_2001 gueymard_2003'.split():
                        out.append(s.airmass(k).values)
                    for k in 'rad deg tst utc local'.split():
                        out += [s.sunrise(k).values, s.sunset(k).values]
                    out += [s.daylight_length().values, s.incidence(30., 40.).values, str(s.times), str(s.times_utc), s.timezone]
out += [true_solar_time(t.tz_convert('UTC').tz_localize(None), lon), universal_time_coordinated(t.tz_convert('UTC').tz_localize(None), lon)]
f = '/tmp/refbase.pkl'
if not os.path.exists(f):
    pickle.dump(out, open(f, 'wb'))
ref = pickle.load(open(f, 'rb'))
def same(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype: return False
        if a.dtype.kind in 'mM':
            return bool(((np.isnat(a) & np.isnat(b)) | (abs((a - b).astype('timedelta64[ns]').astype(float)) < 2000)).all())
        return bool(np.allclose(a, b, 1e-9, 1e-9, equal_nan=True)) if a.dtype.kind == 'f' else bool((a == b).all())
    return a == b
bad = [i for i, (x, y) in enumerate(zip(out, ref)) if not same(x, y)]
assert not bad, (bad[:5], out[bad[0]], ref[bad[0]])
'''
BASE = {}
PROPS, MON = [], False
if __name__ == '__main__':
    a = sys.argv[1:]
    if '--props' in a:
        i = a.index('--props')
        PROPS = a[i+1].split(',')
        del a[i:i+2]
    if '--monitors' in a:
        MON = True
        a.remove('--monitors')
    try:
        for p in ALL:
            BASE[p] = json.load(open('/verif/evidence/%s.json' % p))['coverage']['obligations']
    except Exception:
        pass
    todo = [x for x in R if not a or x[0] in a or any(x[0].startswith(q + '_') for q in a)]
    with ThreadPoolExecutor(int(os.environ.get('W', '6'))) as ex:
        for n, dt, out in ex.map(one, todo):
            print('%s %.0fs %s' % (n, dt, 'quiet, all discharged' if not out else ''), flush=True)
            for q in out:
                print('    ' + q, flush=True)
