From 382e56c317d51b9b9c6531f18be5853f233db991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 01/33] fix: reject inputs of different shapes in dewtemp and
 relhum

The shape guard tested the truth of a generator object, which is always
true, so the documented ValueError was never raised.
---
 geocat/comp/meteorology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index eea45c9..7bae095 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -283,7 +283,7 @@ def dewtemp(
     inputs = [temperature, relative_humidity]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("dewtemp: dimensions of inputs are not the same")
 
     # Get input types
@@ -562,7 +562,7 @@ def relhum(
     inputs = [temperature, mixing_ratio, pressure]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("relhum: dimensions of inputs are not the same")
 
     if not hasattr(temperature, 'clip'):
-- 
2.43.0


From dde09d7f92adfd5243332d9862753f18e4405f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 02/33] fix: relhum_water returns a list for list inputs, as
 documented

relhum_ice already converts the result back; relhum_water returned an
ndarray.
---
 geocat/comp/meteorology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 7bae095..6e6e65b 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -780,6 +780,10 @@ def relhum_water(
             data=relative_humidity, coords=save_coords, dims=save_dims, attrs=save_attrs
         )
 
+    # if elevated to np array, return to original type
+    if in_types[0] in {list, float, int} and isinstance(relative_humidity, np.ndarray):
+        relative_humidity = relative_humidity.tolist()
+
     return relative_humidity
 
 
-- 
2.43.0


From 99f06f7b9c8ead4630639fd1c2ab4b444ec40a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 03/33] fix: delta_pressure when the surface lies within the
 top layer

With the surface pressure above the first layer interface only, the top
layer is also the bottom layer; its thickness was computed against the
last (wrapped-around) pressure level and could be negative.
---
 geocat/comp/meteorology.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 6e6e65b..61c87f4 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1251,9 +1251,13 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
         )
     ]  # delta p_k = p_{k+1/2} - p_{k-1/2}
 
-    delta_pressure[end_level] = (
-        surface_pressure - (pressure_lev[end_level] + pressure_lev[end_level - 1]) / 2
-    )  # bottom level
+    if start_level == end_level:
+        # surface lies within the top layer
+        delta_pressure[end_level] = surface_pressure - pressure_top
+    else:
+        delta_pressure[end_level] = (
+            surface_pressure - (pressure_lev[end_level] + pressure_lev[end_level - 1]) / 2
+        )  # bottom level
 
     # Return delta_pressure to original order
     if is_pressuredecreasing:
-- 
2.43.0


From 7c7109a5f7e01a2a2dc50ecea3a2eae1599f227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 04/33] fix: delta_pressure_hybrid drops every coordinate
 before differencing

Only the first coordinate was dropped; with a further coordinate listed
before the level coordinate, xarray aligned adjacent levels by label and
the result lost layers.
---
 geocat/comp/interpolation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a840b63..e03894f 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -491,10 +491,8 @@ def delta_pressure_hybrid(
         hyb = np.expand_dims(hyb, axis=(1, 2))
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
-        if len(hya.coords) > 0:
-            hya = hya.drop(list(hya.coords)[0])
-        if len(hyb.coords) > 0:
-            hyb = hyb.drop(list(hyb.coords)[0])
+        hya = hya.drop_vars(list(hya.coords))
+        hyb = hyb.drop_vars(list(hyb.coords))
         # make sure hya and hyb dims align, favor hya dim name
         if set(hya.dims) != set(hyb.dims):
             hyb = hyb.rename({hyb.dims[0]: hya.dims[0]})
-- 
2.43.0


From 16d5f52447b171e4e7cba43d696950ce1df01dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 05/33] fix: interp_hybrid_to_pressure always labels plev and
 drops level coordinates

---
 geocat/comp/interpolation.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index e03894f..0dd1f55 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -739,12 +739,9 @@ def interp_hybrid_to_pressure(
     dims_dict = {output.dims[i]: dims[i] for i in range(len(output.dims))}
     output = output.rename(dims_dict)
 
-    coords = {}
-    for k, v in data.coords.items():
-        if k != lev_dim:
-            coords.update({k: v})
-        else:
-            coords.update({"plev": new_levels})
+    # Keep every coordinate that does not vary along the replaced level dimension
+    coords = {k: v for k, v in data.coords.items() if lev_dim not in v.dims}
+    coords["plev"] = new_levels
 
     output = output.transpose(*dims).assign_coords(coords)
 
-- 
2.43.0


From fb1bc4cad71d70c37a599659cd698b8d8555c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 06/33] fix: interp_hybrid_to_pressure with new_levels that are
 not monotonic

---
 geocat/comp/interpolation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 0dd1f55..225238d 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -664,6 +664,13 @@ def interp_hybrid_to_pressure(
 
     interp_axis = data.dims.index(lev_dim)
 
+    # metpy matches values to levels only if those are in monotonic order
+    level_order = None
+    steps = np.diff(new_levels)
+    if np.any(steps > 0) and np.any(steps < 0):
+        level_order = np.argsort(new_levels)
+        new_levels = np.asarray(new_levels)[level_order]
+
     # Calculate pressure levels at the hybrid levels
     pressure = pressure_at_hybrid_levels(ps, hyam, hybm, p0)  # Pa
 
@@ -755,6 +762,10 @@ def interp_hybrid_to_pressure(
             if output.data.__module__ == 'pint' and not in_pint:
                 output.data = output.data.to('pascal').magnitude
 
+    # Return the levels in the order they were requested
+    if level_order is not None:
+        output = output.isel(plev=np.argsort(level_order))
+
     return output
 
 
-- 
2.43.0


From af38ecb964cb9681c299bd5f6bf45e886414efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 07/33] fix: interp_sigma_to_hybrid sizes its output by the
 hybrid levels

The output was a copy of the first levels of the data, so more hybrid than
sigma levels raised and integer data truncated the interpolated values.
---
 geocat/comp/interpolation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 225238d..9f1d944 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -842,7 +842,11 @@ def interp_sigma_to_hybrid(
 
         h_coords = sigma_stacked[0, :].copy()
 
-        output = data_stacked[:, : len(hyam)].copy()
+        output = xr.full_like(
+            data_stacked.isel({lev_dim: np.zeros(len(hyam), dtype=int)}),
+            np.nan,
+            dtype=np.result_type(data.dtype, np.float32),
+        )
 
         for idx, (d, s) in enumerate(zip(data_stacked, sigma_stacked)):
             output[idx, :] = xr.DataArray(
@@ -855,7 +859,11 @@ def interp_sigma_to_hybrid(
     else:
         h_coords = sigma
 
-        output = data[: len(hyam)].copy()
+        output = xr.full_like(
+            data.isel({lev_dim: np.zeros(len(hyam), dtype=int)}),
+            np.nan,
+            dtype=np.result_type(data.dtype, np.float32),
+        )
         output[: len(hyam)] = xr.DataArray(
             _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
             dims=[lev_dim],
-- 
2.43.0


From c45c3d2110275cdc1add75050b2536e81203a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 08/33] fix: climate_anomaly freq='year' mixes years a century
 apart

The groups were keyed by the two-digit year, so that 1950 and 2050 shared
one yearly mean.
---
 geocat/comp/climatologies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 1bc805a..c7f16d9 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -192,7 +192,7 @@ def climate_anomaly(
         'day': ('%m-%d', 'D'),
         'month': ('%m', 'MS'),
         'season': (None, 'QS-DEC'),
-        'year': ('%y', 'Y'),
+        'year': ('%Y', 'Y'),
     }
 
     if freq not in freq_dict:
-- 
2.43.0


From f6b530c175730606fc8fbfc3a2f80b07498ec44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 09/33] fix: calendar_average with missing values

dropna dropped a time step for all cells when any cell was missing in it,
so data with a masked cell lost periods or could not be averaged at all,
and a missing month counted as zero in its season and year.
---
 geocat/comp/climatologies.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index c7f16d9..dd80797 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -122,6 +122,17 @@ def _infer_calendar_name(dates):
         return np.asarray(dates).ravel()[0].calendar
 
 
+def _average_of_periods(dset, time_dim, frequency, keep_attrs):
+    """Average the samples of every period of length ``frequency`` which has any.
+
+    Missing values are skipped; a period is left out only when it has no
+    time steps, not when some of its values are missing.
+    """
+    resampled = dset.resample({time_dim: frequency}).mean(keep_attrs=keep_attrs)
+    counts = dset[time_dim].resample({time_dim: frequency}).count()
+    return resampled.isel({time_dim: (counts > 0).values})
+
+
 def climate_anomaly(
     dset: typing.Union[xr.DataArray, xr.Dataset],
     freq: str,
@@ -430,11 +441,7 @@ def calendar_average(
     calendar = _infer_calendar_name(dset[time_dim])
 
     # Group data
-    dset = (
-        dset.resample({time_dim: frequency})
-        .mean(keep_attrs=keep_attrs)
-        .dropna(time_dim)
-    )
+    dset = _average_of_periods(dset, time_dim, frequency, keep_attrs)
 
     # Weight the data by the number of days in each month
     if freq in ['season', 'year']:
@@ -445,12 +452,12 @@ def calendar_average(
         key = freq
         format, frequency = freq_dict[key]
         # Compute the weights for the months in each season so that the
-        # seasonal/yearly averages account for months being of different lengths
-        month_length = dset[time_dim].dt.days_in_month.resample({time_dim: frequency})
-        weights = month_length.map(lambda group: group / group.sum())
-
-        dset_weighted = dset * weights
-        dset = (dset_weighted).resample({time_dim: frequency}).sum()
+        # seasonal/yearly averages account for months being of different lengths.
+        # Months with missing values have no weight
+        month_length = dset[time_dim].dt.days_in_month
+        dset_weighted = (dset * month_length).resample({time_dim: frequency}).sum()
+        weights = (dset.notnull() * month_length).resample({time_dim: frequency}).sum()
+        dset = dset_weighted / weights.where(weights > 0)
 
     # Center the time coordinate by inferring and then averaging the time bounds
     dset = _calculate_center_of_time_bounds(
-- 
2.43.0


From 08adcfba7b3e83a544800a7ca6258f23637555fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 10/33] fix: climatology_average by season with missing values

dropna dropped a month for all cells when any cell was missing in it: data
with a masked cell had a climatology of zero everywhere.
---
 geocat/comp/climatologies.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index dd80797..aa7a87a 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -635,17 +635,17 @@ def climatology_average(
             dset_filter = dset.sel({time_dim: dset[time_dim].dt.month.isin(months)})
 
             # Calculate monthly average before calculating seasonal climatologies
-            dset_filter = (
-                dset_filter.resample({time_dim: frequency})
-                .mean(keep_attrs=keep_attrs)
-                .dropna(time_dim)
+            dset_filter = _average_of_periods(
+                dset_filter, time_dim, frequency, keep_attrs
             )
 
             # Compute the weights for the months in each season so that the
-            # seasonal averages account for months being of different lengths
+            # seasonal averages account for months being of different lengths.
+            # Months with missing values have no weight
             month_length = dset_filter[time_dim].dt.days_in_month
-            weights = month_length / month_length.sum()
-            climatology = (dset_filter * weights).sum(dim=time_dim)
+            weights = (dset_filter.notnull() * month_length).sum(dim=time_dim)
+            climatology = (dset_filter * month_length).sum(dim=time_dim)
+            climatology = climatology / weights.where(weights > 0)
 
             seasonal_climates.append(climatology)
         dset = xr.concat(seasonal_climates, dim='season')
-- 
2.43.0


From 58d767ebe65cdd4371aee323c57341e6b4a7e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 11/33] fix: climatology_average time labels do not match its
 groups

The labels were all days (hours) of the median year between the first and
the last group: data with a Feb 29 but a median year without it, data that
cover only the ends of a year, and data coarser than one hour were refused.
---
 geocat/comp/climatologies.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index aa7a87a..0ee0da9 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -47,6 +47,7 @@ def _calculate_center_of_time_bounds(
     start: typing.Union[str, cftime.datetime],
     end: typing.Union[str, cftime.datetime],
     keep_attrs: bool = None,
+    label_format: str = None,
 ) -> typing.Union[xr.Dataset, xr.DataArray]:
     """Helper function to determine the time bounds based on the given dataset
     and frequency and then calculate the averages of them.
@@ -80,6 +81,10 @@ def _calculate_center_of_time_bounds(
         If False, the new object will be returned without attributes.
         Defaults to None which means the attrs will only be kept in unambiguous circumstances.
 
+    label_format : str, optional
+        If given, the time coordinate of ``dset`` holds labels in this format, and only
+        the periods between ``start`` and ``end`` which have one of these labels are used.
+
     Returns
     -------
     computed_dset: :class:`xarray.Dataset`, :class:`xarray.DataArray`
@@ -100,9 +105,13 @@ def _calculate_center_of_time_bounds(
         )
     else:
         time_bounds = xr.date_range(start=start, end=end, freq=freq, calendar=calendar)
+    present = slice(None)
+    if label_format is not None:
+        present = np.isin(time_bounds.strftime(label_format), dset[time_dim].values)
     time_bounds = time_bounds.append(time_bounds[-1:].shift(1, freq=freq))
     time = xr.DataArray(
-        np.vstack((time_bounds[:-1], time_bounds[1:])).T, dims=[time_dim, 'nbd']
+        np.vstack((time_bounds[:-1], time_bounds[1:])).T[present],
+        dims=[time_dim, 'nbd'],
     ).mean(dim='nbd', keep_attrs=keep_attrs)
     return dset.assign_coords({time_dim: time})
 
@@ -653,8 +662,14 @@ def climatology_average(
         return dset.assign_attrs(attrs)
 
     else:
-        # Retrieve floor of median year
-        median_yr = np.median(dset[time_dim].dt.year.values)
+        # Retrieve median year, or the closest one which has a Feb 29 if the data has it
+        years = dset[time_dim].dt.year.values
+        median_yr = np.rint(np.median(years))
+        if freq != 'month':
+            feb_29 = (dset[time_dim].dt.month == 2) & (dset[time_dim].dt.day == 29)
+            leap_yrs = years[feb_29.values]
+            if leap_yrs.size > 0:
+                median_yr = leap_yrs[np.abs(leap_yrs - median_yr).argmin()]
 
         # Group data by format then calculate average of groups
         dset = (
@@ -674,6 +689,7 @@ def climatology_average(
             start=f'{median_yr:.0f}-{start_time}',
             end=f'{median_yr:.0f}-{end_time}',
             keep_attrs=keep_attrs,
+            label_format=format,
         )
 
         return dset
-- 
2.43.0


From e5e9db9bcd652b6a38eab8794606e9324807a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 12/33] fix: month_to_season for data that does not start in
 January

For DJF (NDJ) the last (first) month was dropped whether or not its season
is centered outside of the data, leaving seasons averaged without it; for
other seasons a mean centered outside of the data was kept.
---
 geocat/comp/climatologies.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 0ee0da9..b932a72 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -331,15 +331,6 @@ def month_to_season(
         {time_coord_name: dset[time_coord_name].dt.month.isin(months)}
     )
 
-    if (
-        season == 'DJF'
-    ):  # For this season, the last "mean" will be the value for Dec so we drop the last month
-        data_filter = data_filter.isel({time_coord_name: slice(None, -1)})
-    elif (
-        season == 'NDJ'
-    ):  # For this season, the first "mean" will be the value for Jan so we drop the first month
-        data_filter = data_filter.isel({time_coord_name: slice(1, None)})
-
     # Group the months into three and take the mean
     means = data_filter.resample({time_coord_name: quarter}).mean(keep_attrs=keep_attrs)
     # Set offset for supported array formats
@@ -358,7 +349,16 @@ def month_to_season(
 
     # The line above tries to take the mean for all quarters even if there is not data for some of them
     # Therefore, we must filter out the NaNs
-    return means.sel({time_coord_name: means[time_coord_name].dt.month == months[1]})
+    # Also drop the means centered on a month outside of the range of the data
+    months_in = dset[time_coord_name].dt.year * 12 + dset[time_coord_name].dt.month
+    months_out = means[time_coord_name].dt.year * 12 + means[time_coord_name].dt.month
+    return means.sel(
+        {
+            time_coord_name: (means[time_coord_name].dt.month == months[1])
+            & (months_out >= months_in.min())
+            & (months_out <= months_in.max())
+        }
+    )
 
 
 def calendar_average(
-- 
2.43.0


From dcd15946017e5be4608dc4134fc55e0e45b91a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 13/33] fix: fourier_filter along a time_axis other than the
 first

The frequency resolution was computed from the length of the first axis,
and DataArrays whose axes differ in length could not be filtered.
---
 geocat/comp/fourier_filters.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 9a663bf..5a2d628 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -126,9 +126,9 @@ def fourier_filter(
     >>> axs[1].plot(np.imag(no_tide)[start:end])
     >>> fig.show()
     """
-    resolution = frequency / len(signal)
-    signal = np.swapaxes(signal, time_axis, 0)
-    res_fft = np.fft.fft(signal, axis=0)
+    data = np.swapaxes(np.asarray(signal), time_axis, 0)
+    resolution = frequency / len(data)
+    res_fft = np.fft.fft(data, axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
     cfh_index = m.ceil(cutoff_frequency_high / resolution)
@@ -166,9 +166,7 @@ def fourier_filter(
     result = np.real(result)
     result = np.swapaxes(result, time_axis, 0)
     if type(signal) is xr.DataArray:
-        xr_result = signal.copy()
-        xr_result.data = result
-        result = xr_result
+        result = signal.copy(data=result)
     return result
 
 
-- 
2.43.0


From b5c88d4ed8c595a23ec41f31a6ded83cdc3c9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 14/33] fix: interp_multidim with cyclic=True for more than two
 dimensions and for longitudes that are not ascending

---
 geocat/comp/interpolation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 9f1d944..eddc9f1 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -106,21 +106,23 @@ def _pre_interp_multidim(
 
     # add cyclic points and create new data array
     if cyclic:
-        padded_data = np.pad(data_in.values, ((0, 0), (1, 1)), mode='wrap')
+        # wrapping around only makes sense for ascending longitudes
+        data_in = data_in.sortby(data_in.dims[-1])
+        pad_width = [(0, 0)] * (data_in.ndim - 1) + [(1, 1)]
+        padded_data = np.pad(data_in.values, pad_width, mode='wrap')
         padded_longitudes = np.pad(
             data_in.coords[data_in.dims[-1]], (1, 1), mode='wrap'
         )
         padded_longitudes[0] -= 360
         padded_longitudes[-1] += 360
 
-        data_in = xr.DataArray(
-            padded_data,
-            coords={
-                data_in.dims[-2]: data_in.coords[data_in.dims[-2]].values,
-                data_in.dims[-1]: padded_longitudes,
-            },
-            dims=data_in.dims,
-        )
+        coords = {
+            dim: data_in.coords[dim].values
+            for dim in data_in.dims[:-1]
+            if dim in data_in.coords
+        }
+        coords[data_in.dims[-1]] = padded_longitudes
+        data_in = xr.DataArray(padded_data, coords=coords, dims=data_in.dims)
 
     return data_in
 
-- 
2.43.0


From 89780505bd212fd1f258500ae799e0091abaf1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 15/33] fix: interp_multidim returns an ndarray for ndarray
 input, of any number of dimensions, as documented

---
 geocat/comp/interpolation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index eddc9f1..d414554 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -980,13 +980,16 @@ def interp_multidim(
     `NCL linint2 <https://www.ncl.ucar.edu/Document/Functions/Built-in/linint2.shtml>`__
     """
     # check for xarray/numpy
-    if not isinstance(data_in, xr.DataArray):
+    is_xarray = isinstance(data_in, xr.DataArray)
+    if not is_xarray:
         if lat_in is None or lon_in is None:
             raise ValueError(
                 "Argument lat_in and lon_in must be provided if data_in is not an xarray"
             )
         data_in = xr.DataArray(
-            data_in, dims=['lat', 'lon'], coords={'lat': lat_in, 'lon': lon_in}
+            data_in,
+            dims=[f'dim_{i}' for i in range(np.ndim(data_in) - 2)] + ['lat', 'lon'],
+            coords={'lat': lat_in, 'lon': lon_in},
         )
 
     output_coords = {
@@ -1000,4 +1003,5 @@ def interp_multidim(
     )
     data_out_modified = _post_interp_multidim(data_out, missing_val=missing_val)
 
-    return data_out_modified
+    # return the same type of object as the input
+    return data_out_modified if is_xarray else data_out_modified.values
-- 
2.43.0


From 1c71ddc1727f3227a9d353a045a46db8289c7df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:25 +0000
Subject: [PATCH 16/33] fix: zonal_meridional_psi accepts pressure coordinates
 that are not called plev

---
 geocat/comp/meteorology.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 61c87f4..dbd907a 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1519,8 +1519,10 @@ def zonal_meridional_psi(
         )
 
     # zonal means
+    if plev_coordname != 'plev':
+        ux_ipress = ux_ipress.rename({plev_coordname: 'plev'})
     da_v_zonal = ux_ipress.zonal_mean(lat=lat)
-    da_v_zonal['plev'] = ux_ipress[plev_coordname]
+    da_v_zonal['plev'] = ux_ipress['plev']
     da_PS_zonal = uxds[surface_air_pressure_varname].zonal_mean(lat=lat)
 
     # Validate surface pressure before integration
-- 
2.43.0


From 9c8ff5d80b94644a27303c65f365157a226d9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:29 +0000
Subject: [PATCH 17/33] fix: scale_voronoi returns a DataArray for DataArray
 input, as documented

---
 geocat/comp/spherical.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/spherical.py b/geocat/comp/spherical.py
index 35450f6..bb74481 100644
--- a/geocat/comp/spherical.py
+++ b/geocat/comp/spherical.py
@@ -223,7 +223,10 @@ def scale_voronoi(
         2-dimensional array containing the area of the spherical voronoi cell for each ``theta`` and ``phi`` pair.
     """
 
-    if type(theta) is xr.DataArray:
+    in_type = type(theta)
+
+    if in_type is xr.DataArray:
+        dims = theta.dims
         theta = theta.to_numpy()
         phi = phi.to_numpy()
 
@@ -243,7 +246,7 @@ def scale_voronoi(
         ).calculate_areas()
     ).reshape(theta.shape)
 
-    if type(theta) is xr.DataArray:
-        scale = xr.DataArray(scale, dims=theta.dims)
+    if in_type is xr.DataArray:
+        scale = xr.DataArray(scale, dims=dims)
 
     return scale
-- 
2.43.0


From c2037d2a31afb78966ef8c481c4698689e220fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:03 +0000
Subject: [PATCH 18/33] fix: nmse detects uneven spacing along the second axis
 of 2-D coordinates and accepts a single latitude or longitude

---
 geocat/comp/stats.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 3b9f484..c35aa9b 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -83,16 +83,18 @@ def nmse(
     lat_diff = np.diff(observed.cf["latitude"], axis=0)
     lat_diff = (
         lat_diff
-        if not all(lat_diff.ravel() == 0)
-        else np.diff(observed.cf["latitude"], axis=1)
+        if lat_diff.ndim < 2 or not all(lat_diff.ravel() == 0)
+        else np.diff(observed.cf["latitude"], axis=1).T
     )
     lon_diff = np.diff(observed.cf["longitude"], axis=0)
     lon_diff = (
         lon_diff
-        if not all(lon_diff.ravel() == 0)
-        else np.diff(observed.cf["longitude"], axis=1)
+        if lon_diff.ndim < 2 or not all(lon_diff.ravel() == 0)
+        else np.diff(observed.cf["longitude"], axis=1).T
     )
-    if not np.allclose(lat_diff, lat_diff[0]) or not np.allclose(lon_diff, lon_diff[0]):
+    if not np.allclose(lat_diff, lat_diff[:1]) or not np.allclose(
+        lon_diff, lon_diff[:1]
+    ):
         raise ValueError(
             "Uneven latitude or longitude spacing, weighting calculation will not work"
         )
-- 
2.43.0


From 3fda511aa47ee0b54a778d48e25a19a2a633bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 19/33] fix: pearson_r accepts Datasets, as documented

---
 geocat/comp/stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index c35aa9b..0e4c89e 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -184,8 +184,9 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
     r : :class:`xarray.DataArray`, ndarray
         Pearson's correlation coefficient
     """
-    # if a and v are not xr.DataArrays
-    if not isinstance(a, xr.DataArray) and not isinstance(b, xr.DataArray):
+    # if a and b are not xarray objects
+    xr_types = (xr.DataArray, xr.Dataset)
+    if not isinstance(a, xr_types) and not isinstance(b, xr_types):
         if (dim is not None) and (axis is not None):
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
@@ -200,7 +201,7 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             return xs_internal._pearson_r(a, b, weights, axis, skipna)
         except ValueError:
             print('Data along `axis` must have the same dimension as `weights`')
-    else:  # if a and b are xr.DataArrays
+    else:  # if a and b are xarray objects
         if (dim is not None) and (axis is not None):
             warnings.warn("The `axis` keyword is unused with xarray.DataArray inputs")
         try:
-- 
2.43.0


From 313a6cb2f58e70903809b185bca95d68ce536cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 20/33] fix: pearson_r accepts lists and one weight per point
 along axis, as documented

---
 geocat/comp/stats.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 0e4c89e..48da9f7 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -191,6 +191,10 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
             )
+        a = np.asarray(a)
+        b = np.asarray(b)
+        if weights is not None:
+            weights = np.asarray(weights)
         if axis is None:  # squash array to 1D for element wise computation
             axis = 0
             a = np.ravel(a)
@@ -198,6 +202,11 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             if weights is not None:
                 weights = np.ravel(weights)
         try:
+            if weights is not None and weights.ndim == 1:
+                # one weight per point along `axis`
+                weights = np.moveaxis(
+                    np.broadcast_to(weights, np.moveaxis(a, axis, -1).shape), -1, axis
+                )
             return xs_internal._pearson_r(a, b, weights, axis, skipna)
         except ValueError:
             print('Data along `axis` must have the same dimension as `weights`')
-- 
2.43.0


From 90af360f3d402ae837c5725652f23aacf75089ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 21/33] fix: eofunc_eofs and eofunc_pcs accept time_dim=-1, as
 documented

---
 geocat/comp/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 48da9f7..0d654c6 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -233,7 +233,7 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
         # Transpose data if time_dim is not 0 (i.e. the first/left-most dimension)
         dims_to_transpose = np.arange(data.ndim).tolist()
         dims_to_transpose.insert(
-            0, dims_to_transpose.pop(dims_to_transpose.index(time_dim))
+            0, dims_to_transpose.pop(dims_to_transpose[time_dim])
         )
         data = np.transpose(data, axes=dims_to_transpose)
 
@@ -408,7 +408,9 @@ def eofunc_eofs(
         dims = ["eof"] + [data.dims[i] for i in range(data.ndim) if i != time_dim]
         coords = {k: v for (k, v) in data.coords.items() if k != data.dims[time_dim]}
     else:
-        dims = ["eof"] + [f"dim_{i}" for i in range(data.ndim) if i != time_dim]
+        dims = ["eof"] + [
+            f"dim_{i}" for i in range(data.ndim) if i != time_dim % data.ndim
+        ]
         coords = {}
 
     return xr.DataArray(eofs, attrs=attrs, dims=dims, coords=coords)
-- 
2.43.0


From 7d6acf498cc7935aa44c47b0dff37cfe99c1ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 22/33] fix: eofunc_eofs(meta=True) does not write into the
 attributes of its input

---
 geocat/comp/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 0d654c6..31f86dd 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -397,7 +397,7 @@ def eofunc_eofs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
     attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
@@ -526,7 +526,7 @@ def eofunc_pcs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     dims = ["pc", "time"]
     if meta:
-- 
2.43.0


From d73af8d4c763444450469bbfe5ad00fae49c8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 23/33] fix: eofunc_eofs and eofunc_pcs keep the metadata apart
 from the time dimension, wherever that was

---
 geocat/comp/stats.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 31f86dd..1e4882a 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -381,6 +381,11 @@ def eofunc_eofs(
     `eofunc_n <https://www.ncl.ucar.edu/Document/Functions/Built-in/eofunc_n.shtml>`__,
     `eofunc_n_Wrap <https://www.ncl.ucar.edu/Document/Functions/Contributed/eofunc_n_Wrap.shtml>`__
     """
+    if isinstance(data, xr.DataArray):
+        time_dim = 0  # xarray input has its time dimension first
+    else:
+        meta = False  # there is no metadata
+
     data, solver = _generate_eofs_solver(
         data, time_dim=time_dim, weights=weights, center=center, ddof=ddof
     )
@@ -405,8 +410,8 @@ def eofunc_eofs(
     attrs['varianceFraction'] = solver.varianceFraction(neigs=neofs)
 
     if meta:
-        dims = ["eof"] + [data.dims[i] for i in range(data.ndim) if i != time_dim]
-        coords = {k: v for (k, v) in data.coords.items() if k != data.dims[time_dim]}
+        dims = ["eof"] + list(data.dims[1:])
+        coords = {k: v for (k, v) in data.coords.items() if data.dims[0] not in v.dims}
     else:
         dims = ["eof"] + [
             f"dim_{i}" for i in range(data.ndim) if i != time_dim % data.ndim
@@ -507,6 +512,11 @@ def eofunc_pcs(
     `eofunc_ts_n_Wrap <https://www.ncl.ucar.edu/Document/Functions/Contributed/eofunc_ts_n_Wrap.shtml>`__
     """
 
+    if isinstance(data, xr.DataArray):
+        time_dim = 0  # xarray input has its time dimension first
+    else:
+        meta = False  # there is no metadata
+
     data, solver = _generate_eofs_solver(
         data, time_dim=time_dim, weights=weights, center=center, ddof=ddof
     )
@@ -530,7 +540,7 @@ def eofunc_pcs(
 
     dims = ["pc", "time"]
     if meta:
-        coords = {"time": data.coords[data.dims[time_dim]]}
+        coords = {"time": data.coords[data.dims[0]]}
     else:
         coords = {}
 
-- 
2.43.0


From f5ffa345d9acdd10f7c7e5ed3b9f50bc0213e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 24/33] fix: _find_var tries possible_names in the given order,
 not in hash order

---
 geocat/comp/gc_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 2b9c55f..426c9f4 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -117,16 +117,16 @@ def _find_var(
 
     # Then try direct name match
     if possible_names:
-        possible_names_expanded = set()
+        possible_names_expanded = []
         for name in possible_names:
-            possible_names_expanded.update(
-                {
+            possible_names_expanded.extend(
+                [
                     name,
                     name.lower(),
                     name.upper(),
                     name.capitalize(),
                     '_'.join(word.capitalize() for word in name.split('_')),
-                }
+                ]
             )
 
         for name in possible_names_expanded:
-- 
2.43.0


From 879a0a995a688b4765443624ace9a579ce1bcd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:35 +0000
Subject: [PATCH 25/33] fix: find coordinates by standard_name and long_name,
 as documented for zonal_meridional_psi

---
 geocat/comp/gc_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 426c9f4..0a59b7b 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -80,7 +80,7 @@ def _find_var(
             '_'.join(word.capitalize() for word in standard_name.split('_')),
         }
 
-        for var_name in ds.data_vars:
+        for var_name in [*ds.data_vars, *ds.coords]:
             var_attrs = ds[var_name].attrs
             attr_standard_name = var_attrs.get('standard_name', '')
             if (
@@ -104,7 +104,7 @@ def _find_var(
             long_name.replace('_', ' '),
         }
 
-        for var_name in ds.data_vars:
+        for var_name in [*ds.data_vars, *ds.coords]:
             var_attrs = ds[var_name].attrs
             attr_long_name = var_attrs.get('long_name', '')
             if (
-- 
2.43.0


From 1d28686fe7806bce851e72f01f01d5fe38161453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:02 +0000
Subject: [PATCH 26/33] fix: pearson_r returned None for dask input chunked
 along the correlated dimensions

---
 geocat/comp/stats.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 1e4882a..7fedd58 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -213,6 +213,14 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
     else:  # if a and b are xarray objects
         if (dim is not None) and (axis is not None):
             warnings.warn("The `axis` keyword is unused with xarray.DataArray inputs")
+        # dask inputs must not be split along the correlated dimensions
+        core = a.dims if dim is None else [dim] if isinstance(dim, str) else dim
+        a, b, weights = (
+            x.chunk({d: -1 for d in core if d in x.dims})
+            if isinstance(x, xr_types) and x.chunks
+            else x
+            for x in (a, b, weights)
+        )
         try:
             return xs.pearson_r(a, b, dim, weights, skipna, keep_attrs)
         except ValueError:
-- 
2.43.0


From 6c578b9b87f64403f4c6d7bbe7fe4900eeaa2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 27/33] fix: relhum failed with IndexError for missing
 temperatures

---
 geocat/comp/meteorology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index dbd907a..9326005 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -574,7 +574,8 @@ def relhum(
     # replace values of t above and below max and min values for temperature
     temperature = temperature.clip(mintemp, maxtemp)
 
-    it = (temperature - mintemp).astype(int)
+    # missing temperatures look up any entry and stay missing below
+    it = (np.fmax(temperature, mintemp) - mintemp).astype(int)
     t2 = mintemp + it
 
     es = (t2 + 1 - temperature) * table[it] + (temperature - t2) * table[it + 1]
-- 
2.43.0


From 9c00be0c65cce6fb8281c9898de9149ceab331ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 28/33] fix: interp_hybrid_to_pressure failed for data in
 memory with chunked surface pressure

---
 geocat/comp/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index d414554..d9db740 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -708,6 +708,10 @@ def interp_hybrid_to_pressure(
     if in_dask and output is None:
         from dask.array.core import map_blocks
 
+        # data may be in memory when another input is chunked
+        if data.chunks is None:
+            data = data.chunk()
+
         # Chunk pressure equal to data's chunks
         pressure = pressure.chunk(data.chunksizes)
 
-- 
2.43.0


From 8b5c08943d597e21d43de7d8d767e2c862132cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:35 +0000
Subject: [PATCH 29/33] fix: heat_index accepted humidities outside 0-100 in
 arrays with missing values

---
 geocat/comp/meteorology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 9326005..1f30f49 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -398,7 +398,7 @@ def heat_index(
         )
 
     # check relative humidity within valid range 0 to 100
-    if relative_humidity.min() < 0 or relative_humidity.max() > 100:
+    if (relative_humidity < 0).any() or (relative_humidity > 100).any():
         raise ValueError(
             'heat_index: invalid values for relative humidity, expected all between 0 and 100'
         )
-- 
2.43.0


From d0d0cb20b641bbf7fdd4fd5bb099ab9bad056aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:23 +0000
Subject: [PATCH 30/33] fix: delta_pressure failed for every surface pressure
 when one was missing

---
 geocat/comp/meteorology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 1f30f49..d6fa94e 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1224,6 +1224,10 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
             "`surface_pressure` must be greater than minimum `pressure_lev` value."
         )
 
+    # Without a surface pressure no layer has a thickness
+    if np.isnan(surface_pressure):
+        return np.full_like(pressure_lev, np.nan, dtype=float)
+
     # Sort so pressure increases (array goes from top of atmosphere to bottom)
     is_pressuredecreasing = pressure_lev[1] < pressure_lev[0]
     if is_pressuredecreasing:
-- 
2.43.0


From 36199f0b185a8e3536950661bab87ea902e36908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:00 +0000
Subject: [PATCH 31/33] fix: hybrid pressure functions misplaced the level axis
 unless surface pressure was 2-D

---
 geocat/comp/interpolation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index d9db740..392b33b 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -415,8 +415,8 @@ def pressure_at_hybrid_levels(psfc, hya, hyb, p0=100000.0):
 
     # broadcast if np inputs
     if isinstance(hya, np.ndarray):  # will be same type by here
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        hya = np.expand_dims(hya, axis=tuple(range(1, psfc.ndim + 1)))
+        hyb = np.expand_dims(hyb, axis=tuple(range(1, psfc.ndim + 1)))
 
     # Results in Pa
     # p(k) = hya(k) * p0 + hyb(k) * psfc
@@ -484,13 +484,16 @@ def delta_pressure_hybrid(
         hya = hya.values
         hyb = hyb.values
     elif isinstance(ps, xr.DataArray) and not isinstance(hya, xr.DataArray):
-        hya = xr.DataArray(hya)
-        hyb = xr.DataArray(hyb)
+        # the level dimension must not be one of ps
+        lev_names = (f'dim_{i}' for i in range(ps.ndim + 1))
+        lev_dim = next(name for name in lev_names if name not in ps.dims)
+        hya = xr.DataArray(hya, dims=lev_dim)
+        hyb = xr.DataArray(hyb, dims=lev_dim)
 
     # broadcast any np inputs or drop xarray lev dims
     if isinstance(hya, np.ndarray):  # hya and hyb already validated to be same type
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        hya = np.expand_dims(hya, axis=tuple(range(1, ps.ndim + 1)))
+        hyb = np.expand_dims(hyb, axis=tuple(range(1, ps.ndim + 1)))
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
         hya = hya.drop_vars(list(hya.coords))
-- 
2.43.0


From ed5299e8ceb5d6c3fdb40e44f4f5395b28685afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:12 +0000
Subject: [PATCH 32/33] fix: gradient overflowed for integer and single
 precision latitudes

---
 geocat/comp/gradient.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index 9bf8f1d..18c7a30 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -239,8 +239,11 @@ def gradient(
     else:
         raise ValueError("lat or lon must be either both 1d or 2d.")
 
-    axis0loc = _arc_lat_wgs84(lat2d)
-    axis1loc = _arc_lon_wgs84(lon2d, lat2d)
+    # the powers of latitude in the arc length series overflow integers and
+    # single precision
+    lon64, lat64 = lon2d.astype(np.float64), lat2d.astype(np.float64)
+    axis0loc = _arc_lat_wgs84(lat64)
+    axis1loc = _arc_lon_wgs84(lon64, lat64)
 
     axis0dist = np.gradient(axis0loc, axis=0)
     axis1dist = np.gradient(axis1loc, axis=1)
-- 
2.43.0


From 6998267f625170173579ea2ea0c53d0e14c6b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 33/33] fix: interp_sigma_to_hybrid kept coordinates of the
 sigma levels on the hybrid levels

---
 geocat/comp/interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 392b33b..7c9a2d5 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -880,6 +880,8 @@ def interp_sigma_to_hybrid(
 
     # Set output dims and coords
     output = output.rename({lev_dim: 'hlev'})
+    # coordinates along the sigma levels do not describe the hybrid levels
+    output = output.drop_vars([k for k, v in output.coords.items() if 'hlev' in v.dims])
     output = output.assign_coords({"hlev": h_coords.data})
 
     return output
-- 
2.43.0

