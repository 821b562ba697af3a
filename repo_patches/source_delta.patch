From 669035a82b34974bacffc281fa4def107f2f0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:19 +0000
Subject: [PATCH 01/37] fix: store the scalar beam power in FDBF
 (array-to-scalar assignment raises on NumPy >= 2.4)

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 6bda2cd..23e94df 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -651,7 +651,7 @@ class FDBF(AbstractWavefieldTransform):
                 steer[:, 0] = create_steering(kx)[:]
                 _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                        weighted_sscm), steer)
-                power[j, i] = _power
+                power[j, i] = _power[0, 0]
 
         return (frequencies, power)
 
-- 
2.43.0


From 622b4553597eb755a54a28b6014db9eca4e63c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:05 +0000
Subject: [PATCH 02/37] fix: zero_pad leaves the decimation factor alone when
 df is refused

---
 swprocess/activetimeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 0502f72..964fcba 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -255,9 +255,9 @@ class ActiveTimeSeries(TimeSeries):
         """
         df = float(df)
         logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
         if df <= 0:
             raise ValueError(f"df must be positive, currently {df}.")
+        self._multiple = 1
 
         new_nsamples_float = 1/(df*self.dt)
         new_nsamples = int(round(new_nsamples_float))
-- 
2.43.0


From 16c7d317d6e1fcf9d39e7753a088bb23e36004a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 03/37] fix: read the receiver's y coordinate, not x, when the
 coordinate scalar is positive

---
 swprocess/sensor1c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 7b61624..386c871 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -210,7 +210,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
@@ -260,7 +260,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
-- 
2.43.0


From a82173b492acbcd273435bf343cab191a18aeb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 04/37] fix: write the number of stacks to SU as the reader
 interprets it

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 7491c1f..8ad9232 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -775,7 +775,7 @@ class Array1D():
             trace.stats.su.trace_header.source_coordinate_y = rint(
                 self.source._y*1000)
             trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks-1)
+                sensor.nstacks)
             trace.stats.su.trace_header.delay_recording_time = rint(
                 sensor.delay*1000)
             trace.stats.su.trace_header.group_coordinate_x = rint(
-- 
2.43.0


From f9a76410948412cff0073b837b8fc631bcf511c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 05/37] fix: treat an unset coordinate scalar in a SEGY source
 header as one

---
 swprocess/array1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 8ad9232..f979b58 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -705,6 +705,10 @@ class Array1D():
 
                 scaleco = int(
                     stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
 
                 int_x = int(stats.segy.trace_header["source_coordinate_x"])
                 x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-- 
2.43.0


From 66b92aa22df550e9656dd2377c04d6ea24c62c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 06/37] fix: stack later files by receiver, with the same
 coordinate maps and read options as the first

---
 swprocess/array1d.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index f979b58..d349460 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -728,13 +728,18 @@ class Array1D():
             for fname in fnames[1:]:
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname))
+                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                 nsource = parse_source(stream[0].stats)
                 if nsource != source:
                     msg = f"fname = {fname} has an incompatible source."
                     raise ValueError(msg)
-                for sensor, trace in zip(obj.sensors, stream.traces):
-                    new_sensor = Sensor1C.from_trace(trace)
+                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+                               for trace in stream.traces]
+                new_sensors, _ = cls._check_array(new_sensors, nsource)
+                if len(new_sensors) != obj.nchannels:
+                    msg = f"fname = {fname} has an incompatible number of traces."
+                    raise ValueError(msg)
+                for sensor, new_sensor in zip(obj.sensors, new_sensors):
                     sensor.stack_append(new_sensor)
 
         return obj
-- 
2.43.0


From c23e61f35a4281f8dd9e7561fb3082f8a13cfb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 07/37] fix: trim_offsets considers every sensor when the
 source is on the far side or inside

---
 swprocess/array1d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index d349460..792a2ba 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -208,9 +208,6 @@ class Array1D():
             if (offset > min_offset) and (offset < max_offset):
                 sensors.append(sensor)
 
-            if (offset > max_offset):
-                break
-
         if len(sensors) == 0:
             msg = "Removing all sensors at offsets between "
             msg += f"{min_offset} and {max_offset}, results in no sensors."
-- 
2.43.0


From f3f54efd13e9697dda9f2af30746167ebb2af308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 08/37] fix: copies of trimmed or padded recordings keep their
 delay and decimation factor

---
 swprocess/activetimeseries.py | 11 +++++++----
 swprocess/sensor1c.py         | 17 ++++++++++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 964fcba..b697e91 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -150,10 +150,13 @@ class ActiveTimeSeries(TimeSeries):
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries):
-        return cls(activetimeseries.amplitude,
-                   activetimeseries.dt,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude,
+                  activetimeseries.dt,
+                  nstacks=activetimeseries.nstacks)
+        # A trimmed record may begin after the trigger (i.e., delay > 0).
+        obj._delay = activetimeseries.delay
+        obj._multiple = activetimeseries.multiple
+        return obj
 
     @classmethod
     def from_trace_seg2(cls, trace):
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 386c871..c509c1c 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -58,16 +58,23 @@ class Sensor1C(ActiveTimeSeries):
                    "x": float, "y": float, "z": float}
         args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
 
-        kwarg_map = {"nstacks": int, "delay": float}
+        kwarg_map = {"nstacks": int}
         kwargs = {key: opr(getattr(sensor1c, key))
                   for key, opr in kwarg_map.items()}
-        return cls(*args, **kwargs)
+        obj = cls(*args, **kwargs)
+        # A trimmed record may begin after the trigger (i.e., delay > 0).
+        obj._delay = float(sensor1c.delay)
+        obj._multiple = sensor1c.multiple
+        return obj
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries, x, y, z):
-        return cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
+                  nstacks=activetimeseries.nstacks)
+        # A trimmed record may begin after the trigger (i.e., delay > 0).
+        obj._delay = activetimeseries.delay
+        obj._multiple = activetimeseries.multiple
+        return obj
 
     @classmethod
     def from_trace(cls, trace,
-- 
2.43.0


From d6b06c787eec80a8ecb1cc844c0fc7cfca11e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 09/37] fix: mute measures time from the trigger for
 post-trigger records and clips lines to the record

---
 swprocess/array1d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 792a2ba..e3dd5b0 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -560,7 +560,7 @@ class Array1D():
         position = np.array(self.position())
         dt = self[0].dt
         delay = self[0].delay
-        ndelay = abs(delay/dt)
+        ndelay = -delay/dt
         nsamples = self[0].nsamples
 
         # Define starting index for each trace.
@@ -581,6 +581,10 @@ class Array1D():
         else:
             stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
 
+        # Muting lines may extend beyond the start or end of the record.
+        start_indices = np.clip(start_indices, 0, nsamples)
+        stop_indices = np.clip(stop_indices, start_indices, nsamples)
+
         # Define default windowing to be Tukey w/ 20% taper (10% on each side).
         if window_kwargs is None:
             window_kwargs = dict(alpha=0.2)
-- 
2.43.0


From 8e07ce322525f62b11ddc8c9e9a5f9bd2fde44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 10/37] fix: signal-to-noise frequencies use the true frequency
 step of over-padded windows

---
 swprocess/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index e0033ee..6cc4af9 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -42,7 +42,7 @@ class SignaltoNoiseRatio():
 
         # Frequency vector
         sensor = noise[0]
-        frqs = np.arange(sensor.nsamples) * sensor.df
+        frqs = np.arange(sensor.nsamples) * sensor._df
         Empty = WavefieldTransformRegistry.create_class("empty")
         keep_ids = Empty._frequency_keep_ids(frqs, fmin, fmax, sensor.multiple)
         frequencies = frqs[keep_ids]
-- 
2.43.0


From 3583003906e9ab7938f4ebeee73159f4b8a08a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 11/37] fix: an unknown normalization is refused before the
 power is touched

---
 swprocess/wavefieldtransforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 23e94df..ea703bf 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -96,9 +96,6 @@ class AbstractWavefieldTransform(ABC):
             Update the internal state of power.
 
         """
-        # Return power to unnormalized state.
-        self.power *= self._to_abs
-
         # Normalize power
         register = {"none": (np.abs,
                              lambda x: 1.),
@@ -108,6 +105,10 @@ class AbstractWavefieldTransform(ABC):
                                           lambda x: np.max(np.abs(x), axis=0))
                     }
         to_norm, to_abs = register[by]
+
+        # Return power to unnormalized state.
+        self.power *= self._to_abs
+
         self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
 
     def find_peak_power(self, by="frequency-maximum", **kwargs):
-- 
2.43.0


From 457f38786133b2f7cf5bacdbdb2d5fec6cc54847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 12/37] fix: find peaks of the power's magnitude when the power
 is complex

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index ea703bf..acc6859 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -133,7 +133,7 @@ class AbstractWavefieldTransform(ABC):
 
         """
         if by == "frequency-maximum":
-            return self.velocities[np.argmax(self.power, axis=0)]
+            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
         else:
             msg = f"find_peak_power by {by} not recognized, see docs for options."
             raise NotImplementedError(msg)
-- 
2.43.0


From 151f7bc76fc2aecc5d4d451c855efc1032d08f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 13/37] fix: FK does not overwrite the caller's settings

---
 swprocess/wavefieldtransforms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index acc6859..8499144 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -718,7 +718,6 @@ class FK(FDBF):
 
     @classmethod
     def from_array(cls, array, settings):
-        settings["fdbf-specific"]["weighting"] = "none"
-        settings["fdbf-specific"]["steering"] = "plane"
+        settings = {**settings, "fdbf-specific": {"weighting": "none", "steering": "plane"}}
 
         return super().from_array(array, settings)
-- 
2.43.0


From c2c07998f98cd75b707925e8049d6dc76600aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 14/37] fix: the frequency-domain workflow accepts a single
 file name

---
 swprocess/maswworkflows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 8b4adc3..bb751af 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -259,6 +259,8 @@ class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
     """Stack in the frequency-domain."""
 
     def run(self):
+        if isinstance(self.fnames, str):
+            self.fnames = [self.fnames]
         example_array = Array1D.from_files(self.fnames[0],
                                            map_x=self.map_x,
                                            map_y=self.map_y)
-- 
2.43.0


From 04193f766155a3641380b30f5ea7728ab06f905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 15/37] fix: the mute window settings reach the mute

---
 swprocess/maswworkflows.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index bb751af..0376533 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -84,9 +84,11 @@ class AbstractMaswWorkflow(ABC):
         """Mute record in the time domain."""
         mute = self.settings["pre-processing"]["mute"]
         if mute["apply"]:
+            window_kwargs = mute.get("window_kwargs") or None
             if self.signal_start is None and self.signal_end is None:
                 if mute["method"] == "interactive":
-                    self.signal_start, self.signal_end = self.array.interactive_mute()
+                    kwargs = {} if window_kwargs is None else {"window_kwargs": window_kwargs}
+                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                 # TODO (jpv): Implement predefined times for muting.
                 else:
                     msg = f"mute type {mute['method']} is unknown, use 'interactive'."
@@ -94,7 +96,7 @@ class AbstractMaswWorkflow(ABC):
             else:
                 self.array.mute(signal_start=self.signal_start,
                                 signal_end=self.signal_end,
-                                window_kwargs=mute.get("window kwargs"),
+                                window_kwargs=window_kwargs,
                                 )
 
     def select_signal(self):
-- 
2.43.0


From e6523f1d2a1a71b7d6d07aa50262926ccc80c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 16/37] fix: Peaks of different sizes are never equal, and any
 attribute can be compared

---
 swprocess/peaks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 6a8f845..e3e43b6 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -665,11 +665,13 @@ class Peaks():
         # Check iterable attributes
         for attr in self.attrs:
             try:
-                myattr = getattr(self, attr)
-                urattr = getattr(other, attr)
+                myattr = getattr(self, f"_{attr}")[self._valid]
+                urattr = getattr(other, f"_{attr}")[other._valid]
             except AttributeError:
                 return False
             else:
+                if myattr.shape != urattr.shape:
+                    return False
                 try:
                     if not np.allclose(myattr, urattr, equal_nan=True):
                         return False
-- 
2.43.0


From a74dc2f807e9274cb9cec5eb30c71bffc436c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 17/37] fix: Peaks.from_dict does not remove entries from the
 caller's dict

---
 swprocess/peaks.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index e3e43b6..44dd13f 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -599,11 +599,8 @@ class Peaks():
             Initialized `Peaks` instance.
 
         """
-        valid = data_dict.get("valid")
-        try:
-            del data_dict["valid"]
-        except KeyError:
-            pass
+        data_dict = dict(data_dict)
+        valid = data_dict.pop("valid", None)
 
         obj = cls(identifier=identifier, **data_dict)
 
-- 
2.43.0


From aefdd4459b2d78433fd00abffb8efba43c8d4d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 18/37] fix: the wave type is read from a data row, not from
 any 'inf' in the file header

---
 swprocess/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/regex.py b/swprocess/regex.py
index a76b9cb..5c5aee9 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -52,7 +52,7 @@ def get_geopsy_version():
 
 def get_wavetype():
     space = r"(\S+)"
-    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} {NUMBER}|-?inf|nan {NUMBER} 1"
+    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} (?:{NUMBER}|-?inf|nan) {NUMBER} 1"
     return re.compile(pattern)
 
 def get_process_type():
-- 
2.43.0


From 2f5fb01ddc03f4e01f214a045f3050eceff58f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 19/37] fix: a vertical-component file does not change the wave
 type read from later files

---
 swprocess/peakssuite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3967d70..1736ab8 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -842,15 +842,16 @@ class PeaksSuite():
 
             regex = get_wavetype()
             wavetype_from_file = regex.search(peak_data).groups()[0]
+            file_wavetype = wavetype
             if wavetype == "rayleigh" and wavetype_from_file == "Vertical":
-                wavetype = "vertical"
+                file_wavetype = "vertical"
 
             regex = get_nmaxima()
             nmaxima = int(regex.search(peak_data).groups()[0])
             nmaxima = max(1, nmaxima)
             nmaxima = min(100, nmaxima)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -859,7 +860,7 @@ class PeaksSuite():
                 else:
                     frequencies.append(f)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             found_times = []
             for found in regex.finditer(peak_data):
                 start_time = found.groups()[0]
@@ -867,7 +868,7 @@ class PeaksSuite():
                     continue
                 found_times.append(start_time)
                 peak = Peaks._parse_peaks(peak_data,
-                                          wavetype=wavetype,
+                                          wavetype=file_wavetype,
                                           start_time=start_time,
                                           frequencies=frequencies,
                                           nmaxima=nmaxima)
-- 
2.43.0


From 05348635cd289ede52a6c7b0029153dce58e395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 20/37] fix: only rows whose final entry is 1 count as valid
 peaks

---
 swprocess/regex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swprocess/regex.py b/swprocess/regex.py
index 5c5aee9..e4c5d92 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -79,11 +79,11 @@ def get_all(wavetype=r"rayleigh", time=r"(\d+\.?\d*)"):
 
     """
     if wavetype is None:
-        pattern = f"{time} .* 1"
+        pattern = fr"(?<!\S){time} .* 1\s*$"
     else:
         wavetype = validate_wavetypes(wavetype)
-        pattern = f"{time} .* {wavetype} .* 1"
-    return re.compile(pattern)
+        pattern = fr"(?<!\S){time} .* {wavetype} .* 1\s*$"
+    return re.compile(pattern, re.MULTILINE)
 
 def validate_wavetypes(wavetype):
     if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
-- 
2.43.0


From 5871b18f313572385c97fea4c36733a5501b9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 21/37] fix: times and frequencies select .max rows by their
 exact text

---
 swprocess/peaks.py | 8 +++++---
 swprocess/regex.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 44dd13f..44e4e49 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -17,6 +17,7 @@
 """Peaks class definition."""
 
 import json
+import re
 import warnings
 import logging
 
@@ -164,7 +165,7 @@ class Peaks():
             start_time, *_ = regex.search(peak_data).groups()
 
         if frequencies is None:
-            regex = get_peak_from_max(time=start_time, wavetype=wavetype)
+            regex = get_peak_from_max(time=re.escape(start_time), wavetype=wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -188,7 +189,8 @@ class Peaks():
         pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
 
         for col, frequency in enumerate(frequencies):
-            getpeak = get_peak_from_max(time=start_time, frequency=frequency,
+            getpeak = get_peak_from_max(time=re.escape(start_time),
+                                        frequency=re.escape(frequency),
                                         wavetype=wavetype)
 
             for row, match in enumerate(getpeak.finditer(peak_data)):
@@ -202,7 +204,7 @@ class Peaks():
                 pwrs[row, col] = float(_pwr)
 
         # Include for "belt and suspenders".
-        getall = get_all(time=start_time, wavetype=wavetype)
+        getall = get_all(time=re.escape(start_time), wavetype=wavetype)
         count = len(getall.findall(peak_data))
         if np.sum(~np.isnan(frqs)) != count:  # pragma: no cover
             msg = f"Missing {count - len(frqs)} dispersion peaks."
diff --git a/swprocess/regex.py b/swprocess/regex.py
index e4c5d92..ce8ad9d 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -44,7 +44,7 @@ def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="
     """
     # abs_time frequency polarization slowness azimuth ellipticity noise power valid
     wavetype = validate_wavetypes(wavetype)
-    pattern = f"({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
+    pattern = fr"(?<!\S)({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
     return re.compile(pattern)
 
 def get_geopsy_version():
-- 
2.43.0


From c5ae42d054f3b6cf7c97b6b5b9d9da7d9b49ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:33 +0000
Subject: [PATCH 22/37] fix: slant stack intercept count uses the same rounding
 as its sample lookup (IndexError at whole-sample delays)

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 8499144..a28734e 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -467,7 +467,7 @@ class SlantStack(AbstractWavefieldTransform):
         diff = diff.reshape((len(diff), 1))
         dt = array.sensors[0].dt
         npts = tmatrix.shape[1]
-        ntaus = npts - int(np.max(position)*np.max(1/velocities)/dt) - 1
+        ntaus = npts - int(np.max(position)/dt/np.min(velocities)) - 1
         slant_stack = np.empty((len(velocities), ntaus))
         rows = np.tile(np.arange(nchannels).reshape(nchannels, 1), (1, ntaus))
         cols = np.tile(np.arange(ntaus).reshape(1, ntaus), (nchannels, 1))
-- 
2.43.0


From 07eda48d7a26c709548064d708d117dd5439d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:58 +0000
Subject: [PATCH 23/37] fix: statistics drops every sample without data when no
 set has any (previously reported as NaN)

---
 swprocess/peakssuite.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 1736ab8..86c8c07 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -715,15 +715,12 @@ class PeaksSuite():
     @staticmethod
     def _drop_indices(data_matrix, drop_if_fewer_percent, drop_if_fewer_count):
         """Iterate by row, return rejection indices."""
-        if data_matrix.size == 0:
-            return np.array([], dtype=int)
-
         drop_indices = []
         for index, row in enumerate(data_matrix):
             n_nan = np.sum(np.isnan(row))
             n_tot = len(row)
             n_num = n_tot - n_nan
-            p_num = n_num/n_tot
+            p_num = n_num/n_tot if n_tot > 0 else 0
             if n_num < drop_if_fewer_count or p_num < drop_if_fewer_percent:
                 drop_indices.append(index)
         return np.array(drop_indices, dtype=int)
-- 
2.43.0


From 039c112310638f08f23be780c7bf878b8c30c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 24/37] fix: ginput_session asks for points on the figure of
 the given axes

Requests were sent to pyplot's current figure, so with another figure
current the user's clicks on the given axes were never received.
---
 swprocess/interact.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swprocess/interact.py b/swprocess/interact.py
index 9285317..c5be756 100644
--- a/swprocess/interact.py
+++ b/swprocess/interact.py
@@ -56,6 +56,9 @@ def ginput_session(ax, initial_adjustment=True,
         order in which they were picked.
 
     """
+    # Requests go to the current figure, make it the one provided.
+    plt.sca(ax)
+
     # Permit initial adjustment with blocking call to figure.
     if initial_adjustment:
         if initial_adjustment_message is None:
-- 
2.43.0


From 10656140140079a1621927f36c075ed49ee21a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:54 +0000
Subject: [PATCH 25/37] fix: interactive_mute picks on a waterfall with
 normalized positions

The picked distances were relative to the first sensor, but were used by
mute as absolute positions.
---
 swprocess/array1d.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index e3dd5b0..f3b662b 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -501,12 +501,17 @@ class Array1D():
         waterfall_kwargs = {**default_waterfall_kwargs, **waterfall_kwargs}
         _, ax = self.waterfall(**waterfall_kwargs)
 
+        # Distances are picked relative to the first sensor, if normalized.
+        shift = 0
+        if waterfall_kwargs.get("position_normalization", False):
+            shift = self.position()[0]
+
         # Parse x, y to distance, time
         def parse(xs, ys, time_ax=waterfall_kwargs["time_ax"]):
             if time_ax == "y":
-                return ((xs[0], ys[0]), (xs[1], ys[1]))
+                return ((xs[0]+shift, ys[0]), (xs[1]+shift, ys[1]))
             else:
-                return ((ys[0], xs[0]), (ys[1], xs[1]))
+                return ((ys[0]+shift, xs[0]), (ys[1]+shift, xs[1]))
 
         # Define the start of the signal.
         if (mute_location == "before") or (mute_location == "both"):
-- 
2.43.0


From d0bc637a93aae31410a3d84baac67e2f3772c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:54 +0000
Subject: [PATCH 26/37] fix: rasterize=True in WavefieldTransform.plot with
 current matplotlib

ContourSet.collections no longer exists.
---
 swprocess/wavefieldtransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index a28734e..7853cfd 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -225,7 +225,8 @@ class AbstractWavefieldTransform(ABC):
                           np.linspace(0, np.max(self.power), 21),
                           cmap=mpl.colormaps[cmap])
         if rasterize:
-            for pathcoll in img.collections:
+            # Note: ContourSet.collections was removed in matplotlib 3.10.
+            for pathcoll in getattr(img, "collections", [img]):
                 pathcoll.set_rasterized(True)
 
         # Plot colorbar for image.
-- 
2.43.0


From fb78214381ad1da428d8dc51a715f9a436fb9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:54 +0000
Subject: [PATCH 27/37] fix: Array1DwSource.from_files with integer source
 recordings

The in-place division raised a casting error for integer samples (and
single-precision sums lost accuracy).
---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index f3b662b..eeb7231 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -843,7 +843,7 @@ class Array1DwSource(Array1D):
         # TODO (jpv): Badly assume fnames_src is a properly formatted list.
         trace = obspy.read(str(fnames_src[0]))[src_channel]
         dt = trace.meta.delta
-        amp = trace.data
+        amp = np.array(trace.data, dtype=float)
         for fname in fnames_src[1:]:
             trace = obspy.read(str(fname))[src_channel]
             amp += trace.data
-- 
2.43.0


From 75eda2ddb0711c542eeb609bbcf7a48e0776c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:54 +0000
Subject: [PATCH 28/37] fix: xcorrelate with source signals shorter than half a
 second

The negative start index wrapped around, discarding the correlation
about zero lag.
---
 swprocess/array1d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index eeb7231..fdf1d14 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -880,7 +880,9 @@ class Array1DwSource(Array1D):
         # start correlation at/near zero lag position.
         src_amp = self.source.amplitude
         idx_zero = self.source.nsamples
-        idx_min, idx_max = idx_zero+idx_dx_tmin, idx_zero+idx_dx_tmax
+        # Note: the source may be shorter than the time before zero lag.
+        idx_min = max(idx_zero+idx_dx_tmin, 0)
+        idx_max = idx_zero+idx_dx_tmax
 
         sensors = []
         for sensor in self.sensors:
-- 
2.43.0


From b8f4731afff8d0b65b099bf06742b78457ef4f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:41 +0000
Subject: [PATCH 29/37] fix: the trace format given by the user is used for
 traces of unknown origin

---
 swprocess/sensor1c.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index c509c1c..4c40bc1 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -172,6 +172,7 @@ class Sensor1C(ActiveTimeSeries):
 
         return cls.from_trace(trace,
                               read_header=False,
+                              format="SEG2",
                               nstacks=cls._safely_get_header(header, "STACK", 1, int),
                               delay=cls._safely_get_header(header, "DELAY", 0., float),
                               x=map_x(cls._safely_get_header(header, "RECEIVER_LOCATION", 0., float)),
@@ -222,6 +223,7 @@ class Sensor1C(ActiveTimeSeries):
 
         return cls.from_trace(trace,
                               read_header=False,
+                              format="SU",
                               nstacks=nstacks,
                               delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
                               x=map_x(x),
@@ -272,6 +274,7 @@ class Sensor1C(ActiveTimeSeries):
 
         return cls.from_trace(trace,
                               read_header=False,
+                              format="SEGY",
                               nstacks=nstacks,
                               delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
                               x=map_x(x),
-- 
2.43.0


From e35c5b39177ceb2594d89754c80ee51f556dc7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 30/37] fix: a full-precision .max row marked invalid no longer
 stalls the reader

---
 swprocess/regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swprocess/regex.py b/swprocess/regex.py
index ce8ad9d..ce2f33b 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -21,8 +21,9 @@ import re
 __all__ = ["get_peak_from_max", "get_nmaxima",  "get_all", "get_spac_ratio", "get_spac_ring"]
 
 DEFAULT_TIME = r"\d+\.?\d*"
-DEFAULT_FREQUENCY = r"-?\d+.?\d*[eE]?[+-]?\d*"
-NUMBER = r"-?\d+.?\d*[eE]?[+-]?\d*"
+# Matches a number in one way only, otherwise rows marked invalid are retried endlessly.
+NUMBER = r"-?\d+(?:\.\d*)?(?:[eE][+-]?\d+)?"
+DEFAULT_FREQUENCY = NUMBER
 
 
 def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="rayleigh"):
-- 
2.43.0


From 3171e9704d98bd384de1a8a7871aa6e961b04a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 31/37] fix: recordings with different decimation factors are
 not equal

---
 swprocess/activetimeseries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index b697e91..3e84fbe 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -406,6 +406,9 @@ class ActiveTimeSeries(TimeSeries):
         if not self._is_similar(other):
             return False
 
+        if self.multiple != other.multiple:
+            return False
+
         if not np.allclose(self.amplitude, other.amplitude):
             return False
 
-- 
2.43.0


From 4eea7ca5904022f3418d3b218b237d167cd94673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:53 +0000
Subject: [PATCH 32/37] fix: sources with a signal are copied and compared with
 it

---
 swprocess/array1d.py |  2 +-
 swprocess/source.py  | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index fdf1d14..3ff66ce 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -756,7 +756,7 @@ class Array1D():
         sensors = []
         for _sensor in array1d.sensors:
             sensors.append(Sensor1C.from_sensor1c(_sensor))
-        source = Source.from_source(array1d.source)
+        source = type(array1d.source).from_source(array1d.source)
         obj = cls(sensors, source)
         return obj
 
diff --git a/swprocess/source.py b/swprocess/source.py
index f165ff7..8eded8b 100644
--- a/swprocess/source.py
+++ b/swprocess/source.py
@@ -17,6 +17,7 @@
 """This file contains the Source class for storing information on the
 type and location of an active-source."""
 
+import numpy as np
 from sigpropy import TimeSeries
 
 
@@ -94,3 +95,20 @@ class SourceWithSignal(Source, TimeSeries):
         """
         Source.__init__(self, x, y, z)
         TimeSeries.__init__(self, amp, dt)
+
+    @classmethod
+    def from_source(cls, other):
+        return cls(other.x, other.y, other.z, other.amplitude, other.dt)
+
+    def __eq__(self, other):
+        if not isinstance(other, SourceWithSignal):
+            return False
+
+        if not super().__eq__(other):
+            return False
+
+        for attr in ["dt", "nsamples"]:
+            if getattr(self, attr) != getattr(other, attr):
+                return False
+
+        return np.allclose(self.amplitude, other.amplitude)
-- 
2.43.0


From c77c2ed9cc11a2ee568e73c285f2a5bccb069414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:20 +0000
Subject: [PATCH 33/37] fix: dead traces stay in the normalized matrix and
 waterfall

---
 swprocess/array1d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 3ff66ce..aaec4f3 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -108,10 +108,12 @@ class Array1D():
         for i, sensor in enumerate(self.sensors):
             _amp = sensor.amplitude
             amp = signal.detrend(_amp) if detrend else _amp
-            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
+            # Note: dead traces (i.e., all zeros) cannot be normalized.
+            if normalize == "each" and np.any(amp):
+                amp = amp/np.max(np.abs(amp))
             matrix[i, :] = amp
 
-        if normalize == "all":
+        if normalize == "all" and np.any(matrix):
             matrix /= np.max(np.abs(matrix))
 
         return matrix
-- 
2.43.0


From bcfc9f6177e2404ce36f206fdf20f71fc5a0bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:35 +0000
Subject: [PATCH 34/37] fix: any attribute of a one-dimensional peak set can be
 simplified

---
 swprocess/peaks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 44e4e49..dd4d0b6 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -484,7 +484,7 @@ class Peaks():
         """
         # If 1D, return valid.
         if getattr(self, f"_{attr}").ndim == 1:
-            return getattr(self, f"{attr}")
+            return getattr(self, f"_{attr}")[self._valid]
 
         # If 2D and has power, return values based on maximum.
         elif hasattr(self, "_power"):
-- 
2.43.0


From 6eb01161b5e7e41b62aae8d62f10b47392740e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:40 +0000
Subject: [PATCH 35/37] fix: statistics keeps every value however many sets or
 abscissae there are

A set with values at fewer than one percent of the abscissae was left
out of the statistics, and an abscissa with values from fewer than one
percent of the sets was dropped however many values there were.
---
 swprocess/peakssuite.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 86c8c07..de9afe3 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -569,9 +569,12 @@ class PeaksSuite():
 
         xx, data_matrix = self.to_array(xtype, ytype, xx)
 
+        # Drop a sample or an observation for its percentage of valid
+        # entries only if it has none.
+        any_valid = np.finfo(float).tiny
         xx, data_matrix = self._drop(xx, data_matrix,
-                                     drop_sample_if_fewer_percent=0.01,
-                                     drop_observation_if_fewer_percent=0.01,
+                                     drop_sample_if_fewer_percent=any_valid,
+                                     drop_observation_if_fewer_percent=any_valid,
                                      drop_sample_if_fewer_count=drop_sample_if_fewer_count)
 
         mean = np.nanmean(data_matrix, axis=0)
-- 
2.43.0


From 01792badf79eda8762ab41dc8261d7c2ed135de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 36/37] fix: stacking onto a normalized image returns it to its
 unnormalized state

The running image's power was combined as normalized with the power of
the next image, and the next normalization then scaled the result by the
previous one's maxima.
---
 swprocess/wavefieldtransforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 7853cfd..464cc2f 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -360,11 +360,14 @@ class EmptyWavefieldTransform(AbstractWavefieldTransform):
 
     def stack(self, other):
         try:
-            self.power = (self.power*self.n + other.power*other.n)
+            # Return power to unnormalized state.
+            power = self.power*self._to_abs
+            self.power = (power*self.n + other.power*other.n)
             self.power /= (self.n+other.n)
         except AttributeError as e:
             msg = "Can only append objects if descendant of `AbstractWavefieldTransform`."
             raise AttributeError(msg) from e
+        self._to_abs = 1.
         self.n += other.n
 
     @classmethod
-- 
2.43.0


From 8c8352a13a3d0c467506780f3c43039f66047116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:24 +0000
Subject: [PATCH 37/37] fix: a valid peak whose power is missing is kept when
 it is the only one at its frequency

---
 swprocess/peaks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index dd4d0b6..ba6ce81 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -498,16 +498,18 @@ class Peaks():
 
         values = []
         for cindex, (colvals, valids) in enumerate(zip(decide.T, self._valid.T)):
-            mindex = 0
-            mval = -np.inf
+            mindex = None
+            mval = np.nan
             for rindex, (rowval, valid) in enumerate(zip(colvals, valids)):
                 if not valid:
                     continue
-                if rowval > mval:
+                # A peak with missing power is used only if there is no other.
+                missing = np.isnan(mval) and not np.isnan(rowval)
+                if mindex is None or missing or rowval > mval:
                     mindex = rindex
                     mval = rowval
 
-            if mval != -np.inf:
+            if mindex is not None:
                 values.append(attr[mindex, cindex])
 
         return values
-- 
2.43.0

