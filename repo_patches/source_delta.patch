From 76d8f3b3d19f0109f2402e6c9a981581be9157c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 01/33] fix: read and seek of objects use the position of the
 object itself

The file handle is shared by the file and all its objects, but read()
started wherever the handle happened to be, seek(whence=1) was relative to
the handle, and reading past the end returned bytes from outside of the payload.
---
 src/eventio/base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index fddfbac..3ca455f 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -292,10 +292,13 @@ class EventIOObject:
             If size == -1 (default), read all remaining bytes.
         '''
         # read all remaining bytes.
-        remaining = self.size - self._pos
+        remaining = max(self.size - self._pos, 0)
         if size == -1 or size > remaining:
             size = remaining
 
+        # the filehandle is shared with the file and all its other objects,
+        # so it might be anywhere by now
+        self._filehandle.seek(self.address + self._pos)
         data = self._filehandle.read(size)
         self._pos += len(data)
 
@@ -330,21 +333,23 @@ class EventIOObject:
         )
 
     def seek(self, offset, whence=0):
-        address = self.address
         if whence == 0:
             assert offset >= 0
-            new_pos = self._filehandle.seek(address + offset, whence)
+            new_pos = offset
         elif whence == 1:
-            new_pos = self._filehandle.seek(offset, whence)
+            new_pos = self._pos + offset
+            if new_pos < 0:
+                raise ValueError('Cannot seek before the start of the object')
         elif whence == 2:
             if offset > self.size:
                 offset = self.size
-            new_pos = self._filehandle.seek(address + self.size - offset, 0)
+            new_pos = self.size - offset
         else:
             raise ValueError(
                 'invalid whence ({}, should be 0, 1 or 2)'.format(whence)
             )
-        self._pos = new_pos - address
+        self._filehandle.seek(self.address + new_pos)
+        self._pos = new_pos
         return self._pos
 
     def tell(self):
-- 
2.43.0


From 6c4b2c8c9914bfe5738e767d215a2a697a6f207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 02/33] fix: raise EOFError when the payload of an object is
 cut off

read() silently returned less than the stored bytes for objects in truncated
files, so e.g. strings were returned shortened.
---
 src/eventio/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 3ca455f..be36c35 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -302,6 +302,9 @@ class EventIOObject:
         data = self._filehandle.read(size)
         self._pos += len(data)
 
+        if len(data) < size:
+            raise EOFError('File seems to be truncated')
+
         return data
 
     def __iter__(self):
-- 
2.43.0


From 0cb2a6f064221facd4968f1b733370d20a0d6839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 03/33] fix: next raises the error that a peek has met

After peeking at the end of a truncated file, next tried to read the same
header again, which on a gzip pipe raised an unrelated IOError.
---
 src/eventio/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index be36c35..d383493 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -121,6 +121,11 @@ class EventIOFile:
             o, self.next = self.next, None
             return o
 
+        if self.peek_error is not None:
+            # the error peek met when trying to read the next object
+            error, self.peek_error = self.peek_error, None
+            raise error
+
         return self._read_next_object()
 
     def _read_next_object(self):
-- 
2.43.0


From 81760339bf44db37a67c9ecd2fcc563341546ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 04/33] fix: parse from the start of the payload also if it was
 read before

Parsing history entries, metadata, auxiliary traces, pixel trigger times or
pixel monitoring started at the current position of the object, so a second
parse failed or returned something else.
---
 src/eventio/simtel/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2830d47..1c6c660 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -80,6 +80,7 @@ class HistoryCommandLine(EventIOObject):
     eventio_type = 71
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -89,6 +90,7 @@ class HistoryConfig(EventIOObject):
     eventio_type = 72
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -98,6 +100,7 @@ class HistoryMeta(EventIOObject):
     eventio_type = 75
 
     def parse(self):
+        self.seek(0)
         n_items = read_unsigned_varint(self)
 
         data = {}
@@ -1807,6 +1810,7 @@ class AuxiliaryDigitalTraces(EventIOObject):
     eventio_type = 2029
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1821,6 +1825,7 @@ class AuxiliaryAnalogTraces(EventIOObject):
     eventio_type = 2030
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1841,6 +1846,7 @@ class PixelTriggerTimes(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         trigger_times = {}
@@ -1860,6 +1866,7 @@ class PixelMonitoring(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         flags = read_int(byte_stream)
-- 
2.43.0


From 427d58271c7a8b0f4aed240b3da5a4a979732a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 05/33] fix: parse the extra parameters of MCShower version 2

The header of the nested object was read after the end of the payload and
the number of integer parameters was used as the number of floats.
---
 src/eventio/simtel/objects.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 1c6c660..f377a0d 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1445,9 +1445,10 @@ class MCShower(EventIOObject):
             mc['profiles'].append(p)
 
         if self.header.version >= 2:
-            h = read_header(self, offset=self._filehandle.tell(), toplevel=False)
+            # the extra params are stored as object inside of the payload we already read
+            h = read_header(byte_stream, offset=byte_stream.tell(), toplevel=False)
             assert h.type == 1215
-            mc['mc_extra_params'] = MCExtraParams(h, self).parse()
+            mc['mc_extra_params'] = MCExtraParams(h, byte_stream).parse()
         return mc
 
 
@@ -1466,7 +1467,7 @@ class MCExtraParams(EventIOObject):
         if ep['n_iparam'] > 0:
             ep['iparam'] = read_array(byte_stream, dtype='<i4', count=ep['n_iparam'])
         if ep['n_fparam'] > 0:
-            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_iparam'])
+            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_fparam'])
         return ep
 
 
-- 
2.43.0


From cf47ce73305765260ac7201aca0ebc3cc69fd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 06/33] fix: parse integer histograms and histograms with
 non-ascii titles

read_array has no argument counts, and the padding depends on the number of
stored bytes, not on the number of characters.
---
 src/eventio/histograms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index a75ebd4..38ffcaa 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -17,8 +17,10 @@ class Histograms(EventIOObject):
         for i in range(n_histograms):
             hist = {}
             hist['type'] = self.read(1).decode('ascii')
-            hist['title'] = read_string(self).decode('utf-8')
-            if len(hist['title']) % 2 == 0:
+            title = read_string(self)
+            hist['title'] = title.decode('utf-8')
+            # title is padded, so that type, length and title take an even number of bytes
+            if len(title) % 2 == 0:
                 self.read(1)
             hist['id'] = read_int(self)
             hist['n_bins_x'] = read_short(self)
@@ -59,7 +61,7 @@ class Histograms(EventIOObject):
                     hist['data'] = np.zeros(n_counts)
             else:
                 if hist['tentries'] > 0:
-                    hist['data'] = read_array(self, dtype='<i4', counts=n_counts)
+                    hist['data'] = read_array(self, dtype='<i4', count=n_counts)
                 else:
                     hist['data'] = np.zeros(n_counts)
 
-- 
2.43.0


From 52e76e5a37d70eb3ea892384c1fb072cc5c1ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 07/33] fix: parse TriggerInformation of version 0 and 1

These versions do not contain the trigger type mask, fixing it raised KeyError.
---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index f377a0d..28f7b9c 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -650,7 +650,7 @@ class TriggerInformation(EventIOObject):
         # here we fix the bug, as does the fixed hessio library.
         # This only affects versions up to 3, as that was the highest version
         # existing before the fix was introduced.
-        if version <= 3:
+        if 2 <= version <= 3:
             self.fix_teltrg_type_mask(event_info["teltrg_type_mask"])
 
         return event_info
-- 
2.43.0


From 7c1132bbcb2b606721215f34a06caa5266fd9cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:21 +0000
Subject: [PATCH 08/33] fix: parse physical addresses of TelescopeEventHeader
 version 0 and 1

The number of addresses was stored as a tuple, so reading them raised TypeError.
---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 28f7b9c..2baf06d 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -817,7 +817,7 @@ class TelescopeEventHeader(TelescopeObject):
 
         if t & 0x200:
             if self.header.version <= 1:
-                event_head['n_phys_addr'] = struct.unpack('<h', data[pos:pos + 2])
+                event_head['n_phys_addr'], = struct.unpack('<h', data[pos:pos + 2])
                 pos += 2
                 event_head['phys_addr'] = np.frombuffer(
                     data, dtype='<i2', count=event_head['n_phys_addr'], offset=pos
-- 
2.43.0


From 7dfe85b0e9236ec086545f082c59e56542b43138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:38 +0000
Subject: [PATCH 09/33] fix: read zstd files with more than one frame

Everything after the first frame was silently ignored.
---
 src/eventio/base.py       | 4 +++-
 src/eventio/file_types.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index d383493..6a26766 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -97,7 +97,9 @@ class EventIOFile:
 
         elif is_zstd(path):
             log.info('Found zstd compressed file')
-            self._filehandle = zstd.ZstdDecompressor().stream_reader(open(path, 'rb'), read_size=1024**2)
+            self._filehandle = zstd.ZstdDecompressor().stream_reader(
+                open(path, 'rb'), read_size=1024**2, read_across_frames=True,
+            )
             self.zstd = True
 
         else:
diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index 78e3e44..b57a295 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -48,7 +48,7 @@ def is_eventio(path):
             raise IOError('You need the `zstandard` module to read zstd files')
         with open(path, 'rb') as f:
             cctx = zstd.ZstdDecompressor()
-            with cctx.stream_reader(f) as stream:
+            with cctx.stream_reader(f, read_across_frames=True) as stream:
                 marker_bytes = stream.read(SYNC_MARKER_SIZE)
     else:
         with open(path, 'rb') as f:
-- 
2.43.0


From 7659d5513e5e9ef79c5572049947eafc96174834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 10/33] fix: raise EOFError when an IACT file ends too early

If the file ended between two objects, iterating the events raised RuntimeError
and opening the file raised StopIteration.
---
 src/eventio/iact/__init__.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0d0db1e..0887ab2 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -101,18 +101,18 @@ class IACTFile(EventIOFile):
     def __init__(self, path, zcat=True):
         super().__init__(path, zcat=zcat)
 
-        header_object = next(self)
+        header_object = self._next_object()
         check_type(header_object, RunHeader)
         self.header = header_object.parse()
 
-        input_card_object = next(self)
+        input_card_object = self._next_object()
         check_type(input_card_object, InputCard)
         self.input_card = input_card_object.parse()
 
-        o = next(self)
+        o = self._next_object()
         if isinstance(o, AtmosphericProfile):
             self.atmospheric_profile = o.parse()
-            telescope_object = next(self)
+            telescope_object = self._next_object()
         else:
             self.atmospheric_profile = None
             telescope_object = o
@@ -122,6 +122,13 @@ class IACTFile(EventIOFile):
         self.telescope_positions = telescope_object.parse()
         self._first_event_byte = self.tell()
 
+    def _next_object(self):
+        '''Get the next low-level object where the file must not end yet'''
+        try:
+            return next(self)
+        except StopIteration:
+            raise EOFError('File seems to be truncated') from None
+
     def __repr__(self):
         return (
             '{}(\n'
@@ -139,13 +146,13 @@ class IACTFile(EventIOFile):
         Generator over the single array events
         '''
         self._next_header_pos = self._first_event_byte
-        obj = next(self)
+        obj = self._next_object()
 
         while not isinstance(obj, RunEnd):
             check_type(obj, EventHeader)
             header = obj.parse()
 
-            reuse_object = next(self)
+            reuse_object = self._next_object()
             check_type(reuse_object, ArrayOffsets)
 
             time_offset, array_offsets = reuse_object.parse()
@@ -154,7 +161,7 @@ class IACTFile(EventIOFile):
             longitudinal = None
             particles = None
 
-            obj = next(self)
+            obj = self._next_object()
 
             while not isinstance(obj, (TelescopeData, TelescopeArrayHead)):
                 if isinstance(obj, Longitudinal):
@@ -166,7 +173,7 @@ class IACTFile(EventIOFile):
 
                     particles = obj.parse()
 
-                obj = next(self)
+                obj = self._next_object()
 
             split_always = isinstance(obj, TelescopeArrayHead)
 
@@ -180,7 +187,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
-                    obj = next(self)
+                    obj = self._next_object()
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
                         photons, emitter = obj.parse()
@@ -188,7 +195,7 @@ class IACTFile(EventIOFile):
                         emitter_bunches[obj.telescope] = emitter
                         n_photons[obj.telescope] = obj.n_photons
                         n_bunches[obj.telescope] = obj.n_bunches
-                        obj = next(self)
+                        obj = self._next_object()
                 else:
                     check_type(obj, TelescopeData)
                     telescope_data_obj = obj
@@ -216,7 +223,7 @@ class IACTFile(EventIOFile):
                     impact_y=-array_offsets[reuse]['y'],
                 )
                 reuses.append(reuse_data)
-                obj = next(self)
+                obj = self._next_object()
 
             check_type(obj, EventEnd)
             event_end = obj.parse(header["version"])
@@ -232,7 +239,7 @@ class IACTFile(EventIOFile):
                     **reuse,
                 )
 
-            obj = next(self)
+            obj = self._next_object()
 
         self.run_end = obj.parse()
 
-- 
2.43.0


From 03a5f278954fd25dcb39b32d9abf454f3d30471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 11/33] fix: raise EOFError when a SimTelFile ends before its
 telescope descriptions

If the file ended between two objects, the constructor raised StopIteration.
---
 src/eventio/simtel/simtelfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 2ca70ee..c2db9b0 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -206,7 +206,10 @@ class SimTelFile:
         # and we found the telescope_descriptions of all telescopes
         found_all_telescopes = False
         while not found_all_telescopes:
-            self._parse_next_object()
+            try:
+                self._parse_next_object()
+            except StopIteration:
+                raise EOFError('File seems to be truncated') from None
 
             # check if we found all the descriptions of all telescopes
             if self.n_telescopes is not None:
-- 
2.43.0


From f6f17da19b2d835181d44aac91d4d294fde5993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 12/33] fix: deliver the last complete event before a truncated
 array event

The event reader replaced the previous calibration event before it parsed the
next one, so a complete event was lost if the file is cut in the next one.
---
 src/eventio/simtel/simtelfile.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index c2db9b0..b872666 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -289,14 +289,14 @@ class SimTelFile:
 
         elif isinstance(o, ArrayEvent):
             # assume that array event without shower available are unpacked calibration events
+            # parse first, so that nothing is lost if the array event is truncated
+            array_event = parse_array_event(o, self.allowed_telescopes)
+
             if self.current_mc_shower is None:
                 event = self.current_event
                 self.current_event = {"type": "calibration"}
 
-            self.current_event["event_id"] = o.header.id
-            self.current_event.update(
-                parse_array_event(o, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event)
             self._add_monitoring(self.current_event)
 
         elif isinstance(o, iact.TelescopeData):
@@ -332,7 +332,9 @@ class SimTelFile:
             self.corsika_inputcards.append(o.parse())
 
         elif isinstance(o, CalibrationEvent):
+            # parse first, so that nothing is lost if the array event is truncated
             array_event = next(o)
+            array_event_data = parse_array_event(array_event, self.allowed_telescopes)
             # make event_id negative for calibration events to not overlap with
             # later air shower events
             event = self.current_event
@@ -341,9 +343,7 @@ class SimTelFile:
                 "event_id": -array_event.header.id,
                 "calibration_type": o.type,
             }
-            self.current_event.update(
-                parse_array_event(array_event, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event_data)
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
                 self.current_event["photoelectrons"] = self._current_calib_pe
-- 
2.43.0


From f71739cd19c16f70c45eced04d2684b25bb8f46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 13/33] fix: event ids of calibration events are negative

The negative id was overwritten with the positive one of the array event.
---
 src/eventio/simtel/simtelfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index b872666..6ca83c7 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -335,15 +335,15 @@ class SimTelFile:
             # parse first, so that nothing is lost if the array event is truncated
             array_event = next(o)
             array_event_data = parse_array_event(array_event, self.allowed_telescopes)
-            # make event_id negative for calibration events to not overlap with
-            # later air shower events
             event = self.current_event
             self.current_event = {
                 "type": "calibration",
-                "event_id": -array_event.header.id,
                 "calibration_type": o.type,
             }
             self.current_event.update(array_event_data)
+            # make event_id negative for calibration events to not overlap with
+            # later air shower events
+            self.current_event["event_id"] *= -1
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
                 self.current_event["photoelectrons"] = self._current_calib_pe
-- 
2.43.0


From 3bd8c7aba8b63b523831f57ba2f0e99ab00eebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:55 +0000
Subject: [PATCH 14/33] fix: do not add observation level particles to the
 events of later showers

---
 src/eventio/simtel/simtelfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 6ca83c7..80ccbd2 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -286,6 +286,8 @@ class SimTelFile:
 
         elif isinstance(o, MCShower):
             self.current_mc_shower = o.parse()
+            # particles belong to the shower they follow
+            self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
             # assume that array event without shower available are unpacked calibration events
-- 
2.43.0


From bcce0a9d68094dbdc5dfce3b1017f67463b7740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 15/33] fix: ignore unexpected objects between calibration
 photo electrons

The reader warned that they are ignored, but then raised AttributeError.
---
 src/eventio/simtel/simtelfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 80ccbd2..c1655af 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -367,6 +367,7 @@ class SimTelFile:
                         f"Unexpected sub-object: {photoelectrons} in {telescope_data}, ignoring",
                         UnknownObjectWarning
                     )
+                    continue
 
                 tel_id = photoelectrons.telescope_id
                 self._current_calib_pe[tel_id] = photoelectrons.parse()
-- 
2.43.0


From 683e7d87607a96e6ce83a338deb3518a9191b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 16/33] fix: varint_array decodes numbers of 63 and 64 bits

The sign was extended when shifting numbers with the highest bit set.
---
 src/eventio/var_int.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 9783df5..956f251 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -156,7 +156,7 @@ cpdef varint_array(
     cdef cnp.npy_intp[1] shape = [n_elements];
     cdef cnp.ndarray[int64_t, ndim=1] output = cnp.PyArray_SimpleNew(1, shape, cnp.NPY_INT64)
 
-    cdef int64_t val
+    cdef uint64_t val
     cdef uint8_t length
 
     cdef uint8_t one = 1;
-- 
2.43.0


From 589cc1665c507f684d15d65db512b169040b10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 17/33] fix: raise if data ends inside of a variable length
 integer

The decoders used the bytes that are there and returned a wrong number.
---
 src/eventio/var_int.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 956f251..52c22b9 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -53,6 +53,10 @@ cpdef uint64_t parse_varint(const uint8_t[:] var_int_bytes):
     cdef uint8_t length = var_int_bytes.shape[0]
     cdef uint64_t v[9]
     cdef uint8_t i  = 0
+
+    if length == 0 or length < get_length_of_varint(var_int_bytes[0]):
+        raise EOFError('Data ends inside of a variable length integer')
+
     for i in range(length):
         v[i] = var_int_bytes[i]
 
-- 
2.43.0


From d432f80b5da4f7131d4024740f311a302acbcf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 18/33] fix: cut_eventio_file keeps objects that end exactly at
 the size limit

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index fb68a57..cbae47b 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -55,7 +55,7 @@ def main():
         last_o = None
         for o in f:
             last_byte = o.header.content_address + o.header.content_size
-            if last_byte < max_size:
+            if last_byte <= max_size:
                 bytes_to_read = last_byte
                 last_o = o
             else:
-- 
2.43.0


From 4acad783d64de05833647064d3bda19ff1e2efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:40 +0000
Subject: [PATCH 19/33] fix: cut_eventio_file refuses sizes with anything after
 number and unit

Sizes like 1.5M or 10KB were taken as 1 and 10 bytes.
---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index cbae47b..4b275aa 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -26,7 +26,7 @@ parser.add_argument(
 
 
 def parse_size(size):
-    m = re.match(r'(\d+)([kMG])?', size)
+    m = re.fullmatch(r'(\d+)([kMG])?', size)
     if not m:
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
-- 
2.43.0


From 9d42edadffbd62dfcbe0f3a5601c037786656f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 20/33] fix: cut_eventio_file does not write incomplete objects
 of truncated files

The cut off last object was written as well if its header is complete, and
nothing was written at all if the file is cut in a header.
---
 src/eventio/scripts/cut_eventio_file.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 4b275aa..54c970f 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -5,6 +5,7 @@ uncompressed size is at most `max_size`
 from argparse import ArgumentParser
 import re
 import gzip
+import warnings
 from ..base import EventIOFile
 
 
@@ -53,13 +54,18 @@ def main():
     bytes_to_read = 0
     with EventIOFile(args.inputfile) as f:
         last_o = None
-        for o in f:
-            last_byte = o.header.content_address + o.header.content_size
-            if last_byte <= max_size:
-                bytes_to_read = last_byte
-                last_o = o
-            else:
-                break
+        try:
+            for o in f:
+                last_byte = o.header.content_address + o.header.content_size
+                if last_byte <= max_size:
+                    # raises EOFError if the object is not complete
+                    o.read()
+                    bytes_to_read = last_byte
+                    last_o = o
+                else:
+                    break
+        except EOFError:
+            warnings.warn('File seems to be truncated')
 
     print('Writing {:.2f}MB (uncompressed)'.format(bytes_to_read / 1024**2))
     print('Last object is of type {}'.format(last_o.header.type))
-- 
2.43.0


From 20f94fbd6ddecaa868d3a5f4d0d7cc0ea9a02730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 21/33] fix: eventio_print_structure accounts for all objects
 it omits

The number of omitted objects was one too low, omitted objects at the end of the
file were not mentioned and those of another level were counted together.
---
 src/eventio/scripts/print_structure.py | 38 +++++++++++++++-----------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/eventio/scripts/print_structure.py b/src/eventio/scripts/print_structure.py
index d9ca5f0..ca8d3b5 100644
--- a/src/eventio/scripts/print_structure.py
+++ b/src/eventio/scripts/print_structure.py
@@ -25,30 +25,36 @@ def print_structure():
 
     with EventIOFile(args.inputfile) as f:
         last = None
-        last_level = 0
         n_same = 0
+        error = None
+
+        def print_omitted():
+            if n_same > args.max_repeats:
+                print(
+                    '    ' * last[1],
+                    'And {} objects more of the same type'.format(
+                        n_same - args.max_repeats
+                    )
+                )
 
         try:
             for o, level in yield_all_objects_depth_first(f):
-                if last and last != EventIOObject and isinstance(o, last):
+                current = (o.__class__, level)
+                if current == last and o.__class__ != EventIOObject:
                     n_same += 1
-                    last_level = level
                 else:
-                    last = o.__class__
-                    if n_same > args.max_repeats:
-                        print(
-                            '    ' * last_level,
-                            'And {} objects more of the same type'.format(
-                                n_same - args.max_repeats
-                            )
-                        )
-                    n_same = 0
-                    last_level = level
-
-                if n_same < args.max_repeats:
+                    print_omitted()
+                    last = current
+                    n_same = 1
+
+                if n_same <= args.max_repeats:
                     print('    ' * level, conv(o))
         except EOFError as e:
-            print(e)
+            error = e
+
+        print_omitted()
+        if error is not None:
+            print(error)
 
 
 def main():
-- 
2.43.0


From 7469ed0a3616dcf82df08a058fa3a23a70707d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 22/33] fix: iterating an IACTFile starts at the first event
 also after a peek

The peeked object was used as the first object of the first event.
---
 src/eventio/iact/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0887ab2..9e983d8 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -146,6 +146,9 @@ class IACTFile(EventIOFile):
         Generator over the single array events
         '''
         self._next_header_pos = self._first_event_byte
+        # forget what was peeked at, we start again at the first event
+        self.next = None
+        self.peek_error = None
         obj = self._next_object()
 
         while not isinstance(obj, RunEnd):
-- 
2.43.0


From bc8798d7b3a85ed0be355785137c8cfe4a3c19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 23/33] fix: eventio_print_simtel_history handles files with
 only history blocks

---
 src/eventio/scripts/print_simtel_history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/print_simtel_history.py b/src/eventio/scripts/print_simtel_history.py
index d7831e9..a62a9a8 100644
--- a/src/eventio/scripts/print_simtel_history.py
+++ b/src/eventio/scripts/print_simtel_history.py
@@ -11,13 +11,14 @@ def print_history():
     args = parser.parse_args()
 
     with EventIOFile(args.inputfile) as f:
-        o = next(f)
-        while isinstance(o, History):
+        for o in f:
+            if not isinstance(o, History):
+                break
+
             for subo in o:
                 t, line = subo.parse()
                 t = datetime.fromtimestamp(t)
                 print(f'{t:%Y-%m-%dT%H:%M:%S}', line.decode('utf-8').strip())
-            o = next(f)
 
 
 def main():
-- 
2.43.0


From 03e132dfa7070790e8208f3a2417607ee76bfa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 24/33] fix: find_type raises ValueError if there is no object
 of the type

It raised StopIteration instead of the intended error.
---
 src/eventio/search_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eventio/search_utils.py b/src/eventio/search_utils.py
index 0de7543..e602f2e 100644
--- a/src/eventio/search_utils.py
+++ b/src/eventio/search_utils.py
@@ -3,12 +3,12 @@ import warnings
 
 
 def find_type(f, eventio_type):
-    o = next(f)
-    while not isinstance(o, eventio_type):
+    try:
         o = next(f)
-
-    if not isinstance(o, eventio_type):
-        raise ValueError('Type {} not found'.format(eventio_type))
+        while not isinstance(o, eventio_type):
+            o = next(f)
+    except StopIteration:
+        raise ValueError('Type {} not found'.format(eventio_type)) from None
 
     return o
 
-- 
2.43.0


From af9f23803354a627eb91d612e2ad8edc3afdc5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 25/33] fix: name of curved_surface in CameraSettings before
 version 4

The key was curve_surface there, but is curved_surface for newer versions.
---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2baf06d..2bf0271 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -253,7 +253,7 @@ class CameraSettings(TelescopeObject):
                 cam['pixel_area'] = np.repeat(read_float(byte_stream), n_pixels)
                 cam['pixel_size'] = np.repeat(read_float(byte_stream), n_pixels)
         else:
-            cam['curve_surface'] = 0
+            cam['curved_surface'] = 0
             cam['pixels_parallel'] = 1
             cam['common_pixel_shape'] = 0
             cam['pixel_z'] = np.zeros(n_pixels, dtype='f4')
-- 
2.43.0


From efede782c71e37e8e915621207b67457945d0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 26/33] fix: read gzipped files with names that start with a
 dash

gzip took the name as an option, so the file seemed to be empty.
---
 src/eventio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 6a26766..869bfd0 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -78,7 +78,7 @@ class EventIOFile:
                 try:
                     log.info('Trying to read using zcat')
                     self.read_process = sp.Popen(
-                        ['gzip', '-cd', path], stdout=sp.PIPE, stderr=sp.PIPE
+                        ['gzip', '-cd', '--', path], stdout=sp.PIPE, stderr=sp.PIPE
                     )
                     self.read_process.poll()
                     rc = self.read_process.returncode
-- 
2.43.0


From a60d17d53203dbfeb66b37ce5958b087daf9c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 27/33] fix: EOFError if a header ends before its extension
 field

Such a truncated file ended like a complete one, and on streams the next step
after a peek raised an unrelated error.
---
 src/eventio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 869bfd0..e263772 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -233,7 +233,7 @@ def read_header(byte_stream, offset, toplevel=False):
         check_size_or_raise(
             extension_field,
             constants.EXTENSION_SIZE,
-            zero_ok=True
+            zero_ok=False
         )
         ext = parse_extension_field(extension_field)
         header.content_size += ext
-- 
2.43.0


From 5afd6635aef01583c26b290e2479db2b14d4dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:34 +0000
Subject: [PATCH 28/33] fix: IACTFile refuses blocks in a wrong place instead
 of mixing events

---
 src/eventio/iact/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 9e983d8..3fbd74b 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -167,6 +167,10 @@ class IACTFile(EventIOFile):
             obj = self._next_object()
 
             while not isinstance(obj, (TelescopeData, TelescopeArrayHead)):
+                # going on would mix the data of different events
+                if isinstance(obj, (EventHeader, ArrayOffsets, TelescopeArrayEnd, EventEnd, RunEnd)):
+                    check_type(obj, TelescopeData)
+
                 if isinstance(obj, Longitudinal):
                     longitudinal = obj.parse()
 
@@ -190,6 +194,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
+                    check_type(obj, TelescopeArrayHead)
                     obj = self._next_object()
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
-- 
2.43.0


From b331d3ef9fed8cbca535ebb525e86d753ac906a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 29/33] fix: yield_n_subobjects yielded an object for n=0

---
 src/eventio/search_utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/eventio/search_utils.py b/src/eventio/search_utils.py
index e602f2e..4d957ca 100644
--- a/src/eventio/search_utils.py
+++ b/src/eventio/search_utils.py
@@ -1,4 +1,5 @@
 from eventio import EventIOFile
+from itertools import islice
 import warnings
 
 
@@ -81,9 +82,5 @@ def yield_subobjects(f, eventio_type):
 
 
 def yield_n_subobjects(f, eventio_type, n=3):
-    for i, obj in enumerate(yield_subobjects(f, eventio_type), start=1):
-        if i >= n:
-            yield obj
-            return
-
-        yield obj
+    # n might be 0
+    yield from islice(yield_subobjects(f, eventio_type), n)
-- 
2.43.0


From dec1ab1683d97fa3fa3d8d0d1331e35ec475fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 30/33] fix: plot tool failed for a histogram without entries

---
 src/eventio/scripts/plot_hists.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/plot_hists.py b/src/eventio/scripts/plot_hists.py
index 1ccbe0f..62ad854 100644
--- a/src/eventio/scripts/plot_hists.py
+++ b/src/eventio/scripts/plot_hists.py
@@ -51,10 +51,12 @@ def main():
                     marginal_y = np.sum(hist['data'], axis=1)
 
                     non_zero_x, = np.where(marginal_x != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                     non_zero_y, = np.where(marginal_y != 0)
-                    plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
+                    if len(non_zero_y) > 0:
+                        plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
                     plt.colorbar(label='Number of Events')
 
                 else:
@@ -62,7 +64,8 @@ def main():
                     plt.hist(centers, bins=x_bins, weights=hist['data'])
 
                     non_zero_x, = np.where(hist['data'] != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                 plt.title(hist['title'])
                 plt.tight_layout()
-- 
2.43.0


From 11a3e72e8937d47065f002232afd7966daeb5dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 31/33] fix: numbers were read from behind the end of too short
 blocks

---
 src/eventio/simtel/parsing.pyx | 10 ++++++++++
 src/eventio/var_int.pyx        | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/eventio/simtel/parsing.pyx b/src/eventio/simtel/parsing.pyx
index e03a670..9fff87d 100644
--- a/src/eventio/simtel/parsing.pyx
+++ b/src/eventio/simtel/parsing.pyx
@@ -7,6 +7,12 @@ cimport numpy as np
 
 INT16 = np.int16
 
+cdef inline int check_available(const uint8_t[:] data, uint64_t pos, uint64_t n_bytes) except -1:
+    if pos + n_bytes > <uint64_t> data.shape[0]:
+        raise EOFError('Data ends inside of a number')
+    return 0
+
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef read_sector_information_v1(
     const uint8_t[:] data,
@@ -23,12 +29,14 @@ cpdef read_sector_information_v1(
     cdef uint64_t pos = offset
     for i in range(n_pixels):
 
+        check_available(data, pos, 2)
         short_ptr = <int16_t*> &data[pos]
         n = short_ptr[0]
         pos += 2
 
         sector = array.array('h')
         for j in range(n):
+            check_available(data, pos, 2)
             short_ptr = <int16_t*> &data[pos]
             sector.append(short_ptr[0])
             pos += 2
@@ -64,6 +72,8 @@ cpdef dict parse_mc_event(
     cdef float xcore, ycore, aweight
     cdef int32_t shower_num
 
+    check_available(data, pos, 16 if version >= 2 else 12)
+
     shower_num = (<int32_t*> &data[pos])[0]
     pos += 4
     xcore = (<float*> &data[pos])[0]
diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 52c22b9..91b2839 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -304,6 +304,12 @@ cdef uint64_t unsigned_varint_array_differential(
     return pos
 
 
+cdef inline int check_available(const uint8_t[:] data, uint64_t pos, uint64_t n_bytes) except -1:
+    if pos + n_bytes > <uint64_t> data.shape[0]:
+        raise EOFError('Data ends inside of a number')
+    return 0
+
+
 def simtel_pixel_timing_parse_list_type_2(
     const uint8_t[:] data,
     const int32_t[:, :] pixel_list,
@@ -335,6 +341,7 @@ def simtel_pixel_timing_parse_list_type_2(
 
         for i_pix in range(start, stop + 1):
             for i_type in range(n_types):
+                check_available(data, pos, 2)
                 timval[i_pix, i_type] = granularity * (<int16_t*> &data[pos])[0]
                 pos += 2
 
@@ -396,17 +403,20 @@ def parse_1208(
         if version > 2:
             pix_id, length = varint(data, offset=pos)
         else:
+            check_available(data, pos, 2)
             pix_id = (<int16_t*> &data[pos])[0]
             length = 2
 
         pos += length
 
+        check_available(data, pos, 4)
         n_pe = (<int32_t*> &data[pos])[0]
         pos += 4
 
         photoelectrons[pix_id] = n_pe
 
         for j in range(n_pe):
+            check_available(data, pos, 4)
             t = (<float*> &data[pos])[0]
             pixel_id[i_pe + j] = pix_id
             time[i_pe + j] = t
@@ -414,6 +424,7 @@ def parse_1208(
 
         if has_amplitudes:
             for j in range(n_pe):
+                check_available(data, pos, 4)
                 amplitude[i_pe + j] = (<float*> &data[pos])[0]
                 pos += 4
 
@@ -429,10 +440,12 @@ def parse_1208(
     if has_photons:
         photons = cnp.PyArray_ZEROS(1, pixel_shape, cnp.NPY_INT32, False)
 
+        check_available(data, pos, 4)
         nonempty = (<int32_t*> &data[pos])[0]
         pos += 4
 
         for i in range(nonempty):
+            check_available(data, pos, 6)
             pix_id = (<int16_t*> &data[pos])[0]
             pos += 2
 
@@ -473,6 +486,7 @@ cpdef simtel_pixel_timing_parse_list_type_1(
     for i in range(pixel_list_length):
         i_pix = pixel_list[i]
         for i_type in range(n_types):
+            check_available(data, pos, 2)
             short_ptr = <int16_t*> &(data[pos])
             timval[i_pix, i_type] = granularity * short_ptr[0]
             pos += 2
-- 
2.43.0


From 93a1de51c31b1420fd510177c7d5caf8a09a9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 32/33] fix: read gzipped files named -

---
 src/eventio/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index e263772..9ec581a 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -1,4 +1,5 @@
 from io import BufferedIOBase
+import os
 import warnings
 import weakref
 import struct
@@ -78,7 +79,8 @@ class EventIOFile:
                 try:
                     log.info('Trying to read using zcat')
                     self.read_process = sp.Popen(
-                        ['gzip', '-cd', '--', path], stdout=sp.PIPE, stderr=sp.PIPE
+                        ['gzip', '-cd', '--', os.path.abspath(path)],
+                        stdout=sp.PIPE, stderr=sp.PIPE,
                     )
                     self.read_process.poll()
                     rc = self.read_process.returncode
-- 
2.43.0


From 24ca655813393f8f990801d5509e50a5861cd6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 33/33] fix: chunks of photon bunches do not depend on the
 position of the object

---
 src/eventio/iact/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 2f12206..9adb0a6 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -272,12 +272,18 @@ class Photons(EventIOObject):
         if last_chunksize == 0:
             last_chunksize = chunksize
 
+        # the block may be read in other ways between two chunks
+        position = 12
+
         # read the first full size chunks
         for _ in range(n_chunks - 1):
+            self.seek(position)
             data = self.read_data(chunksize=chunksize)
+            position = self.tell()
             yield self.parse_emitter(data)
 
         # read the remaining, smaller chunk
+        self.seek(position)
         data = self.read_data(chunksize=last_chunksize)
         yield self.parse_emitter(data)
 
-- 
2.43.0

