From 3143e4046f53d3bdaee4e2995827a6e3a2e39cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 01/11] fix: track padding stores in the encoder's screen model

---
 transcoder/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transcoder/video.py b/transcoder/video.py
index fe90147..566ee9e 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -247,6 +247,8 @@ class Video:
 
         # If we run out of things to do, pad forever
         content = target.page_offset[0, 0]
+        # Padding still stores to the screen, so keep track of it.
+        self.pixelmap.apply(0, 0, is_aux, content)
         while True:
             yield 32, content, [0, 0, 0, 0]
 
-- 
2.43.0


From 285df744da1fd58b9777ae23ab0187e7737f25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 02/11] fix: use all three additional offsets of a store

---
 transcoder/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index 566ee9e..04fac61 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -178,7 +178,7 @@ class Video:
                         priorities, (-p, random.getrandbits(8), page, o))
 
                 offsets.append(o)
-                if len(offsets) == 3:
+                if len(offsets) == 4:
                     break
 
             # Pad to 4 if we didn't find enough
-- 
2.43.0


From 0129ebcd15698c68d8fdd757f509d578620ed3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 03/11] fix: keep all low address bits when setting WADRH

---
 simulator/apple2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/apple2.py b/simulator/apple2.py
index 7ab06cd..ac73112 100644
--- a/simulator/apple2.py
+++ b/simulator/apple2.py
@@ -58,7 +58,7 @@ class AppleII(machine.Machine):
 
         def _uther_wadrh(mode, value):
             old = self.uthernet.ptr
-            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0x7f)
+            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0xff)
             machine.Log("WADRH", "%04x -> %04x" % (old, self.uthernet.ptr))
 
         def _uther_wadrl(mode, value):
-- 
2.43.0


From 95367b8c2d9f06e4c6def97ffc77535dc02e1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 04/11] fix: report soft switch state in bit 7

---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index bc6d076..4f4220f 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -73,7 +73,7 @@ class SoftSwitch:
     def get(self) -> int:
         Log(self.name, "Reading soft switch (%s)" % (
             "on" if self.state else "off"))
-        return 0x80 & self.state
+        return 0x80 if self.state else 0x00
 
     @staticmethod
     def unimplemented(_):
-- 
2.43.0


From 8133abb5d1d5ea6ff54137d6b81e63f64e7f89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 05/11] fix: report a write of zero to undefined I/O as a write

---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index 4f4220f..8d4af52 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -129,7 +129,7 @@ class Machine:
                 print("**** IO EVENT with unexpected mode: %s" % access_mode)
                 raise TrapException(address, access_mode)
         except KeyError:
-            if value:
+            if value is not None:
                 raise TrapException(
                     address, 'Wrote %02X ("%s")' % (value, chr(value)))
             else:
-- 
2.43.0


From 2901fefc056443fbf43330737b133d948f1cafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 06/11] fix: do not divide by zero when normalizing silent
 audio

---
 transcoder/audio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index f537be2..42cf372 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -79,6 +79,10 @@ class Audio:
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
 
+        if not norm:
+            # Silence
+            return 1.
+
         return 16384. / norm
 
     def audio_stream(self) -> Iterator[int]:
-- 
2.43.0


From 9c728d99f03b4bdb0d9a3bf6556d764bce1ef2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 07/11] fix: end transcoding with an error when converting a
 frame fails

---
 transcoder/frame_grabber.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 2940f1d..9bef781 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -64,6 +64,8 @@ class FileFrameGrabber(FrameGrabber):
         os.makedirs(frame_dir, exist_ok=True)
 
         q = queue.Queue(maxsize=10)
+        # Exceptions raised in worker thread
+        errors = []
 
         def _hgr_decode(_idx, _frame):
             outfile = "%s/%08dC.BIN" % (frame_dir, _idx)
@@ -121,10 +123,14 @@ class FileFrameGrabber(FrameGrabber):
                 _dhgr_decode if self.video_mode == VideoMode.DHGR else
                 _hgr_decode
             )
-            for _idx, _frame in enumerate(self._frame_grabber()):
-                q.put(decode(_idx, _frame))
-
-            q.put((None, None))
+            try:
+                for _idx, _frame in enumerate(self._frame_grabber()):
+                    q.put(decode(_idx, _frame))
+            except Exception as e:
+                errors.append(e)
+            finally:
+                # Always unblock the consumer
+                q.put((None, None))
 
         t = threading.Thread(target=worker, daemon=True)
         t.start()
@@ -145,3 +151,5 @@ class FileFrameGrabber(FrameGrabber):
             q.task_done()
 
         t.join()
+        if errors:
+            raise errors[0]
-- 
2.43.0


From b23a5fb7128fce85dc8bbe2d0b5dec7632029802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 08/11] fix: keep cached frames of input files without suffix
 apart

The directory for converted frames was derived by dropping everything after
the last '.', so for all input names without one it was /<mode>/<palette> (or
that of a parent directory with a dot), and frames of one video were used for
another.
---
 transcoder/frame_grabber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 9bef781..a575b8d 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -46,7 +46,7 @@ class FileFrameGrabber(FrameGrabber):
     @staticmethod
     def _output_dir(filename, video_mode, palette) -> str:
         return "%s/%s/%s" % (
-            ".".join(filename.split(".")[:-1]),
+            os.path.splitext(filename)[0],
             video_mode.name,
             palette.name)
 
-- 
2.43.0


From 0bc57b3d4812c7af25fb03b203e3593c598d0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 09/11] fix: default output name for input files without suffix

An input name without suffix gave the output name 'a2m' (or the name of a
parent directory with a dot).
---
 transcoder/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transcoder/main.py b/transcoder/main.py
index 398532d..703d8b0 100644
--- a/transcoder/main.py
+++ b/transcoder/main.py
@@ -1,6 +1,7 @@
 """Transcodes an input video file to ][-Vision format."""
 
 import argparse
+import os
 
 import movie
 import palette
@@ -62,7 +63,7 @@ def main(args):
         out_filename = args.output
     else:
         # Replace suffix with .a2m
-        out_filename = ".".join(filename.split(".")[:-1] + ["a2m"])
+        out_filename = os.path.splitext(filename)[0] + ".a2m"
 
     with open(out_filename, "wb") as out:
         for bytes_out, b in enumerate(m.emit_stream(m.encode())):
-- 
2.43.0


From c2ca79e0a4ae3b91125f40298b893356bb953468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:42 +0000
Subject: [PATCH 10/11] fix: allow audio buffers that end in the middle of a
 frame

---
 transcoder/audio.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index 42cf372..c900e66 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -44,6 +44,11 @@ class Audio:
         self.normalization = (
                 normalization or self._normalization())  # type: float
 
+    @staticmethod
+    def _frame_bytes(f) -> int:
+        """Size of one frame, i.e. a 16-bit sample for each channel."""
+        return 2 * f.channels
+
     def _decode(self, f, buf) -> np.array:
         """
 
@@ -76,6 +81,8 @@ class Audio:
                 raw.extend(bytearray(buf))
                 if len(raw) > read_bytes:
                     break
+        # May have stopped in the middle of a frame
+        del raw[len(raw) - len(raw) % self._frame_bytes(f):]
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
 
@@ -91,8 +98,15 @@ class Audio:
         :return:
         """
         with audioread.audio_open(self.filename) as f:
+            # Part of a frame at the end of the previous buffer
+            pending = b""
             for buf in f.read_data(128 * 1024):
-                a = self._decode(f, buf)
+                buf = pending + bytes(buf)
+                end = len(buf) - len(buf) % self._frame_bytes(f)
+                pending = buf[end:]
+                if not end:
+                    continue
+                a = self._decode(f, buf[:end])
 
                 a /= 16384  # normalize to -1.0 .. 1.0
                 a *= self.normalization
-- 
2.43.0


From f6746e375b7d19e24e5d2283cdc58a468122bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:10 +0000
Subject: [PATCH 11/11] fix: load the last byte of the simulator's ROM images

---
 simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulator/simulator.py b/simulator/simulator.py
index de20ff6..0eabdaa 100644
--- a/simulator/simulator.py
+++ b/simulator/simulator.py
@@ -16,10 +16,10 @@ def main():
     # TODO: other slot ROMs; alternate Cx ROMs
 
     # Slot 6 ROM
-    a2.memory.write(0xc600, rom[0x0600:0x6ff])
+    a2.memory.write(0xc600, rom[0x0600:0x0700])
 
     # Main ROM
-    a2.memory.write(0xd000, rom[0x5000:0x7fff])
+    a2.memory.write(0xd000, rom[0x5000:0x8000])
 
     # Load video player
 
-- 
2.43.0

