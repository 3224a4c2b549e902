From 14c9cfbcc11da2bcf8ed5d91c3f208774421f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 1/6] fix: raise ValueError for a header cut short instead of
 zero filling it

get_header documents ValueError if there are not enough bytes, but a header cut anywhere behind
the struct lengths (44 of 480 bytes on) was accepted with the missing part read as zeros.
---
 atoparser/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 5b6f47c..0013550 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -145,11 +145,13 @@ def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header
     # Read the header directly into the struct, there is no padding to consume or add.
     # Use default Header as the baseline in order to check the version. It can be transferred without re-reading.
     header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
-    raw_file.readinto(header)
+    header_size = raw_file.readinto(header)
 
     if header.magic != MAGIC:
         msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
         raise ValueError(msg)
+    if header_size < ctypes.sizeof(header):
+        raise ValueError(f"File does not contain a complete header: {header_size} of {ctypes.sizeof(header)} bytes")
 
     header_version = header.semantic_version
     if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:
-- 
2.43.0


From 19f76e464dddb0aee7a594f18e444d24a11761b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 2/6] fix: reject unsupported old versions with ValueError
 instead of AttributeError

A header of e.g. Atop 2.2 or 1.27 falls back to the latest header, which has no pstatlen, so
check_compatibility raised AttributeError instead of the documented ValueError.
---
 atoparser/structs/shared.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atoparser/structs/shared.py b/atoparser/structs/shared.py
index 91dda02..52e4408 100644
--- a/atoparser/structs/shared.py
+++ b/atoparser/structs/shared.py
@@ -52,7 +52,8 @@ class HeaderMixin:
         if self.major_version >= 2 and self.minor_version >= 3:
             sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
         else:
-            sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
+            # Unsupported versions fall back to the latest header, which does not declare a PStat length.
+            sizes.append(("PStat", getattr(self, "pstatlen", None), ctypes.sizeof(self.TStat)))
         if self.major_version >= 2 and self.minor_version >= 11:
             sizes.append(("CStat", self.cstatlen, ctypes.sizeof(self.CStat)))
         if any(size[1] != size[2] for size in sizes):
-- 
2.43.0


From d0f735b92f898af56ff1f3aed982a1bcf3d303a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 3/6] fix: do not fail parseable output on text that is not
 valid UTF-8

Process names and command lines are cut at a fixed number of bytes, which can split a multi-byte
character. Decode them the same way as struct_to_dict.
---
 atoparser/parsers/atop_1_26.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/atoparser/parsers/atop_1_26.py b/atoparser/parsers/atop_1_26.py
index ef8f33b..c062050 100644
--- a/atoparser/parsers/atop_1_26.py
+++ b/atoparser/parsers/atop_1_26.py
@@ -96,7 +96,7 @@ def parse_DSK(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": disk.name.decode(),
+            "name": disk.name.decode(errors="ignore"),
             "io_ms": disk.io_ms,
             "reads": disk.nread,
             "read_sectors": disk.nrsect,
@@ -120,7 +120,7 @@ def parse_LVM(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": lvm.name.decode(),
+            "name": lvm.name.decode(errors="ignore"),
             "io_ms": lvm.io_ms,
             "reads": lvm.nread,
             "read_sectors": lvm.nrsect,
@@ -144,7 +144,7 @@ def parse_MDD(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": mdd.name.decode(),
+            "name": mdd.name.decode(errors="ignore"),
             "io_ms": mdd.io_ms,
             "reads": mdd.nread,
             "read_sectors": mdd.nrsect,
@@ -189,7 +189,7 @@ def parse_NETL(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": interface.name.decode(),
+            "name": interface.name.decode(errors="ignore"),
             "pkt_received": interface.rpack,
             "byte_received": interface.rbyte,
             "pkt_transmitted": interface.spack,
@@ -254,8 +254,8 @@ def parse_PRC(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "ticks": header.hertz,
             "user_consumption": stat.cpu.utime,
             "system_consumption": stat.cpu.stime,
@@ -281,8 +281,8 @@ def parse_PRD(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n",
             "reads": stat.dsk.rio,
@@ -306,15 +306,15 @@ def parse_PRG(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "real_uid": stat.gen.ruid,
             "real_gid": stat.gen.rgid,
             "tgid": stat.gen.pid,  # This is a duplicate of pid per atop documentation.
             "threads": stat.gen.nthr,
             "exit_code": stat.gen.excode,
             "start_time": stat.gen.btime,
-            "cmd": stat.gen.cmdline.decode(),
+            "cmd": stat.gen.cmdline.decode(errors="ignore"),
             "ppid": stat.gen.ppid,
             "running_threads": stat.gen.nthrrun,
             "sleeping_threads": stat.gen.nthrslpi,
@@ -342,8 +342,8 @@ def parse_PRM(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "page": header.pagesize,
             "vsize": stat.mem.vmem * 1024,
             "rsize": stat.mem.rmem * 1024,
@@ -368,8 +368,8 @@ def parse_PRN(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "tcp_transmitted": stat.net.tcpsnd,
             "tcp_transmitted_size": stat.net.tcpssz,
-- 
2.43.0


From fc2e4f190767a290048f72c93ea2f38ef61f20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 4/6] fix: read samples without a cgroup section

Records of Atop 2.11+ declaring no cgroup bytes (no cgroup v2 on the system) raised zlib.error for
the empty sections, or silently ended reading when truncation errors are ignored.
---
 atoparser/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 0013550..c3d5b23 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -267,10 +267,11 @@ def get_cstat(
     """
     # Read the requested length instead of the length of the struct.
     # The data is compressed and must be decompressed before it will fill the final list of structs.
+    # Sections with no length were not written, such as on systems without cgroups, and have nothing to decompress.
     buffer_cstats = raw_file.read(record.ccomplen)
-    decompressed_cstats = zlib.decompress(buffer_cstats)
+    decompressed_cstats = zlib.decompress(buffer_cstats) if record.ccomplen else b""
     buffer_pidlist = raw_file.read(record.icomplen)
-    decompressed_pidlist = zlib.decompress(buffer_pidlist)
+    decompressed_pidlist = zlib.decompress(buffer_pidlist) if record.icomplen else b""
 
     cgroups = []
     cstat_start = 0
-- 
2.43.0


From 22087d4f87ea394ffaa84f311528603e1f8c8a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 5/6] fix: treat a truncated gzip file like a truncated log

A gzip file that is cut short raises EOFError, which escaped even with raise_on_truncation=False and
made the reader command lose all samples of the file.
---
 atoparser/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index c3d5b23..7a11faa 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -122,7 +122,7 @@ def generate_statistics(
             else:
                 cgroups = []
             yield record, sstat, tstats, cgroups
-    except zlib.error:
+    except (EOFError, zlib.error):
         # End of readable data reached. This is common during software restarts.
         # All errors after the header are squashable errors, since that means the file is valid, but was not closed.
         if raise_on_truncation:
-- 
2.43.0


From 92a8f3d3866b1061708c5f7bd3fd1620ea347c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 6/6] fix: refuse cgroups that are shorter than their struct

An entry claiming a length below its struct (or zero, or negative) made get_cstat repeat or overlap entries
instead of raising ValueError like any other block that does not hold the declared number of cgroups.
---
 atoparser/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 7a11faa..eac70d8 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -285,6 +285,9 @@ def get_cstat(
         # N.B. The variable length cgname is currently unsupported. In order to properly skip the remaining bytes,
         # Use the final structlen from the nested gen struct to update the starting point.
         cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + cstatlen])
+        if cstat.gen.structlen < cstatlen:
+            # Entries cannot overlap, the block does not hold the expected number of cgroups.
+            raise ValueError(f"CGroup is shorter than its struct: {cstat.gen.structlen} of {cstatlen} bytes")
         cstat_start += cstat.gen.structlen
 
         pid_array = pid_t * cstat.gen.nprocs
-- 
2.43.0

