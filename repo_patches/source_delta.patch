From 6fe7df07cb11a0527ff6b3df66da3a69b63660c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 1/6] fix: do not write the output wheel when repairing it
 failed

InWheel.__exit__ packed the half-processed wheel into the output directory
even when an exception was propagating (e.g. a required library could not
be located), leaving an unrepaired wheel behind.
---
 src/auditwheel/wheeltools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 0ac4c3a..4902993 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -137,7 +137,7 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        if self.out_wheel is not None:
+        if exc is None and self.out_wheel is not None:
             rewrite_record(self.name)
             date_time = None
             timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-- 
2.43.0


From af59948b1efdf5dbff9fc0d1d2eae80d77a001df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 2/6] fix: restore the working directory when packing a wheel
 fails

If rewriting RECORD or writing the archive raised in InWheel.__exit__, the
parent's __exit__ was skipped: the process stayed in the temporary directory.
---
 src/auditwheel/wheeltools.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 4902993..889b984 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -137,14 +137,16 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        if exc is None and self.out_wheel is not None:
-            rewrite_record(self.name)
-            date_time = None
-            timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-            if timestamp:
-                date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-            dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
-        return super().__exit__(exc, value, tb)
+        try:
+            if exc is None and self.out_wheel is not None:
+                rewrite_record(self.name)
+                date_time = None
+                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
+                if timestamp:
+                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
+                dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
+        finally:
+            super().__exit__(exc, value, tb)
 
 
 class InWheelCtx(InWheel):
-- 
2.43.0


From 9ecbd3716e10496fde370ab2692441411231e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 3/6] fix: remove the truncated wheel when writing the archive
 fails

zipfile closes a partial archive properly when an error occurs while files
are added (e.g. a SOURCE_DATE_EPOCH beyond what zip supports), which left an
installable but incomplete wheel in the output directory.
---
 src/auditwheel/wheeltools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 889b984..b508faa 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -144,7 +144,12 @@ class InWheel(InTemporaryDirectory):
                 timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                 if timestamp:
                     date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-                dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
+                try:
+                    dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
+                except BaseException:
+                    # don't leave a truncated wheel behind
+                    self.out_wheel.unlink(missing_ok=True)
+                    raise
         finally:
             super().__exit__(exc, value, tb)
 
-- 
2.43.0


From 47bd84298442e2ce633c26b2f9efc95a6b7dd308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 4/6] fix: do not modify the cached result of parse_ld_so_conf

load_ld_paths extended the list returned by the cached function in place, so
the trusted directories were appended again for every libc analysed.
---
 src/auditwheel/lddtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index af46a8e..bd41128 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -374,7 +374,8 @@ def load_ld_paths(
                 ldpaths["conf"].append(root + ldpath_stripped)
     else:
         # Load up /etc/ld.so.conf.
-        ldpaths["conf"] = parse_ld_so_conf(root + prefix + "/etc/ld.so.conf", root=root)
+        # copy the cached list, it must not be modified
+        ldpaths["conf"] = list(parse_ld_so_conf(root + prefix + "/etc/ld.so.conf", root=root))
         # the trusted directories are not necessarily in ld.so.conf
         ldpaths["conf"].extend(["/lib", "/lib64/", "/usr/lib", "/usr/lib64"])
     log.debug("linker ldpaths: %s", ldpaths)
-- 
2.43.0


From 0a9248dbaf89943a6723b0a11106284aeebcdeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 5/6] fix: make grafting order and SBOM independent of set
 iteration order

External libraries were collected in a set and iterated directly, so the
order of patching arguments, SBOM components and package providers changed
with the hash seed.
---
 src/auditwheel/_vendor/whichprovides/__init__.py | 4 +++-
 src/auditwheel/policy/__init__.py                | 2 +-
 src/auditwheel/sboms.py                          | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index fa3e3fe..aae5bc3 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -302,7 +302,9 @@ def _package_providers() -> list[type[PackageProvider]]:
             subclasses |= all_subclasses(subcls)
         return subclasses
 
-    return sorted(all_subclasses(PackageProvider), key=lambda p: p._resolve_order)
+    return sorted(
+        all_subclasses(PackageProvider), key=lambda p: (p._resolve_order, p.__name__)
+    )
 
 
 def whichprovides(filepath: typing.Union[str, list[str]]) -> dict[str, ProvidedBy]:
diff --git a/src/auditwheel/policy/__init__.py b/src/auditwheel/policy/__init__.py
index b55fc59..fb9b4bc 100644
--- a/src/auditwheel/policy/__init__.py
+++ b/src/auditwheel/policy/__init__.py
@@ -282,7 +282,7 @@ class WheelPolicies:
                 )
 
             pol_ext_deps: dict[str, Path | None] = {}
-            for lib in needed_external_libs:
+            for lib in sorted(needed_external_libs):
                 if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                     # we didn't filter libs that resolved via RPATH out
                     # earlier because we wanted to make sure to pick up
diff --git a/src/auditwheel/sboms.py b/src/auditwheel/sboms.py
index 5d0c049..4b5ee95 100644
--- a/src/auditwheel/sboms.py
+++ b/src/auditwheel/sboms.py
@@ -67,7 +67,7 @@ def create_sbom_for_wheel(
         "dependencies": sbom_dependencies,
     }
 
-    for filepath, provided_by in sbom_packages.items():
+    for filepath, provided_by in sorted(sbom_packages.items()):
         bom_ref = (
             provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
         )
-- 
2.43.0


From 7ada45634ff44200002d8664a109a3c2903f413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 6/6] fix: read included ld.so.conf files in a fixed order

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index bd41128..10ec200 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -296,7 +296,7 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                     else:
                         line = os.path.dirname(ldso_conf) + "/" + line
                     log.debug("%s  glob: %s", dbg_pfx, line)
-                    for path in glob.glob(line):
+                    for path in sorted(glob.glob(line)):
                         paths += parse_ld_so_conf(path, root=root, _first=False)
                 else:
                     paths += [normpath(root + line)]
-- 
2.43.0

