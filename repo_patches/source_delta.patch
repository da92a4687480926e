From 80154bc254e818b17de56a2190f10d6aa744c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 01/31] fix: give every step-repeat and thermal layer a unique,
 reproducible id

---
 src/pygerber/gerber/compiler/compiler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 72f10f7..a26ce23 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -4,8 +4,8 @@ abstract syntax tree to PyGerber rendering VM commands (RVMC).
 
 from __future__ import annotations
 
+import itertools
 import math
-import time
 from math import cos, radians, sin
 from typing import TYPE_CHECKING, ClassVar, Optional
 
@@ -134,8 +134,13 @@ class Compiler(StateTrackingVisitor):
         self._buffers: dict[str, CommandBuffer] = {}
         self._buffer_stack: list[str] = []
         self._contour_buffer: Optional[list[ShapeSegment]] = []
+        self._internal_buffer_counter = itertools.count()
         self._create_main_buffer()
 
+    def _get_internal_buffer_id(self, prefix: str) -> ApertureIdStr:
+        """Get id of internal buffer, unique within this compilation."""
+        return ApertureIdStr(f"%%{prefix}%{next(self._internal_buffer_counter)}")
+
     def _set_buffer(self, buffer: CommandBuffer) -> None:
         """Register buffer."""
         self._buffers[buffer.id_str] = buffer
@@ -225,7 +230,7 @@ class Compiler(StateTrackingVisitor):
     def on_sr(self, node: SR) -> SR:
         """Handle `SR` node."""
         aperture_buffer = self._create_aperture_buffer(
-            ApertureIdStr(f"%%SR%{id(node)}%{time.time():.0f}")
+            self._get_internal_buffer_id("SR")
         )
         self._push_buffer(aperture_buffer.id_str)
 
@@ -1014,7 +1019,7 @@ class MacroEvalVisitor(AstVisitor):
         if thickness <= 0:
             return node
 
-        aperture_id = ApertureIdStr(f"%%Code7%{id(node)}%{time.time():.0f}")
+        aperture_id = self._compiler._get_internal_buffer_id("Code7")  # noqa: SLF001
         aperture_buffer = self._compiler._create_aperture_buffer(  # noqa: SLF001
             aperture_id
         )
-- 
2.43.0


From 176b0104ec668ee6b5264950c4949dac1461593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 02/31] fix: submit compiled layers in an order independent of
 string hashing

---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index a26ce23..4bbad99 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -782,7 +782,7 @@ class Compiler(StateTrackingVisitor):
         buffer_submit_order: list[str] = []
 
         def _(buffer: CommandBuffer) -> None:
-            for dependency_id in buffer.depends_on:
+            for dependency_id in sorted(buffer.depends_on):
                 dependency = self._get_buffer(dependency_id)
                 _(dependency)
 
-- 
2.43.0


From bfab4ca3d0bf86ae432b9b88c365f4a02cfb7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 03/31] fix: return aperture and object attributes as region
 metadata

---
 src/pygerber/gerber/compiler/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 4bbad99..ffc2ef2 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -610,11 +610,12 @@ class Compiler(StateTrackingVisitor):
     def _get_region_metadata(self) -> Optional[dict[str, str]]:
         if self._include_metadata:
             metadata = _convert_attributes_to_metadata(
-                self.state.attributes.object_attributes
+                self.state.attributes.aperture_attributes
             )
             metadata.update(
                 _convert_attributes_to_metadata(self.state.attributes.object_attributes)
             )
+            return metadata
         return None
 
     def on_flush_region(self) -> None:
-- 
2.43.0


From 53edc5e6ea79099367afefc0ee8bff69d235ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 04/31] fix: place step-repeat copies relative to the block,
 not the current point

---
 src/pygerber/gerber/compiler/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index ffc2ef2..3a3462d 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -245,8 +245,8 @@ class Compiler(StateTrackingVisitor):
 
         for x in range(node.open.x_repeats):
             for y in range(node.open.y_repeats):
-                x_coordinate = self.coordinate_x + (x * x_delta)
-                y_coordinate = self.coordinate_y + (y * y_delta)
+                x_coordinate = x * x_delta
+                y_coordinate = y * y_delta
                 tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
                     buffer, Matrix3x3.new_translate(x=x_coordinate, y=y_coordinate)
                 )
-- 
2.43.0


From ac2ff699356600258fc898ff64588150b44ccee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 05/31] fix: apply rotation of macro polygon primitive only
 once

---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 3a3462d..d52ab8c 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -916,7 +916,7 @@ class MacroEvalVisitor(AstVisitor):
             (center_x, center_y),
             diameter,
             number_of_vertices,
-            rotation,
+            0.0,
             is_negative=(exposure == 0),
             metadata=self._metadata,
         )
-- 
2.43.0


From fb22e3378340848732960def4af3738672002965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 06/31] fix: regular polygon has the requested number of sides
 at any rotation

---
 src/pygerber/vm/commands/shape.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 1b460fa..2263b55 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -234,10 +234,8 @@ class Shape(Command):
         local_vertex_offset = local_vertex_offset.transform(
             Matrix3x3.new_rotate(base_rotation)
         )
-        current_angle = base_rotation
 
-        while current_angle < FULL_ANGLE_DEGREES:
-            current_angle += angle_step
+        for _ in range(vertices_count):
             new_local_vertex_offset = local_vertex_offset.transform(transform_matrix)
 
             commands.append(
-- 
2.43.0


From aada29aa83367615802e2cd555972544316c2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 07/31] fix: format each SR parameter when that parameter is
 present

---
 src/pygerber/gerber/formatter/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 7471884..d0d29a3 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -510,13 +510,13 @@ class Formatter(AstVisitor):
             if node.x is not None:
                 self._write(f"X{node.x}")
 
-            if node.x is not None:
+            if node.y is not None:
                 self._write(f"Y{node.y}")
 
-            if node.x is not None:
+            if node.i is not None:
                 self._write(f"I{node.i}")
 
-            if node.x is not None:
+            if node.j is not None:
                 self._write(f"J{node.j}")
 
         return node
-- 
2.43.0


From c82268a136a332b7adcaccbd53d378f9086181b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 08/31] fix: honour FloatTrimTrailingZeros.No and never trim
 zeros of integers

---
 src/pygerber/gerber/formatter/formatter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index d0d29a3..b5d1388 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -130,6 +130,7 @@ from pygerber.gerber.ast.nodes import (
 from pygerber.gerber.formatter.enums import (
     EmptyLineBeforePolaritySwitch,
     ExplicitParenthesis,
+    FloatTrimTrailingZeros,
     KeepNonStandaloneCodes,
     MacroEndInNewLine,
     MacroSplitMode,
@@ -279,7 +280,9 @@ class Formatter(AstVisitor):
 
         self.float_decimal_places = self.options.float_decimal_places
 
-        self.float_trim_trailing_zeros = self.options.float_trim_trailing_zeros
+        self.float_trim_trailing_zeros = (
+            self.options.float_trim_trailing_zeros == FloatTrimTrailingZeros.Yes
+        )
 
         if isinstance(self.options.d01_indent, int):
             self.d01_indent = self.options.indent_character * self.options.d01_indent
@@ -375,9 +378,9 @@ class Formatter(AstVisitor):
         if self.float_decimal_places < 0:
             return str(value)
         double = f"{value:.{self.float_decimal_places}f}"
-        if self.float_trim_trailing_zeros:
+        if self.float_trim_trailing_zeros and "." in double:
             return double.rstrip("0").rstrip(".")
-        return double  # type: ignore[unreachable]
+        return double
 
     def _insert_base_indent(self) -> None:
         self._write(self._base_indent)
-- 
2.43.0


From 0bb62cff19036bba3d2b77faa4f3a479083e8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 09/31] fix: closing a context with empty indent keeps the
 enclosing indent

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index b5d1388..bdf6e98 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -181,7 +181,7 @@ def _decrease_base_indent(
             assert isinstance(self, Formatter)
 
             indent_delta = getattr(self, variable_name)
-            if self._base_indent.endswith(indent_delta):
+            if indent_delta and self._base_indent.endswith(indent_delta):
                 self._base_indent = self._base_indent[: -len(indent_delta)]
 
             return function(*args, **kwargs)
-- 
2.43.0


From cdf35093689a4d6c42a80e850853025cc8600f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 10/31] fix: format polygon hole without rotation in its own
 position

---
 src/pygerber/gerber/formatter/formatter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index bdf6e98..8c9c185 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -465,6 +465,8 @@ class Formatter(AstVisitor):
 
             if node.rotation is not None:
                 self._write(f"X{self._fmt_double(node.rotation)}")
+            elif node.hole_diameter is not None:
+                self._write("X0")
 
             if node.hole_diameter is not None:
                 self._write(f"X{self._fmt_double(node.hole_diameter)}")
-- 
2.43.0


From 3fb0e5de5cbddbd8654bf4a2f87b2231229a9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 11/31] fix: format macro aperture definition with empty
 parameter list

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 8c9c185..3608dbe 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -476,7 +476,7 @@ class Formatter(AstVisitor):
     def on_ad_macro(self, node: ADmacro) -> ADmacro:
         """Handle `AD` macro node."""
         with self._extended_command(f"AD{node.aperture_id}{node.name}"):
-            if node.params is not None:
+            if node.params:
                 first, *rest = node.params
                 self._write(f",{first}")
                 for param in rest:
-- 
2.43.0


From 95046835051e47c50344a2821dabd73e7487e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 12/31] fix: region created by builder updates the tracked plot
 mode

---
 src/pygerber/builder/gerber.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index fe9fd49..528d532 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -1639,6 +1639,7 @@ class RegionCreator:
                 else:
                     raise NotImplementedError
 
+            self._builder._plot_mode = mode  # noqa: SLF001
             yield G37()
             yield D02(
                 x=self._builder._pack_x(self._begin[0]),  # noqa: SLF001
-- 
2.43.0


From d6efd3722c48c0293e78673e78ceac7e763c8c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 13/31] fix: add missing DRILLMAP entry to default alpha color
 map

---
 src/pygerber/gerber/api/_enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index 1437b4d..c20546d 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -243,6 +243,7 @@ DEFAULT_ALPHA_COLOR_MAP: COLOR_MAP_T = {
     FileTypeEnum.VCUT: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.VIAFILL: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.PADS: Style.presets.PASTE_MASK_ALPHA,
+    FileTypeEnum.DRILLMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.FABRICATIONDRAWING: Style.presets.SILK_ALPHA,
     FileTypeEnum.VCUTMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.ASSEMBLYDRAWING: Style.presets.SILK_ALPHA,
-- 
2.43.0


From ebd66fa1d9c6ba1258887e1dbdb8208c837ae3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 14/31] fix: look up CLI file type by the member name offered
 as choice

---
 src/pygerber/console/gerber.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index c8e88ee..825e560 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -144,7 +144,7 @@ def png(
 ) -> None:
     """Convert Gerber image file to PNG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -231,7 +231,7 @@ def jpeg(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to JPEG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -299,7 +299,7 @@ def tiff(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to TIFF image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -336,7 +336,7 @@ def bmp(
 ) -> None:
     """Convert Gerber image file to BMP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -387,7 +387,7 @@ def webp(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to WEBP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -419,7 +419,7 @@ if is_shapely_available():
     ) -> None:
         """Convert Gerber image file to SVG image."""
         style_obj = _sanitize_style(style, foreground, background)
-        file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
         if implementation.lower() == "shapely":
             result = file.render_with_shapely(style_obj)
@@ -529,7 +529,7 @@ def merge_convert_png(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
@@ -563,7 +563,7 @@ def merge_convert_jpeg(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
-- 
2.43.0


From f2d658a67301b415dbef315c801ab861603de215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 15/31] fix: report invalid foreground color as foreground
 option error

---
 src/pygerber/console/gerber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index 825e560..c7b063d 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -184,7 +184,7 @@ def _sanitize_style(
                 foreground_color = Color.from_hex(foreground)
             except InvalidHexColorLiteralError as e:
                 msg = f"Invalid hex color literal: {e!r}"
-                raise click.BadOptionUsage("background", msg) from e
+                raise click.BadOptionUsage("foreground", msg) from e
 
             style_obj = Style(
                 background=background_color,
-- 
2.43.0


From 3804607983e6af4207c3cb64e732c79d10abedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 16/31] fix: order inner layers of job file by layer number

---
 src/pygerber/gerber/api/_gerber_job_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index ad41c84..368ec74 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -229,7 +229,7 @@ class GerberJobFile(_ModelType):
             top=CompositeView(extract_and_sort_files(top)),
             inner=(
                 CompositeView(extract_and_sort_files(inner[key]))
-                for key in sorted(inner)
+                for key in sorted(inner, key=int)
             ),
             bottom=CompositeView(extract_and_sort_files(bottom)),
         )
-- 
2.43.0


From ee41a168b9b2321222f6bc8a0b3398ef16e6c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 17/31] fix: allow job file which was not loaded from disk

---
 src/pygerber/gerber/api/_gerber_job_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index 368ec74..f02a8d8 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -102,7 +102,8 @@ class GerberJobFile(_ModelType):
     __file_path__: Optional[Path] = None
 
     def model_post_init(self, __context: Any) -> None:
-        self.__file_path__ = Path(__context["__file_path__"])
+        if __context is not None and "__file_path__" in __context:
+            self.__file_path__ = Path(__context["__file_path__"])
         return super().model_post_init(__context)
 
     @classmethod
-- 
2.43.0


From 5232b470eb6857d5f2acf50188902117b3fbd7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 18/31] fix: hover visualization uses the current arc direction
 and defined blocks

---
 src/pygerber/gerber/language_server/_server/hover/gerber.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 17c2ca9..67a131c 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -20,6 +20,7 @@ from pygerber.gerber.ast.nodes import (
     FS,
     G01,
     G02,
+    G03,
     G74,
     G75,
     LM,
@@ -440,13 +441,13 @@ class GerberHoverCreator(AstVisitor):
         )
         nodes.extend(self.state.apertures.macros.values())
         nodes.extend(self.state.apertures.apertures.values())
-        nodes.extend(self.state.apertures.macros.values())
+        nodes.extend(self.state.apertures.blocks.values())
 
         nodes.append(
             {
                 PlotMode.LINEAR: G01(),
                 PlotMode.ARC: G02(),
-                PlotMode.CCW_ARC: G02(),
+                PlotMode.CCW_ARC: G03(),
             }[self.state.plot_mode]
         )
         nodes.append(
-- 
2.43.0


From 6a204dabd6a712287db38b73a4489320d2956b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 19/31] fix: make Position comparisons consistent

---
 src/pygerber/common/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/common/position.py b/src/pygerber/common/position.py
index 95861f5..c7417a7 100644
--- a/src/pygerber/common/position.py
+++ b/src/pygerber/common/position.py
@@ -54,7 +54,7 @@ class Position:
     def __ne__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line != __value.line and self.column != __value.column
+        return self.line != __value.line or self.column != __value.column
 
     def __gt__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
@@ -66,7 +66,7 @@ class Position:
     def __ge__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line >= __value.line or (
+        return self.line > __value.line or (
             self.line == __value.line and self.column >= __value.column
         )
 
@@ -80,6 +80,6 @@ class Position:
     def __le__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line <= __value.line or (
+        return self.line < __value.line or (
             self.line == __value.line and self.column <= __value.column
         )
-- 
2.43.0


From aee6501f751d4497cf154a4b149e18777dc8378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 20/31] fix: find nodes nested in the only node of a file

---
 src/pygerber/gerber/ast/node_finder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/ast/node_finder.py b/src/pygerber/gerber/ast/node_finder.py
index 002c0b4..c3fd216 100644
--- a/src/pygerber/gerber/ast/node_finder.py
+++ b/src/pygerber/gerber/ast/node_finder.py
@@ -52,6 +52,7 @@ class NodeFinder(AstVisitor):
 
         if len(node.nodes) == 1:
             self.return_node = node.nodes[0]
+            self.return_node.visit(self)
             return node
 
         self.return_node = self._bin_search(node.nodes)
-- 
2.43.0


From 926dfe03e0fff71b4fa429ac03b52e6826a7dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 21/31] fix: trigger linter listeners once per visited node

---
 .../gerber/linter/event_ast_visitor.py        | 34 -------------------
 1 file changed, 34 deletions(-)

diff --git a/src/pygerber/gerber/linter/event_ast_visitor.py b/src/pygerber/gerber/linter/event_ast_visitor.py
index 8b996c3..4164999 100644
--- a/src/pygerber/gerber/linter/event_ast_visitor.py
+++ b/src/pygerber/gerber/linter/event_ast_visitor.py
@@ -10,7 +10,6 @@ from pygerber.gerber.ast.nodes import Node
 if TYPE_CHECKING:
     from pygerber.gerber.ast.nodes import (
         AB,
-        AD,
         ADC,
         ADO,
         ADP,
@@ -51,11 +50,8 @@ if TYPE_CHECKING:
         OF,
         SF,
         SR,
-        TA,
         TD,
-        TF,
         TF_MD5,
-        TO,
         TO_C,
         TO_CMNP,
         TO_N,
@@ -78,14 +74,12 @@ if TYPE_CHECKING:
         Code21,
         Code22,
         Constant,
-        Coordinate,
         CoordinateI,
         CoordinateJ,
         CoordinateX,
         CoordinateY,
         Div,
         Dnn,
-        Expression,
         File,
         Invalid,
         Mul,
@@ -158,10 +152,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_ab_open(node)
 
-    def on_ad(self, node: AD) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ad(node)
-
     def on_adc(self, node: ADC) -> ADC:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_adc(node)
@@ -206,10 +196,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_sr_open(node)
 
-    def on_ta(self, node: TA) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ta(node)
-
     def on_ta_user_name(self, node: TA_UserName) -> TA_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_ta_user_name(node)
@@ -234,10 +220,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_td(node)
 
-    def on_tf(self, node: TF) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_tf(node)
-
     def on_tf_user_name(self, node: TF_UserName) -> TF_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_tf_user_name(node)
@@ -284,10 +266,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_tf_md5(node)
 
-    def on_to(self, node: TO) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_to(node)
-
     def on_to_user_name(self, node: TO_UserName) -> TO_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_to_user_name(node)
@@ -488,10 +466,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_constant(node)
 
-    def on_expression(self, node: Expression) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_expression(node)
-
     def on_parenthesis(self, node: Parenthesis) -> Parenthesis:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_parenthesis(node)
@@ -504,10 +478,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_variable(node)
 
-    def on_coordinate(self, node: Coordinate) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_coordinate(node)
-
     def on_coordinate_x(self, node: CoordinateX) -> CoordinateX:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_coordinate_x(node)
@@ -604,10 +574,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_file(node)
 
-    def on_end_of_file(self, node: File) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_end_of_file(node)
-
     def on_invalid(self, node: Invalid) -> Invalid:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_invalid(node)
-- 
2.43.0


From f63a099016f6026ca2bb8000a20ef97a216f4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 22/31] fix: stop at program end unless program stop is ignored

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 94467ce..54d1c26 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -948,6 +948,6 @@ class StateTrackingVisitor(AstVisitor):
     def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
         """Handle exception."""
         if isinstance(exception, ProgramStop):
-            return bool(self._ignore_program_stop)
+            return not self._ignore_program_stop
 
         return True
-- 
2.43.0


From 0b332007f7f99968e1788bb7e14d055c07e14f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 23/31] fix: keep positions of all fields when formatting
 FlashText attribute

---
 src/pygerber/gerber/formatter/formatter.py | 29 ++++++----------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 3608dbe..5a6f5c7 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -579,30 +579,17 @@ class Formatter(AstVisitor):
             self._write(",")
             self._write(node.mirroring)
 
-            if len(node.comments) == 0:
-                if node.font is not None:
-                    self._write(",")
-                    self._write(node.font)
-
-                if node.size is not None:
-                    self._write(",")
-                    self._write(node.size)
+            self._write(",")
+            if node.font is not None:
+                self._write(node.font)
 
-                for comment in node.comments:
-                    self._write(",")
-                    self._write(comment)
-            else:
-                self._write(",")
-                if node.font is not None:
-                    self._write(node.font)
+            self._write(",")
+            if node.size is not None:
+                self._write(node.size)
 
+            for comment in node.comments:
                 self._write(",")
-                if node.size is not None:
-                    self._write(node.size)
-
-                for comment in node.comments:
-                    self._write(",")
-                    self._write(comment)
+                self._write(comment)
 
         return node
 
-- 
2.43.0


From a45b51dcf53d9aeb9eeffdfc5283c05de1a5e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:53 +0000
Subject: [PATCH 24/31] fix: accept step-repeat blocks nested in block
 apertures

---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index a67d268..66669d8 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -442,9 +442,7 @@ class Grammar:
     @pp.cached_property
     def step_repeat(self) -> pp.ParserElement:
         """Create a parser element capable of parsing step repeats."""
-        self.step_and_repeat_block_forward = pp.Forward()
-
-        self.step_and_repeat_block_forward <<= (
+        self.step_repeat_forward <<= (
             (
                 self.sr_open.set_results_name("open")
                 + pp.ZeroOrMore(
@@ -470,7 +468,7 @@ class Grammar:
             .set_parse_action(self.make_unpack_callback(SR))
         )
 
-        return self.step_and_repeat_block_forward
+        return self.step_repeat_forward
 
     @pp.cached_property
     def sr_open(self) -> pp.ParserElement:
-- 
2.43.0


From d71e45d9ce5a88bfcd6de8860dc02764120ccabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:53 +0000
Subject: [PATCH 25/31] fix: write library name attribute as TO.CLbN

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 5a6f5c7..c7d53df 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -838,7 +838,7 @@ class Formatter(AstVisitor):
     @_decorator_insert_base_indent
     def on_to_clbn(self, node: TO_CLbN) -> TO_CLbN:
         """Handle `TO_CLbN` node."""
-        with self._extended_command("TO.CLbn"):
+        with self._extended_command("TO.CLbN"):
             self._write(",")
             self._write(node.name)
 
-- 
2.43.0


From 4a69d28b673273b135ab3680502066298d72dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:10 +0000
Subject: [PATCH 26/31] fix: write invalid text back when formatting resilient
 parse results

---
 src/pygerber/gerber/formatter/formatter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index c7d53df..03d85b6 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -92,6 +92,7 @@ from pygerber.gerber.ast.nodes import (
     Double,
     File,
     G,
+    Invalid,
     Mul,
     Neg,
     Node,
@@ -1504,3 +1505,10 @@ class Formatter(AstVisitor):
             self._write("B")
             self._write(self._fmt_double(node.b_scale))
         return node
+
+    @_decorator_insert_base_indent
+    def on_invalid(self, node: Invalid) -> Invalid:
+        """Handle `Invalid` node."""
+        with self._command(node.string, asterisk=False):
+            pass
+        return node
-- 
2.43.0


From d0f2641650b1950fde0e6201f0c69a037d06c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:49 +0000
Subject: [PATCH 27/31] fix: format CLI command opens output only after source
 was formatted

---
 src/pygerber/console/gerber.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index c7b063d..e0babe5 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -495,10 +495,10 @@ def format_cmd(
             raise NotImplementedError
 
     output_path = Path(output)
-    file = GerberFile.from_file(source)
+    formatted = GerberFile.from_file(source).formats(options=options)
 
     with output_path.open("w") as f:
-        file.format(f, options=options)
+        f.write(formatted)
 
 
 @gerber.group("merge-convert")
-- 
2.43.0


From 981847fce61aaf2d9239a81a06731f0c5e60e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:49 +0000
Subject: [PATCH 28/31] fix: restore handlers of enclosing layer after empty
 auto sized layer

---
 src/pygerber/vm/vm.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index d6d5752..e6654f3 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -262,17 +262,17 @@ class VirtualMachine(CommandVisitor):
             if box is None:
                 if self._fail_on_empty_auto_sized_layer:
                     raise EmptyAutoSizedLayerNotAllowedError(top_layer.layer_id)
-                return
 
-            new_layer = self.create_eager_layer(
-                top_layer.layer_id, top_layer.origin, box
-            )
-            self.set_layer(top_layer.layer_id, new_layer)
-
-            self.push_layer_to_stack(new_layer)
-            self.set_eager_handlers()
-            self._eval_deferred_commands(top_layer.commands)
-            self.pop_layer_from_stack()
+            else:
+                new_layer = self.create_eager_layer(
+                    top_layer.layer_id, top_layer.origin, box
+                )
+                self.set_layer(top_layer.layer_id, new_layer)
+
+                self.push_layer_to_stack(new_layer)
+                self.set_eager_handlers()
+                self._eval_deferred_commands(top_layer.commands)
+                self.pop_layer_from_stack()
 
         else:
             raise NotImplementedError(type(top_layer))
-- 
2.43.0


From c2dac290b385e775ff5373acabedbf264d78d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:49 +0000
Subject: [PATCH 29/31] fix: compare extents of composite view images in
 millimeters

---
 src/pygerber/gerber/api/_composite_view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/api/_composite_view.py b/src/pygerber/gerber/api/_composite_view.py
index 29eee02..0b79399 100644
--- a/src/pygerber/gerber/api/_composite_view.py
+++ b/src/pygerber/gerber/api/_composite_view.py
@@ -67,10 +67,10 @@ class CompositeView:
             file.render_with_pillow(dpmm=dpmm) for file in self.files
         ]
 
-        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x)
-        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y)
-        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x)
-        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y)
+        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x_mm)
+        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y_mm)
+        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x_mm)
+        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y_mm)
 
         width_pixels = (
             max_x_image.get_image_space().max_x_pixels
-- 
2.43.0


From d34c341e91af90e96c3ec5934f10692fcf402cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 30/31] fix: name manufacturer part number attribute .CMPN

---
 src/pygerber/gerber/ast/nodes/attribute/TO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/ast/nodes/attribute/TO.py b/src/pygerber/gerber/ast/nodes/attribute/TO.py
index c7b25fc..3d1265a 100644
--- a/src/pygerber/gerber/ast/nodes/attribute/TO.py
+++ b/src/pygerber/gerber/ast/nodes/attribute/TO.py
@@ -155,14 +155,14 @@ class TO_CMfr(TO):  # noqa: N801
 
 
 class TO_CMNP(TO):  # noqa: N801
-    """Represents TO Gerber extended command with .CMNP attribute."""
+    """Represents TO Gerber extended command with .CMPN attribute."""
 
     part_number: str
 
     @property
     def attribute_name(self) -> str:
         """Get attribute name."""
-        return ".CMNP"
+        return ".CMPN"
 
     def visit(self, visitor: AstVisitor) -> TO_CMNP:
         """Handle visitor call."""
-- 
2.43.0


From 7c09af2d9edfc19b75dcf05f676074fa02a80040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:44 +0000
Subject: [PATCH 31/31] fix: treat omitted arc center offset as zero instead of
 the previous one

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 54d1c26..42e4fe5 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -583,6 +583,9 @@ class StateTrackingVisitor(AstVisitor):
 
     def on_d01(self, node: D01) -> D01:
         """Handle `D01` node."""
+        # Offsets are not modal, omitted offset is zero.
+        self.state.coordinate_i = None
+        self.state.coordinate_j = None
         super().on_d01(node)
         self._on_d01_handler(node)
         self._update_coordinates()
-- 
2.43.0

