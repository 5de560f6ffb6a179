From 92a6da44aa6b8756d0dd24a2fb206abf06a23a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 01/45] fix: rewinding an unread FileWrapper stays where its
 handle was given

---
 castep_outputs/utilities/filewrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 97a93cd..8be3b58 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -26,7 +26,7 @@ class FileWrapper:
 
     def __init__(self, file: TextIO) -> None:
         self._file = file
-        self._pos = 0
+        self._pos = file.tell()
         self._lineno = 0
 
     def __iter__(self) -> Self:
-- 
2.43.0


From 07e20510a66c9bf710cd546b7e6215052bb8f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 02/45] fix: FileWrapper does not close a handle it was given
 when it is collected

---
 castep_outputs/utilities/filewrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 8be3b58..c04d71b 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -106,9 +106,6 @@ class FileWrapper:
         """Close wrapped file, and invalidate self."""
         self.file.close()
 
-    def __del__(self) -> None:
-        self.close()
-
 
 class Block:
     """
-- 
2.43.0


From 418aaff77fe8cd97a4b8291a26c25aed3adb9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 03/45] fix: Block.get_lines takes exactly n lines and numbers
 them correctly

---
 castep_outputs/tools/md_geom_parser.py  |  2 +-
 castep_outputs/utilities/filewrapper.py | 16 ++++++----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index f26fa06..b515d25 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -47,7 +47,7 @@ class MDGeomParser:
 
         while next(self._handle).strip():
             pass
-        self._frame_lines = self._handle.lineno - self._start_line - 1
+        self._frame_lines = self._handle.lineno - self._start_line  # Including blank line
 
         self._frame_bytes = self._handle.tell() - self._start
         stat = self.file.stat()
diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index c04d71b..24acf30 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -165,17 +165,13 @@ class Block:
         ['Hello\n', 'There\n']
         """
         block = cls(in_file)
+        block._lineno += 1  # Block starts at the line after the current one.
 
-        data: list[str] = []
-        for i, line in enumerate(in_file, 1):
-            if i > n_lines:
-                break
-            data.append(line)
-        else:
-            if not eof_possible:
-                if hasattr(in_file, "name"):
-                    raise OSError(f"Unexpected end of file in {in_file.name}.")
-                raise OSError("Unexpected end of file.")
+        data: list[str] = [line for _, line in zip(range(n_lines), in_file)]
+        if len(data) < n_lines and not eof_possible:
+            if hasattr(in_file, "name"):
+                raise OSError(f"Unexpected end of file in {in_file.name}.")
+            raise OSError("Unexpected end of file.")
 
         block._data = tuple(data)
         return block
-- 
2.43.0


From 814d71033749472a80dc248c322d97aafa9a6dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 04/45] fix: .ts header of an unconfirmed search is not a
 structure

---
 castep_outputs/parsers/ts_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/ts_file_parser.py b/castep_outputs/parsers/ts_file_parser.py
index 37407a9..ea1622a 100644
--- a/castep_outputs/parsers/ts_file_parser.py
+++ b/castep_outputs/parsers/ts_file_parser.py
@@ -72,7 +72,8 @@ def parse_ts_file(ts_file: TextIO) -> TSFileInfo:
         if "TSConfirmation" in line:
             accum["confirmation"] = True
 
-        elif block := Block.from_re(line, ts_file, "(REA|PRO|TST)", r"^\s*$", eof_possible=True):
+        elif block := Block.from_re(line, ts_file, r"^\s*(REA|PRO|TST)\s*\d", r"^\s*$",
+                                     eof_possible=True):
             curr = defaultdict(list)
             match = re.match(r"\s*(?P<type>REA|PRO|TST)\s*\d+\s*" +
                              labelled_floats(("reaction_coordinate",)), line)
-- 
2.43.0


From f95114e0ac31385e02de1f8569ef55d170bf5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 05/45] fix: spin-polarised .bands headers keep both spins'
 values and Fermi energies

---
 castep_outputs/parsers/bands_file_parser.py | 8 ++++----
 castep_outputs/parsers/parse_utilities.py   | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/bands_file_parser.py b/castep_outputs/parsers/bands_file_parser.py
index 930dc5e..2c0fd68 100644
--- a/castep_outputs/parsers/bands_file_parser.py
+++ b/castep_outputs/parsers/bands_file_parser.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 import re
-from typing import Literal, TextIO, TypedDict
+from typing import Literal, TextIO, TypedDict, Union
 
 from castep_outputs.utilities import castep_res as REs
 from castep_outputs.utilities.datatypes import ThreeVector
@@ -32,8 +32,8 @@ class BandsQData(TypedDict, total=False):
 
 
 BandsFileInfo = TypedDict("BandsFileInfo", {
-    "eigenvalues": int,
-    "electrons": int,
+    "eigenvalues": Union[int, tuple[int, int]],
+    "electrons": Union[int, tuple[int, int]],
     "k-points": int,
     "spin components": int,
     "Fermi Energy": float,
@@ -63,7 +63,7 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
     current: Literal["band", "band_up", "band_down"] = "band"
 
     block = Block.from_re("", bands_file, "", REs.THREEVEC_RE, n_end=3)
-    data = parse_regular_header(block, ("Fermi energy",))
+    data = parse_regular_header(block, ("Fermi energy", "Fermi energies"))
     bands_info.update(data)
 
     for line in bands_file:
diff --git a/castep_outputs/parsers/parse_utilities.py b/castep_outputs/parsers/parse_utilities.py
index ea2ab3c..28cacba 100644
--- a/castep_outputs/parsers/parse_utilities.py
+++ b/castep_outputs/parsers/parse_utilities.py
@@ -38,8 +38,11 @@ def parse_regular_header(block: Block,
     coords = defaultdict(list)
     for line in block:
         if line.strip().startswith("Number of"):
-            _, _, *key, val = line.split()
-            data[" ".join(key)] = int(float(val))
+            _, _, *words = line.split()
+            # Spin-polarised headers have a value for each spin component
+            n_val = 2 if len(words) > 2 and re.fullmatch(REs.FINTNUMBER_RE, words[-2]) else 1
+            key, vals = words[:-n_val], tuple(int(float(val)) for val in words[-n_val:])
+            data[" ".join(key)] = vals if n_val > 1 else vals[0]
         elif "Unit cell vectors" in line:
             data["unit_cell"] = [to_type(next(block).split(), float)
                                  for _ in range(3)]
-- 
2.43.0


From 36cc3361f672cfa8e1d4408878957f501e20e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 06/45] fix: binary files cut short inside a record or a group
 of records raise

---
 .../bin_parsers/fortran_bin_parser.py           | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/bin_parsers/fortran_bin_parser.py b/castep_outputs/bin_parsers/fortran_bin_parser.py
index e375925..5a950f0 100644
--- a/castep_outputs/bin_parsers/fortran_bin_parser.py
+++ b/castep_outputs/bin_parsers/fortran_bin_parser.py
@@ -55,7 +55,10 @@ class FortranBinaryReader:
 
         size = int.from_bytes(bin_size, "big")
         data = self.file.read(size)
-        self.file.read(4)
+
+        if len(bin_size) < 4 or len(data) < size or len(self.file.read(4)) < 4:
+            raise OSError("Unexpected end of file in record.")
+
         return data
 
     def rewind(self, n: int = 1, /) -> None:
@@ -214,8 +217,18 @@ class FortranBinaryReader:
         -------
         :
             Loaded data.
+
+        Raises
+        ------
+        OSError
+            If file ends before all elements are read.
         """
-        return {
+        data = {
             key: parse_bytes(datum, typ)
             for (key, typ), datum in zip(dtypes.items(), self, strict=False)
         }
+
+        if len(data) < len(dtypes):
+            raise OSError(f"Unexpected end of file, expected {', '.join(map(str, dtypes))}.")
+
+        return data
-- 
2.43.0


From b2b9096bb39fd8ef324046a7e41467b791db011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 07/45] fix: predicted .pes and .hug files do not depend on the
 letter case of the option

---
 castep_outputs/tools/get_generated_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index c821da7..a818655 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -522,7 +522,7 @@ def _get_generated_files(
     elif task is Task.GEOMOPT:
         if param_data.get("write_geom", True):
             out_files.add(f"{seedname}.geom")
-        if param_data.get("geom_method") == "pes":
+        if param_data.get("geom_method", "").lower() == "pes":
             out_files.add(f"{seedname}.pes")
     elif task is Task.SPECTRAL:
         out_files |= get_spectral_files(
@@ -533,7 +533,7 @@ def _get_generated_files(
     elif task is Task.MD:
         if param_data.get("write_md", True):
             out_files.add(f"{seedname}.md")
-        if param_data.get("md_ensemble") in {"nvhug", "nphug"}:
+        if param_data.get("md_ensemble", "").lower() in {"nvhug", "nphug"}:
             out_files.add(f"{seedname}.hug")
 
         extrap = param_data.get("md_extrap", "first").lower()
-- 
2.43.0


From 1abd01f3b7369e2039a04d05e588e68c3ded74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 08/45] fix: predicted pseudopotential names do not depend on
 set order

---
 castep_outputs/tools/get_generated_files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index a818655..45e62cd 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -469,7 +469,9 @@ def _get_generated_files(
         elif xc & {"libxc_gga", "libxc_hyb_gga"}:
             theory = "PBE"
         else:
-            theory = XC_TO_PS_THEORY.get(next(iter(xc)), "LDA")
+            # Sets have no fixed order, so pick the theory in a repeatable way.
+            theories = (XC_TO_PS_THEORY[key] for key in sorted(xc) if key in XC_TO_PS_THEORY)
+            theory = next(theories, "LDA")
 
         otf_name = f"{spec}_EXT_{theory}_OTF"
 
-- 
2.43.0


From d7ab170c77246452a747034ebf6abf31c99a29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 09/45] fix: signed fractions are read whole

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 00da67e..ee5ed07 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -209,7 +209,7 @@ EXPFNUMBER_RE = f"(?:{EXPNUMBER_RE}|{FNUMBER_RE})"
 #: Integer ratio.
 #:
 #: :meta hide-value:
-RATIONAL_RE = rf"\b{INTNUMBER_RE}/{INTNUMBER_RE}\b"
+RATIONAL_RE = rf"(?<!\w){INTNUMBER_RE}/\d+(?!\.)\b"
 
 #: Generalised number.
 #:
-- 
2.43.0


From 9cfc280e3ee99f33b56cd30acbe0794d16b6abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 10/45] fix: a value's type is inferred from all of it, so
 conversion cannot fail

---
 castep_outputs/utilities/type_conv.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/utilities/type_conv.py b/castep_outputs/utilities/type_conv.py
index f18b914..3b0a083 100644
--- a/castep_outputs/utilities/type_conv.py
+++ b/castep_outputs/utilities/type_conv.py
@@ -87,15 +87,14 @@ def determine_type(data: str) -> type:
     if data.title() in {"T", "True", "F", "False"}:
         return bool
 
-    if re.match(rf"(?:\s*{REs.EXPFNUMBER_RE})+", data):
-        return float
-
-    if re.match(rf"(?:\s*{REs.RATIONAL_RE})+", data):
-        return float
+    words = data.split()
 
-    if re.match(rf"(?:\s*{REs.INTNUMBER_RE})+", data):
+    if words and all(re.fullmatch(REs.INTNUMBER_RE, word) for word in words):
         return int
 
+    if words and all(REs.FLOAT_RAT_RE.fullmatch(word) for word in words):
+        return float
+
     return str
 
 
-- 
2.43.0


From 051c7341ba269ae20a470bd6b67609c02649daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 11/45] fix: devel_code sections and words are read whole and
 never overlap

---
 .../parsers/cell_param_file_parser.py         | 62 ++++++-------------
 castep_outputs/utilities/castep_res.py        |  5 +-
 2 files changed, 22 insertions(+), 45 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c6ffb76..c5aab63 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -342,57 +342,35 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
     main_block = " ".join(map(str.strip, in_block))
     main_block = re.sub(r"%endblock\s+devel_code", "", main_block, flags=re.IGNORECASE)
 
-    matches = re.finditer(REs.DEVEL_CODE_BLOCK_GENERIC_RE, main_block, re.IGNORECASE | re.MULTILINE)
     devel_code_parsed: DevelBlock = {}
-    par: re.Match[str] | str
 
     # Get groups
-    for blk in matches:
-        block_title = normalise_key(blk.group(1))
-        block_str = blk.group(0).split(":")[1]
-        block: DevelBlock = {}
-        for par in re.finditer(REs.DEVEL_CODE_VAL_RE, block_str, re.IGNORECASE | re.MULTILINE):
-            key, val = re.split(r"[:=]", par.group(0))
-            key = normalise_key(key)
-            typ = determine_type(val)
-            block[key] = to_type(val, typ)
-            block_str = block_str.replace(par.group(0), "")
-
-        if block_str.strip():
-            block["data"] = []
-            for par in block_str.split():
-                assert isinstance(block["data"], list)
-                block["data"].append(to_type(par, determine_type(par)))
-
-        if block_title in devel_code_parsed:
-            devel_code_parsed[block_title].update(block)
-        else:
-            devel_code_parsed[block_title] = block
+    for blk in re.finditer(REs.DEVEL_CODE_BLOCK_GENERIC_RE, main_block, re.IGNORECASE):
+        block = devel_code_parsed.setdefault(normalise_key(blk[1]), {})
 
-        # Remove matched to get remainder
-        main_block = main_block.replace(blk.group(0), "")
+        for par in re.split(r"[\s;]+", blk[2].strip(" \t;")):
+            if match := re.fullmatch(REs.DEVEL_CODE_VAL_RE, par):
+                block[normalise_key(match[1])] = to_type(match[2], determine_type(match[2]))
+            elif par:
+                block.setdefault("data", []).append(to_type(par, determine_type(par)))
 
-    # Catch remainder
-    for par in re.finditer(REs.DEVEL_CODE_VAL_RE, main_block):
-        key, val = re.split(r"[:=]", par.group(0))
-        key = normalise_key(key)
-        typ = determine_type(val)
+    # Catch remainder, values first so that words are told apart from them.
+    main_block = re.sub(REs.DEVEL_CODE_BLOCK_GENERIC_RE, " ", main_block, flags=re.IGNORECASE)
+    words = []
 
-        if key in devel_code_parsed:  # Var has same name as block
-            key = f"_{key}"
+    for par in re.split(r"[\s;]+", main_block):
+        if match := re.fullmatch(REs.DEVEL_CODE_VAL_RE, par):
+            key = normalise_key(match[1])
 
-        devel_code_parsed[key] = to_type(val, typ)
+            if key in devel_code_parsed:  # Var has same name as block
+                key = f"_{key}"
 
-    # Catch present components
-    present_code_re = re.compile(r"""
-        (?<![:=])        # Does not follow : or =
-        \b[A-Za-z_-]+\b  # One "word"
-        (?![:=])         # Not followed by : or =
-    """, re.VERBOSE)
-
-    for par in re.finditer(present_code_re, main_block):
-        key = normalise_key(par.group(0))
+            devel_code_parsed[key] = to_type(match[2], determine_type(match[2]))
+        elif re.fullmatch(r"[A-Za-z_][\w-]*", par):
+            words.append(normalise_key(par))
 
+    # Catch present components
+    for key in words:
         if key in devel_code_parsed:  # Var has same name as block
             key = f"_{key}"
 
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index ee5ed07..7d6233d 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -593,9 +593,8 @@ BANDS_FERMI_RE = re.compile(
 # BANDS_EIGENS_RE =
 # rf"K-point\s+(\d+)\s*(\s*{FNUMBER_RE})\s*({FNUMBER_RE})\s*({FNUMBER_RE})\s*({FNUMBER_RE})"
 
-DEVEL_CODE_VAL_RE = r"[A-Za-z0-9_]+[:=][^ \t\n;]+"
-DEVEL_CODE_BLOCK_RE = rf"([A-Za-z0-9_]+):(?:\s*{DEVEL_CODE_VAL_RE}\s*)*:end\1"
-DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
+DEVEL_CODE_VAL_RE = r"([A-Za-z0-9_]+)[:=]([^ \t\n;]+)"
+DEVEL_CODE_BLOCK_GENERIC_RE = r"\b([A-Za-z0-9_]+):(.*?):end\1\b"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-- 
2.43.0


From 70b06df59a4206d7503b35b469c3c5606bf15663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 12/45] fix: vectors mixing integers and reals, split by tabs
 or after a species are converted

---
 .../parsers/cell_param_file_parser.py         | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c5aab63..2e0a085 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -86,6 +86,33 @@ GeneralBlock: TypeAlias = dict[
 ]
 
 
+def _to_natural(val: str) -> MaybeSequence[str | float]:
+    """Convert a value to its natural type, several numbers becoming a vector.
+
+    Parameters
+    ----------
+    val
+        Value as written.
+
+    Returns
+    -------
+    :
+        Converted value.
+
+    Examples
+    --------
+    >>> _to_natural(" 3 ")
+    3
+    >>> _to_natural("1 2.5 3")
+    (1.0, 2.5, 3.0)
+    >>> _to_natural("Hello there")
+    'Hello there'
+    """
+    typ = determine_type(val)
+    words = val.split()
+    return to_type(words if len(words) > 1 and typ is not str else val.strip(), typ)
+
+
 def _get_block_units(block: Block, default: str) -> str:
     """Get units from a block.
 
@@ -151,7 +178,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
         elif match := REs.PARAM_VALUE_RE.match(line):
             if match["str"] is not None:
                 key, val = match.group("key", "str")
-                curr[key.strip().lower()] = to_type(val.strip(), determine_type(val))
+                curr[key.strip().lower()] = _to_natural(val)
 
                 logger("Found param %s", key)
                 continue
@@ -160,10 +187,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             key = key.strip().lower()
             logger("Found param %s", key)
 
-            if " " in val.strip():
-                val = to_type(val.split(), determine_type(val))
-            else:
-                val = to_type(val, determine_type(val))
+            val = _to_natural(val)
 
             if unit:
                 unit = unit.strip()
@@ -661,7 +685,7 @@ def _parse_general(block: Block) -> GeneralBlock:
                 block_data["data"] = cast("dict[str, MaybeSequence[float | str]]", {})
 
             spec, val = line.strip().split(maxsplit=1)
-            val = to_type(val, determine_type(val))
+            val = _to_natural(val)
 
             val = cast(MaybeSequence[float | str], val)
 
-- 
2.43.0


From 9a6af3bcceb2465c81d69c89c482880e54c96215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 13/45] fix: keyword values starting with a digit, sign or dot
 are kept

---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 7d6233d..98977e6 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -601,8 +601,8 @@ PARAM_VALUE_RE = re.compile(
 ^\s*(?P<key>[a-z_]+)
 \s*[ \t:=]\s*
     (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
-    # String starts with anything which is NOT digit,+,-,. or space.
-    (?P<str>[^-+\d\s.](?:\s*\S+)*))
+    # Anything else is a string, which does not start with a separator.
+    (?P<str>[^\s:=](?:\s*\S+)*))
     # If numeric value, chance of unit
     (?(val)(?P<unit>\s\S+)?)
 \s*$
-- 
2.43.0


From cf65d6f7c402757869a43418f6e2d73699609e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 14/45] fix: ionic constraints from the tenth on are read

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 98977e6..1e71f06 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -610,7 +610,7 @@ PARAM_VALUE_RE = re.compile(
     re.IGNORECASE | re.VERBOSE,
 )
 
-IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d\s+{ATOM_RE}{THREEVEC_RE}")
+IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
     rf"^\s*(?P<spec>{SPECIES_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
-- 
2.43.0


From 87fa6931a7bfb2b3404b9faa15f3799e37c78568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 15/45] fix: rows of tagged atoms and closely written mixtures
 are kept

---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 1e71f06..d3894ba 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -612,7 +612,7 @@ PARAM_VALUE_RE = re.compile(
 
 IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
-    rf"^\s*(?P<spec>{SPECIES_RE})"
+    rf"^\s*(?P<spec>{ATOM_NAME_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
 )
 POSITIONS_SPIN_RE = re.compile(
@@ -620,7 +620,7 @@ POSITIONS_SPIN_RE = re.compile(
     re.IGNORECASE,
 )
 POSITIONS_MIXTURE_RE = re.compile(
-    rf"mixture[= :\t]\(\s*{labelled_floats(('mix', 'ratio'))}\)",
+    rf"mixture\s*[= :\t]\s*\((?P<mix>\s*{INTNUMBER_RE})\s+(?P<ratio>{NUMBER_RE.pattern})\s*\)",
     re.IGNORECASE,
 )
 SPEC_PROP_RE = re.compile(rf"\s*{ATOM_NAME_RE}\s+(?P<val>.*)")
-- 
2.43.0


From 68c88c2b3b421ce931b740219459e69cd63f151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 16/45] fix: units of intermediate and product absolute
 positions are kept

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 2e0a085..6aae055 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -716,8 +716,8 @@ _PARSERS: dict[str, Callable] = {
     "positions_frac_intermediate": _parse_positions,
     "positions_frac_product": _parse_positions,
     "positions_abs": _parse_positions_abs,
-    "positions_abs_intermediate": _parse_positions,
-    "positions_abs_product": _parse_positions,
+    "positions_abs_intermediate": _parse_positions_abs,
+    "positions_abs_product": _parse_positions_abs,
     "positions_aspectral_intermediate": _parse_positions,
     "positions_aspectral_product": _parse_positions,
     "species_pot": _parse_species_pot,
-- 
2.43.0


From 9f172148d0b3742173d4ff883e76e5dd673165d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 17/45] fix: keywords holding digits and units after several
 blanks are read

---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index d3894ba..845ceaf 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -598,13 +598,13 @@ DEVEL_CODE_BLOCK_GENERIC_RE = r"\b([A-Za-z0-9_]+):(.*?):end\1\b"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-^\s*(?P<key>[a-z_]+)
+^\s*(?P<key>[a-z_]\w*)
 \s*[ \t:=]\s*
     (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
     # Anything else is a string, which does not start with a separator.
     (?P<str>[^\s:=](?:\s*\S+)*))
     # If numeric value, chance of unit
-    (?(val)(?P<unit>\s\S+)?)
+    (?(val)(?P<unit>\s+\S+)?)
 \s*$
 """,
     re.IGNORECASE | re.VERBOSE,
-- 
2.43.0


From 6c296987ee847e5ee5ed184f162d870206339a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 18/45] fix: a first sedc_custom_params row with one parameter
 is not a units line

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 6aae055..5b9bf93 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -552,7 +552,7 @@ def _parse_sedc(block: Block) -> dict[str, dict[str, float]]:
     accum = {}
 
     test = next(block)
-    if len(units := test.split()) == 2:
+    if len(units := test.split()) == 2 and ":" not in test:
         units = tuple(units)
     else:
         block.rewind()
-- 
2.43.0


From ceb07f17013888715ef94a20428a9954ca26d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 19/45] fix: pseudopotential strings with a local channel
 energy are decomposed

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 845ceaf..872bdd2 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -355,7 +355,7 @@ PSPOT_DEF_RE = re.compile(
 # PSPot String
 PSPOT_INFO_RE = re.compile(
     rf"""^
-    -?{labelled_floats(("local_energy",), suffix="=")}?
+    -?{labelled_floats(("local_energy",), sep="", suffix="=")}?
     -?(?P<local_channel>\d+)-?\|
     {labelled_floats(("core_radius",), sep="")}\|
     (?:{labelled_floats(("beta_radius",), sep="")}\|)?
-- 
2.43.0


From c6878f04323fe0e3a2cb5eb984813c22e65e6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 20/45] fix: projector energies keep their sign

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 872bdd2..29d9e42 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -322,7 +322,7 @@ PSPOT_PROJ_RE = re.compile(
     rf"""
     (?P<type>[{PROJ_TYPES}])
     (?P<beta_rc> {FP_NUM_RE})?
-    (?:(?:=[+-]?|[+-]) (?P<beta_e> {FP_NUM_RE}))?
+    (?:(?:=|(?=[+-])) (?P<beta_e> [+-]?{FP_NUM_RE}))?
     (?:@(?P<beta_delta>{FP_NUM_RE}))?
     """,
     re.VERBOSE,
-- 
2.43.0


From 928807171a5429e2562a4525e54a733cd3afdacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 21/45] fix: parsers given by name include the binary ones and
 unknown names are an error

---
 castep_outputs/cli/castep_outputs_main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 7f7417e..0965984 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -63,7 +63,10 @@ def parse_single(in_file: str | Path | TextIO,
         in_file = Path(in_file)
 
     if isinstance(parser, str):
-        parser = PARSERS.get(parser)
+        if parser not in ALL_PARSERS:
+            raise ValueError(f"Parser {parser} not found")
+
+        parser = ALL_PARSERS[parser]
 
     if parser is None and isinstance(in_file, Path):
         ext = in_file.suffix.strip(".")
-- 
2.43.0


From ce2188cedfe814bf105a50f98a16eb333ac4e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 22/45] fix: combined output is keyed by the path as a string

---
 castep_outputs/cli/castep_outputs_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 0965984..64efadf 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -128,7 +128,7 @@ def parse_all(
     for typ, paths in files.items():
         parser = ALL_PARSERS[typ]
         for path in paths:
-            data[path] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
+            data[str(path)] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
 
     if len(data) == 1:
         data = data.popitem()[1]
-- 
2.43.0


From b2864d0eaa2a53a696526e901913a8ffb65d016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 23/45] fix: numbered .err files are found for seednames in
 other directories

---
 castep_outputs/cli/args.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 232b4af..fabb969 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 import argparse
 from collections.abc import Sequence
+from glob import escape
 from pathlib import Path
 
 from castep_outputs import __version__
@@ -102,8 +103,9 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-            if args.inc_err and (err_files := seed.parent.glob(f"{seed}.*.err")):
-                args.err.extend(map(str, err_files))
+            if args.inc_err:
+                err_files = seed.parent.glob(f"{escape(seed.name)}.*.err")
+                args.err.extend(map(str, sorted(err_files)))
 
     return args
 
-- 
2.43.0


From 71b7091d00ab3449c5ad36b22a730a4da5b507b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 24/45] fix: seednames with a dot find their own files

---
 castep_outputs/cli/args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index fabb969..6ccb7f8 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -99,7 +99,7 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
             getattr(args, ext).append(str(seed))
         else:
             for typ in ALL_NAMES:
-                trial = seed.with_suffix(f".{typ}")
+                trial = seed.with_name(f"{seed.name}.{typ}")
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-- 
2.43.0


From 72c1b0f07cd7d4fe44d02e9910a101c835e9c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 25/45] fix: -f yaml is accepted and prefers PyYAML, as
 documented

---
 castep_outputs/cli/args.py          | 3 ++-
 castep_outputs/utilities/dumpers.py | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 6ccb7f8..8170d45 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -40,7 +40,8 @@ def get_parser() -> argparse.ArgumentParser:
                             default="WARNING")
     arg_parser.add_argument("-o", "--output", help="File to write output, default: screen",
                             default=None)
-    arg_parser.add_argument("-f", "--out-format", help="Output format", choices=SUPPORTED_FORMATS,
+    arg_parser.add_argument("-f", "--out-format", help="Output format",
+                            choices=(*SUPPORTED_FORMATS, "yaml"),
                             default="json")
 
     arg_parser.add_argument("-t", "--testing", action="store_true",
diff --git a/castep_outputs/utilities/dumpers.py b/castep_outputs/utilities/dumpers.py
index 614d2a5..3ccd5b5 100644
--- a/castep_outputs/utilities/dumpers.py
+++ b/castep_outputs/utilities/dumpers.py
@@ -9,14 +9,14 @@ from typing import Any, TextIO
 
 _YAML_TYPE = None
 
-with suppress(ImportError):
-    import yaml
-    _YAML_TYPE = "pyyaml"
-
 with suppress(ImportError):
     from ruamel import yaml as ruamel
     _YAML_TYPE = "ruamel"
 
+with suppress(ImportError):
+    import yaml
+    _YAML_TYPE = "pyyaml"
+
 
 #: Dumping function protocol.
 Dumper = Callable[[Any, TextIO], None]
-- 
2.43.0


From 263ded011cf200976402d165596d59768a110340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 26/45] fix: long numbers followed by words in a keyword value
 are read at once

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 29d9e42..843661e 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -600,7 +600,7 @@ PARAM_VALUE_RE = re.compile(
     rf"""
 ^\s*(?P<key>[a-z_]\w*)
 \s*[ \t:=]\s*
-    (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
+    (?:(?P<val>{NUMBER_RE.pattern}(?:\s+{NUMBER_RE.pattern})*)|
     # Anything else is a string, which does not start with a separator.
     (?P<str>[^\s:=](?:\s*\S+)*))
     # If numeric value, chance of unit
-- 
2.43.0


From 7c4d97e297c27e8ee74e01f654a0bb997386c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 27/45] fix: MD and geometry steps of a .castep file are read
 with the requested filters

---
 castep_outputs/parsers/castep_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 94b612d..24c6587 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1019,7 +1019,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = get_only(parse_castep_file(block, to_parse) or [{}])
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
                         replace=True)
@@ -1080,7 +1080,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             logger("Found geom block (iteration %d)", len(curr_run["geom_opt"]["iterations"]) + 1)
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = get_only(parse_castep_file(block, to_parse) or [{}])
 
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
-- 
2.43.0


From dc3b45f7aaff719270abf3efadb8f3b74c6e950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 28/45] fix: fixed-occupancy SCF tables lost their first row
 and took the gain as Fermi energy

---
 castep_outputs/utilities/castep_res.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 843661e..776762e 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -294,8 +294,9 @@ MIXTURE_LINE_2_RE = re.compile(rf"(?P<spec>{ATOM_NAME_RE})\s+{labelled_floats(('
 
 # SCF Loop
 SCF_LOOP_RE = re.compile(
-    r"\s*(?:Initial|\d+)\s*"
-    rf"{labelled_floats(('energy', 'fermi_energy', 'energy_gain'))}?\s*"
+    r"\s*(?:(Initial)|\d+)\s*"
+    rf"{labelled_floats(('energy', 'fermi_energy'))}?"  # No Fermi energy if fixed occupancy
+    rf"(?(1)|{labelled_floats(('energy_gain',))}?)\s*"
     f"{labelled_floats(('time',))}",
 )
 
-- 
2.43.0


From e3242fcb6c3be80018e7b069c4f796ddfd760f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 29/45] fix: a one-line warning swallowed the line after it

---
 castep_outputs/parsers/castep_file_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 24c6587..acca6fd 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -280,10 +280,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             warn = line.strip()
 
-            for tst, line in enumerate(castep_file):
+            for line in castep_file:
                 if not line.strip() or not re.match(match.group(1) + r"\s+", line):
-                    if tst:
-                        castep_file.rewind()
+                    castep_file.rewind()
                     break
                 warn += " " + line.strip()
 
-- 
2.43.0


From e29070eda7854285948151d10573c00c521e2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 30/45] fix: bonds with zero spin lost their spin

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index acca6fd..0bc949c 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2272,7 +2272,7 @@ def _process_bond_analysis(block: Block) -> BondData:
              if (match := REs.BOND_RE.match(line))}
 
     for val in accum.values():
-        if not val["spin"]:
+        if val["spin"] is None:
             del val["spin"]
 
     return accum
-- 
2.43.0


From 195b781d3decb620092aaaa5b75db8acad13e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 31/45] fix: k-points numbered above nine were not read

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 0bc949c..d6b260e 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2108,7 +2108,7 @@ def _process_kpoint_blocks(block: Block, *,
             elif "Number of kpoints" in line:
                 accum["num_kpoints"] = to_type(get_numbers(line)[0], int)
     else:
-        kp_block_re = re.compile(gen_table_re(r"\d\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
+        kp_block_re = re.compile(gen_table_re(r"\d+\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
                                               r"\+"))
         accum: KPointsList = {"points": [{"qpt": to_type(match.group("qx", "qy", "qx"), float),
                                           "weight": to_type(match["wt"], float)}
-- 
2.43.0


From ec0491e5ba8d2a1a3b2af948552f01572e1b831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 32/45] fix: d and f orbital populations were not read

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 776762e..553b257 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -433,7 +433,7 @@ PAIR_POT_RES = {
 
 # Orbital population
 ORBITAL_POPN_RE = re.compile(
-    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF][xyz]?)"
+    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF][xyz()+-]*)"
     rf"\s*{labelled_floats(('charge',))}",
 )
 
-- 
2.43.0


From 13fcab656ed551e4a62e6a358909d2c8c00c0306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 33/45] fix: symmetry-related atoms with a species tag could
 not be read

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index d6b260e..eeb3a47 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2176,7 +2176,7 @@ def _process_symmetry(block: Block) -> tuple[SymmetryReport, ConstraintsReport]:
             next(block)  # elif "symmetry related atoms:" in line:
 
             while line := next(block).strip():
-                key, val = line.split(":")
+                key, val = line.rsplit(":", 1)
                 curr_sym["symmetry_related"].extend((key, int(ind))
                                                     for ind in val.split())
 
-- 
2.43.0


From eed474621dcc2f8ab775476f835f56dbd87b29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 34/45] fix: finite-basis sections overwrote earlier data and
 depended on the SCF filter

---
 castep_outputs/parsers/castep_file_parser.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index eeb3a47..baa8f8a 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -475,10 +475,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             curr_run["occupancies"].append(_process_occupancies(block))
 
         # SCF Basis set
-        elif match := re.search(r" with +(\d) +cut-off energies.", line):
-
-            if Filters.SCF not in to_parse:
-                continue
+        elif match := re.search(r" with +(\d+) +cut-off energies.", line):
 
             ncut = int(match.group(1))
             line = ""
@@ -486,14 +483,19 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             block = Block.from_re(line, castep_file,
                                   "",
                                   "^-+ <-- SCF", n_end=ncut * 3)
-            data = get_only(parse_castep_file(block, Filters.HIGH | Filters.SCF))
+            data = get_only(parse_castep_file(block, to_parse) or [{}])
 
-            scf = data.pop("scf")
-            curr_run["bsc_energies"] = data.pop("energies")
+            if "energies" in data:
+                curr_run["bsc_energies"] = data.pop("energies")
 
-            curr_run["scf"], curr_run["bsc_scf"] = scf[-1], scf[:-1]
+            if scf := data.pop("scf", None):
+                curr_run["scf"], curr_run["bsc_scf"] = scf[-1], scf[:-1]
 
-            curr_run.update(data)
+            for key, val in data.items():
+                if key in curr_run and isinstance(val, list):
+                    curr_run[key].extend(val)
+                else:
+                    curr_run[key] = val
 
         # Energies
         elif line.startswith("Final energy"):
-- 
2.43.0


From 5b81aa8de82b4be1010ab12d1e9fa30de88af6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 35/45] fix: geometry-optimisation summaries respect the
 filters and need no iteration before them

---
 castep_outputs/parsers/castep_file_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index baa8f8a..2589281 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1052,6 +1052,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found final geom configuration")
 
+            curr_run.setdefault("geom_opt", defaultdict(list))
             curr_run["geom_opt"]["final_configuration"] = _process_final_config_block(block)
 
         elif block := Block.from_re(line, castep_file,
@@ -1104,6 +1105,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.search(rf"trial guess \(lambda=\s*({REs.EXPFNUMBER_RE})\)", line):
 
+            if Filters.GEOM_OPT not in to_parse:
+                continue
+
             curr_run.setdefault("geom_opt", defaultdict(list))
 
             curr_run["geom_opt"]["trial"].append(float(match.group(1)))
@@ -1113,13 +1117,14 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                                f"(?P<value>{REs.EXPFNUMBER_RE}).*",
                                line, re.IGNORECASE):
 
-            if Filters.GEOM_OPT not in to_parse:
+            if Filters.GEOM_OPT not in to_parse and Filters.FINAL_CONFIG not in to_parse:
                 continue
 
             key, val = normalise_string(match["key"]).lower(), to_type(match["value"], float)
             key = "_".join(key.split())
             logger("Found geomopt %s", key)
-            curr_run["geom_opt"]["final_configuration"][key] = val
+            curr_run.setdefault("geom_opt", defaultdict(list))
+            curr_run["geom_opt"].setdefault("final_configuration", {})[key] = val
 
         elif block := Block.from_re(line, castep_file,
                                     f"<--( min)? {REs.MINIMISERS_RE}$",
-- 
2.43.0


From ddfd55770c5c32d503bc12fd96a3b3053b7d83d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 36/45] fix: gains of fixed-occupancy SCF cycles were still
 stored as Fermi energies

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 553b257..3ea9f43 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -296,7 +296,7 @@ MIXTURE_LINE_2_RE = re.compile(rf"(?P<spec>{ATOM_NAME_RE})\s+{labelled_floats(('
 SCF_LOOP_RE = re.compile(
     r"\s*(?:(Initial)|\d+)\s*"
     rf"{labelled_floats(('energy', 'fermi_energy'))}?"  # No Fermi energy if fixed occupancy
-    rf"(?(1)|{labelled_floats(('energy_gain',))}?)\s*"
+    rf"(?(1)|{labelled_floats(('energy_gain',))})\s*"
     f"{labelled_floats(('time',))}",
 )
 
-- 
2.43.0


From 080451b8ca38f5bcd0525d8428271016f3c8ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 37/45] fix: pair parameters printed without a unit lost their
 last digit

---
 castep_outputs/utilities/castep_res.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 3ea9f43..c75e77b 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -406,8 +406,8 @@ PAIR_POT_RES = {
         rf"""
             (?P<tag>\w+)?\s*\*\s*
             (?P<label>\w+)\s*
-            {labelled_floats(("params",), counts=("1,4",))}\s*
-            [\w^/*]+\s* \* \s*
+            {labelled_floats(("params",), counts=("1,4",))}
+            (?:\s+[\w^/*]+)?\s* \* \s*
             <--\s*(?P<type>\w+)
             """,
         re.ASCII | re.VERBOSE,
@@ -423,8 +423,8 @@ PAIR_POT_RES = {
         rf"""
         ^(?P<tag>\w+)?\s*\*\s*
         (?P<label>\w+)\s*
-        {labelled_floats(("params",))}\s*
-        [\w^/*]+\s* \* \s*
+        {labelled_floats(("params",))}
+        (?:\s+[\w^/*]+)?\s* \* \s*
         <--\s*(?P<type>\w+)
         """,
         re.VERBOSE,
-- 
2.43.0


From ff4449919590bdad2816571882f2706842a994cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 38/45] fix: tagged three-body pair parameters could not be
 read

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 2589281..b4ff6a2 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2483,7 +2483,7 @@ def _process_pair_params(block_in: Block) -> dict[str, dict[str, dict | str]]:
                     labels = ((match["spec"],),)
 
         # Three-body
-        elif block := Block.from_re(line, block_in, "Three Body", r"^\s*\*+\s*$"):
+        elif block := Block.from_re(line, block_in, "Three Body", r"^\w*\s*\*+\s*$"):
             for blk_line in block:
                 if match := REs.PAIR_POT_RES["three_body_spec"].match(blk_line):
                     labels = (tuple(match["spec"].split()),)
-- 
2.43.0


From 9070702b78217e755a0266a1e9f653e6d7b2595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 39/45] fix: DFT-D parameters of tagged species were not read

---
 castep_outputs/parsers/castep_file_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index b4ff6a2..d5660b1 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2307,7 +2307,12 @@ def _process_dftd(block: Block) -> dict[str, Any]:
     val: Any
 
     for line in block:
-        if len(match := line.split(":")) == 2:
+        if match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
+                             labelled_floats(("C6", "R0")), line):
+            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
+                                              "r0": float(match["R0"])}
+
+        elif len(match := line.split(":")) == 2:
             key, val = match
             val = normalise_string(val)
             if "Parameter" in key:
@@ -2315,11 +2320,6 @@ def _process_dftd(block: Block) -> dict[str, Any]:
 
             dftd[normalise_key(key)] = val
 
-        elif match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
-                               labelled_floats(("C6", "R0")), line):
-            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
-                                              "r0": float(match["R0"])}
-
     return dftd
 
 
-- 
2.43.0


From d2b6e137d1605d3038379f189403fa4efa69d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 40/45] fix: a .cst_esp file cut short between records was
 returned as complete

---
 castep_outputs/bin_parsers/cst_esp_file_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/bin_parsers/cst_esp_file_parser.py b/castep_outputs/bin_parsers/cst_esp_file_parser.py
index 374ac38..1ad9e36 100644
--- a/castep_outputs/bin_parsers/cst_esp_file_parser.py
+++ b/castep_outputs/bin_parsers/cst_esp_file_parser.py
@@ -45,7 +45,8 @@ def parse_cst_esp_file(cst_esp_file: BinaryIO) -> ESPData:
     prev_nx = None
     curr = []
     accum["esp"] = []
-    for datum in reader:
+    n_cols = 0
+    for n_cols, datum in enumerate(reader, 1):
         nx, _ny = parse_bytes(datum[:8], (int, ...))
         if prev_nx != nx and curr:
             accum["esp"].append(curr)
@@ -55,6 +56,9 @@ def parse_cst_esp_file(cst_esp_file: BinaryIO) -> ESPData:
 
     accum["esp"].append(curr)
 
+    if not n_cols or n_cols % (accum["grid"][0] * accum["grid"][1]):
+        raise OSError(f"Unexpected end of file, {n_cols} columns do not fill the grid.")
+
     size = accum["grid"][0]
     if len(accum["esp"]) > size:  # Have MGGA pot
         accum["esp"], accum["mgga"] = accum["esp"][:size], accum["esp"][size:]
-- 
2.43.0


From 137a5af896bf43c259c1d2b793f0b546ccf86f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:29 +0000
Subject: [PATCH 41/45] fix: ions of labelled species were left out of .phonon,
 .phonon_dos, .efield and .elastic headers

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index c75e77b..1e48aed 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -571,7 +571,7 @@ MAGRES_TASK = (
 # Regexp to identify block in .phonon or .phonon_dos file
 FRACCOORDS_RE = re.compile(
     rf"\s*(?P<index>{INTNUMBER_RE}){labelled_floats(('u', 'v', 'w'))}"
-    rf"\s*(?P<spec>{SPECIES_RE}){labelled_floats(('mass',))}",
+    rf"\s*(?P<spec>{ATOM_NAME_RE}){labelled_floats(('mass',))}",
 )
 
 PHONON_PHONON_RE = re.compile(
-- 
2.43.0


From 7bb5b2b0cecada13041e1c72da313372ebb7e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:29 +0000
Subject: [PATCH 42/45] fix: a .phonon_dos file with a labelled species could
 not be read

---
 castep_outputs/parsers/phonon_dos_file_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/phonon_dos_file_parser.py b/castep_outputs/parsers/phonon_dos_file_parser.py
index e3ae6ca..32a0f22 100644
--- a/castep_outputs/parsers/phonon_dos_file_parser.py
+++ b/castep_outputs/parsers/phonon_dos_file_parser.py
@@ -123,13 +123,15 @@ def parse_phonon_dos_file(phonon_dos_file: TextIO) -> PhononDosFileInfo:
             # First chunk is " BEGIN DOS   Freq (cm-1)  g(f)", thus need the 5th on
             species = block[0].split()[5:]
             headers = ("freq", "g", *species)
-            rows = re.compile(labelled_floats(headers))
+            # Species may have labels which are not valid group names
+            cols = [f"col_{ind}" for ind, _ in enumerate(headers)]
+            rows = re.compile(labelled_floats(cols))
 
             block.remove_bounds(1, 2)
 
             for line in block:
                 match = rows.match(line)
-                stack_dict(dos, match.groupdict())
+                stack_dict(dos, dict(zip(headers, match.group(*cols), strict=True)))
 
             if dos:
                 fix_data_types(dos, dict.fromkeys(headers, float))
-- 
2.43.0


From 4bf9d441860808ced141ea3c8b1c8da74fcc6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 43/45] fix: pair potential files predicted for cells with
 absolute positions

---
 castep_outputs/tools/get_generated_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 45e62cd..ce99d93 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -441,7 +441,8 @@ def _get_generated_files(
     if devel_code.get("_pp") and (pp := devel_code.get("pp")):
         if pp.get("pot_print"):
             if cell_data:
-                spec = {spec: None for spec, _ind in cell_data.get("positions_frac", {})}
+                positions = cell_data.get("positions_frac") or cell_data.get("positions_abs", {})
+                spec = {spec: None for spec, _ind in positions}
                 out_files |= {
                     f"{seedname}_{a}_{b}.pot" for a, b in combinations_with_replacement(spec, 2)
                 }
-- 
2.43.0


From 25a28c5601c6565230540f21357d3227f2fed03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 44/45] fix: keep the dots of a seedname when predicting files

---
 castep_outputs/tools/get_generated_files.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index ce99d93..823cf37 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -288,17 +288,21 @@ def get_generated_files(
     May struggle to get exact information from complex xc_definitions.
     """
     seedname = Path(seedname)
+    if seedname.suffix in {".param", ".cell"}:
+        seedname = seedname.with_suffix("")
+
+    # Other dots are part of the seedname.
     if param_file is None:
-        param_file = seedname.with_suffix(".param")
+        param_file = seedname.with_name(f"{seedname.name}.param")
     if cell_file is None:
-        cell_file = seedname.with_suffix(".cell")
+        cell_file = seedname.with_name(f"{seedname.name}.cell")
 
     if param_data is None:
         param_data = parse_cell_param_file(param_file)[0] if param_file.exists() else {}
     if cell_data is None:
         cell_data = parse_cell_param_file(cell_file)[0] if cell_file.exists() else {}
 
-    return _get_generated_files(param_data, cell_data, seedname.with_suffix(""))
+    return _get_generated_files(param_data, cell_data, seedname)
 
 
 def _get_generated_files(
@@ -309,7 +313,7 @@ def _get_generated_files(
     if cell_data is None:
         cell_data = {}
 
-    seedname = Path(src).stem
+    seedname = Path(src).name
     param_data = deepcopy(param_data)
     devel_code = param_data.get("devel_code", {})
     raw_task = param_data.get("task", "SINGLEPOINT").upper()
-- 
2.43.0


From 3b66b9f0b26cf000f111e04d48ebfb6629b1211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 45/45] fix: log messages of files with a percent sign in their
 name

---
 castep_outputs/utilities/utility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 7e920d8..2043251 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -409,7 +409,7 @@ def log_factory(file: TextIO | fileinput.FileInput | FileWrapper) -> Logger:
     if hasattr(file, "name"):
 
         def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-            getattr(logging, level)(f"[{file.name}] {message}", *args)
+            getattr(logging, level)(f"[%s] {message}", file.name, *args)
     else:
 
         def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
@@ -421,7 +421,7 @@ def log_factory(file: TextIO | fileinput.FileInput | FileWrapper) -> Logger:
 @log_factory.register
 def _(file: fileinput.FileInput) -> Logger:
     def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-        getattr(logging, level)(f"[{file.filename()}:{file.lineno()}] {message}", *args)
+        getattr(logging, level)(f"[%s:%s] {message}", file.filename(), file.lineno(), *args)
 
     return log_file
 
@@ -429,7 +429,7 @@ def _(file: fileinput.FileInput) -> Logger:
 @log_factory.register
 def _(file: FileWrapper) -> Logger:
     def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-        getattr(logging, level)(f"[{file.name}:{file.lineno}] {message}", *args)
+        getattr(logging, level)(f"[%s:%s] {message}", file.name, file.lineno, *args)
 
     return log_file
 
@@ -437,7 +437,7 @@ def _(file: FileWrapper) -> Logger:
 @log_factory.register
 def _(file: Block) -> Logger:
     def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-        getattr(logging, level)(f"[{file.name}:{file.lineno}] {message}", *args)
+        getattr(logging, level)(f"[%s:%s] {message}", file.name, file.lineno, *args)
 
     return log_file
 
-- 
2.43.0

