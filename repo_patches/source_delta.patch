From a0c5a9822f4ffefcd0d208488f35632f8a7eaf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:16 +0000
Subject: [PATCH 01/28] fix: drop the parsed data of the old file(s) when
 inifilepath is reassigned

Only the raw ConfigParser data was dropped, so configparserenhanceddata kept
answering from the previous file. A list with an invalid entry now leaves the
previous file list in place.
---
 .../ConfigParserEnhanced.py                    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 3570f11..ae1e2fb 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -198,27 +198,27 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
     def inifilepath(self, value) -> list:
         self._validate_parameter(value, (str, list, Path))
 
-        # If we have already loaded a .ini file, we should reset the data
-        # structure. Delete any lazy-created properties, etc.
-        if hasattr(self, '_inifilepath'):
-            if hasattr(self, '_configparserdata'):
-                delattr(self, '_configparserdata')
-            self._reset_lazy_attr("_loginfo")
-
         # Internally we represent the inifile as a `list of Path` objects.
         # Do the necessary conversions to make that so.
         if not isinstance(value, list):
             value = [value]
 
-        self._inifilepath = []
+        inifilepath = []
 
         for entry in value:
             try:
-                self._inifilepath.append(Path(entry))
+                inifilepath.append(Path(entry))
             except TypeError as ex:
                 self.debug_message(0, "ERROR: invalid entry in `inifilepath` list.")
                 raise ex
 
+        # If we have already loaded a .ini file, we should reset the data
+        # structure. Delete any lazy-created properties, etc.
+        if hasattr(self, '_inifilepath'):
+            self._reset_configparserdata()
+
+        self._inifilepath = inifilepath
+
         return self._inifilepath
 
     @property
-- 
2.43.0


From 51d0130f09565640c651d4bacf5b0a6f0d726553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:16 +0000
Subject: [PATCH 02/28] fix: do not keep a partially loaded configuration after
 a failed load

After a missing file, a duplicate section or any other load error the next
access silently returned the empty or partial ConfigParser object.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index ae1e2fb..0026eda 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -245,14 +245,14 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
               reference and user-guide.
         """
         if not hasattr(self, '_configparserdata'):
-            self._configparserdata = configparser.ConfigParser(
+            configparserdata = configparser.ConfigParser(
                 allow_no_value=True,
                 delimiters=self.configparser_delimiters,
                 default_section=self._internal_default_section_name
             )
 
             # Prevent ConfigParser from lowercasing the keys.
-            self._configparserdata.optionxform = str
+            configparserdata.optionxform = str
 
             # configparser.ConfigParser.read() will not fail if it doesn't read the
             # .ini file(s) in the list, it'll just happily continue on and return
@@ -281,14 +281,16 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                     raise IOError(msg)
 
             try:
-                self._configparserdata.read(self.inifilepath, encoding='utf-8')
+                configparserdata.read(self.inifilepath, encoding='utf-8')
             except configparser.DuplicateOptionError as ex:
-                delattr(self, '_configparserdata')
                 message = "ERROR: Configparser found a section with "
                 message += "two options with identical keys."
                 self.debug_message(0, message)
                 raise ex
 
+            # Only keep the data once all the files were loaded successfully.
+            self._configparserdata = configparserdata
+
         return self._configparserdata
 
     @property
-- 
2.43.0


From 87473d8cae0d0c33fe6aab9db4e0cfabacededd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:16 +0000
Subject: [PATCH 03/28] fix: forget a section whose parse failed

The section stayed marked as parsed, so the next access returned the options
collected up to the failure (or 'no such option') instead of the error.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 0026eda..dc60916 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -677,7 +677,13 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             raise ValueError("`section` cannot be empty.")
 
         # Parse the requested section.
-        result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        try:
+            result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        except BaseException:
+            # A parse that failed must not pass for a completed one later.
+            self.configparserenhanceddata._sections_checked.discard(section)
+            self.configparserenhanceddata.data.pop(section, None)
+            raise
 
         # caches the "data_shared" component of handler_parameters
         self.parse_section_last_result = result
@@ -1812,7 +1818,6 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
 
                 if do_parse_section:
                     self._set_owner_options()
-                    self._sections_checked.add(section)
                     self._owner.parse_section(section)
 
             return
-- 
2.43.0


From 6ec0223ed239f541ace4d4bdfa3ec11a12f18291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:16 +0000
Subject: [PATCH 04/28] fix: endless recursion when the default section uses
 the section being parsed

The nested visit of the root section started the initialization (and with it
the default section) again.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index dc60916..aa212d8 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -1312,7 +1312,7 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         op2 = handler_parameters.params[0]
 
         if op2 not in handler_parameters.data_internal['processed_sections']:
-            self._parse_section_r(op2, handler_parameters, finalize=False)
+            self._parse_section_r(op2, handler_parameters, initialize=False, finalize=False)
         else:
             self._loginfo_add('cycle-detected', {'sec-src': section_name, 'sec-dst': op1}) # Logging
             self._loginfo_add('handler-exit', {'name': handler_name, 'entry': entry})      # Logging
-- 
2.43.0


From bba195a4351df92f9d1c4e5e3c4ce440a7faf732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:16 +0000
Subject: [PATCH 05/28] fix: handle the options of the default section once
 when it is parsed itself

---
 src/configparserenhanced/ConfigParserEnhanced.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index aa212d8..c05260a 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -927,7 +927,9 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             handler_initialize_params.handler_name = "handler_initialize"
             self.handler_initialize(section_name, handler_initialize_params)
 
-            if self.configparserdata.has_section(self.default_section_name):
+            if section_name != self.default_section_name and self.configparserdata.has_section(
+                self.default_section_name
+            ):
                 self._parse_section_r(
                     self.default_section_name,
                     handler_parameters=handler_parameters,
-- 
2.43.0


From 3291a3f12f27f348b393aa3c9a4dec3b912a2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:42 +0000
Subject: [PATCH 06/28] fix: restore exception_control_level when unroll_to_str
 raises

---
 .../ConfigParserEnhanced.py                   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index c05260a..7f5392c 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -622,17 +622,18 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         ecl = parser.exception_control_level
         parser.exception_control_level = 0
 
-        section_list = parser.configparserenhanceddata.sections()
+        try:
+            section_list = parser.configparserenhanceddata.sections()
 
-        if section is None:
-            for section in section_list:
+            if section is None:
+                for section in section_list:
+                    output_str += __generate_section(section, parser, delimiter)
+                    output_str += "\n"
+            else:
                 output_str += __generate_section(section, parser, delimiter)
-                output_str += "\n"
-        else:
-            output_str += __generate_section(section, parser, delimiter)
-
-        # reset parser ECL (only useful when not using base class parser)
-        parser.exception_control_level = ecl
+        finally:
+            # reset parser ECL (only useful when not using base class parser)
+            parser.exception_control_level = ecl
 
         output_str = output_str.strip()
         output_str += "\n"
-- 
2.43.0


From 5e84dd77015822d9ef892846cf04455fc98333fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:42 +0000
Subject: [PATCH 07/28] fix: write multi-line and percent values readably in
 unroll_to_str

Continuation lines lost their indentation and became options of their own, and
a literal percent sign was written without the escape interpolation requires.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 7f5392c..53b228f 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -599,6 +599,7 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                 for key, value in parser.configparserenhanceddata.items(section):
                     if value is None:
                         value = ""
+                    value = value.replace("%", "%%").replace("\n", "\n\t")
                     output += delimiter.join([key, value]).strip() + "\n"
             else:
                 raise KeyError(f"Section `{section}` was not found.")
-- 
2.43.0


From 6fb133fbf1fe4db4f50ea4a5257d85c8626f0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:42 +0000
Subject: [PATCH 08/28] fix: unroll_to_str honours the delimiters and default
 section of the object

The file was re-read with the standard delimiters and default section name, so
the output did not describe the configuration the object presents.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 53b228f..d334fcb 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -610,12 +610,16 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         output_str = ""
 
         delimiter = ":"
+        if delimiter not in self.configparser_delimiters:
+            delimiter = self.configparser_delimiters[0]
         if space_around_delimiters:
             delimiter = " {} ".format(delimiter)
 
         parser = None
         if use_base_class_parser:
             parser = ConfigParserEnhanced(filename=self.inifilepath)
+            parser.configparser_delimiters = self.configparser_delimiters
+            parser.default_section_name = self.default_section_name
         else:
             parser = self
 
-- 
2.43.0


From 9f2e67dc7517cc460fac26d985c8e1a2642bfa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:36 +0000
Subject: [PATCH 09/28] fix: keep white space protected by quotes in
 unroll_to_str

A value such as " a " keeps its blanks when loaded; written without the
quotes it lost them when the output was read back.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index d334fcb..ae8ad24 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -600,6 +600,8 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                     if value is None:
                         value = ""
                     value = value.replace("%", "%%").replace("\n", "\n\t")
+                    if value != value.strip():
+                        value = f'"{value}"'
                     output += delimiter.join([key, value]).strip() + "\n"
             else:
                 raise KeyError(f"Section `{section}` was not found.")
-- 
2.43.0


From de9b32684381036b56395107c1a2f5f19f0f182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 10/28] fix: do not split keyword values at a caret

The second ^ of the character class was taken literally.
---
 wip/keywordparser/keywordparser/KeywordParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 58fc07e..ee42505 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -43,7 +43,7 @@ class KeywordParser(FormattedMsg):
                       else "")
 
         uncommented_values_list = re.findall(
-            r"(?:\s*?#.*\n*)*([^#^\n]*)", values_str
+            r"(?:\s*?#.*\n*)*([^#\n]*)", values_str
         )
         # Regex Explanation
         # =================
-- 
2.43.0


From 337ee7fe041ed75b76821fc4f76b7d9ad6b1049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 11/28] fix: refuse keyword values with any white space, not
 only blanks

---
 wip/keywordparser/keywordparser/KeywordParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index ee42505..87b7289 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -127,7 +127,7 @@ class KeywordParser(FormattedMsg):
             SystemExit:  If any value contains whitespace.
         """
         values_w_whitespace_or_delim = [_ for _ in values_list
-                                        if " " in _ or "_" in _]
+                                        if re.search(r"\s|_", _)]
         values_w_whitespace_or_delim = [_ for _ in values_w_whitespace_or_delim
                                         if _ not in ["SELECT_ONE", "SELECT_MANY"]]
         try:
-- 
2.43.0


From ad39439f0a870aec1bd9325286cb802cec1e8868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 12/28] fix: accept hostname patterns that contain a caret

A pattern such as ^host.* was cut to the empty pattern, which matches every host.
---
 wip/determinesystem/determinesystem/DetermineSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 0761f17..0658a33 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -115,7 +115,7 @@ class DetermineSystem(FormattedMsg):
             #   Match anything that's not      |
             #        a '#' or whitespace.      |
             #                      vvvvv    vvvvvvvv
-            keys = [re.findall(r"([^#^\s]*)(?:\s*#.*)?", key)[0]
+            keys = [re.findall(r"([^#\s]*)(?:\s*#.*)?", key)[0]
                     for key in self.supported_systems_data[sys_name].keys()]
 
             # Keys are treated as REGEXes.
-- 
2.43.0


From 5e066739b1ed271115b62d170578ffbe08005600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 13/28] fix: match environment names and aliases literally in
 the build name

They were used as regular expressions, so the dots of a version number matched
any character.
---
 wip/loadenv/loadenv/EnvKeywordParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/loadenv/loadenv/EnvKeywordParser.py b/wip/loadenv/loadenv/EnvKeywordParser.py
index a440af6..1e52350 100644
--- a/wip/loadenv/loadenv/EnvKeywordParser.py
+++ b/wip/loadenv/loadenv/EnvKeywordParser.py
@@ -90,7 +90,7 @@ class EnvKeywordParser(KeywordParser):
             for name in self.env_names:
                 env_name_in_build_name = (
                     False
-                    if re.search(f"(?:^|{self.delim}){name}(?:$|{self.delim})", self.build_name) is
+                    if re.search(f"(?:^|{self.delim}){re.escape(name)}(?:$|{self.delim})", self.build_name) is
                     None else True
                     )
 
@@ -104,7 +104,7 @@ class EnvKeywordParser(KeywordParser):
                 for alias in self.aliases:
                     alias_in_build_name = (
                         False if
-                        re.search(f"(?:^|{self.delim}){alias}(?:$|{self.delim})",
+                        re.search(f"(?:^|{self.delim}){re.escape(alias)}(?:$|{self.delim})",
                                   self.build_name) is None else True
                         )
 
-- 
2.43.0


From 1eaf31731a933d94a1037292880005de5ded537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:40 +0000
Subject: [PATCH 14/28] fix: do not remember the system name of a refused
 determination

system_name returned the refused name when it was read again after the exit.
---
 .../determinesystem/DetermineSystem.py         | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 0658a33..a392232 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -52,9 +52,9 @@ class DetermineSystem(FormattedMsg):
         if not hasattr(self, "_system_name"):
             hostname = socket.gethostname()
             sys_name_from_hostname = self.get_sys_name_from_hostname(hostname)
-            self._system_name = sys_name_from_hostname
-            if self._system_name is not None and not self.silent:
-                print(f"Using system '{self._system_name}' based on matching "
+            system_name = sys_name_from_hostname
+            if system_name is not None and not self.silent:
+                print(f"Using system '{system_name}' based on matching "
                       f"hostname '{hostname}'.")
             sys_name_from_build_name = self.get_sys_name_from_build_name()
             if (sys_name_from_hostname is None and
@@ -74,26 +74,28 @@ class DetermineSystem(FormattedMsg):
             # Use the system name in build_name if sys_name_from_hostname is
             # None.
             if sys_name_from_build_name is not None:
-                self._system_name = sys_name_from_build_name
+                system_name = sys_name_from_build_name
                 if not self.silent:
                     print(("Setting"
                            if sys_name_from_hostname is None
                            else "Overriding") +
-                          f" system to '{self._system_name}' based on "
+                          f" system to '{system_name}' based on "
                           f"specification in build name '{self.build_name}'.")
-                if (sys_name_from_hostname != self._system_name
+                if (sys_name_from_hostname != system_name
                     and self.force_build_name is False):
                     msg = self.get_formatted_msg(textwrap.fill(
                         f"Hostname '{hostname}' matched to system "
                         f"'{sys_name_from_hostname}' in "
                         f"'{self.supported_systems_file}', but you "
-                        f"specified '{self._system_name}' in the build name.  "
+                        f"specified '{system_name}' in the build name.  "
                         "If you want to force the use of "
-                        f"'{self._system_name}', add the --force flag.",
+                        f"'{system_name}', add the --force flag.",
                         width=68
                     ))
                     sys.exit(msg)
 
+            self._system_name = system_name
+
     def get_sys_name_from_hostname(self, hostname):
         """
         Helper function to match the given hostname to a system name, as
-- 
2.43.0


From f23fd4897ccec2263d8a864e2bcc0b9199d34040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:06 +0000
Subject: [PATCH 15/28] fix: quote values in generated Python commands so that
 they arrive as written

---
 .../src/setenvironment/SetEnvironment.py              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 03c7661..b9a9908 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1480,7 +1480,7 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_python_str(x) for x in arglist]
             output = "envvar_op({})".format(",".join(arglist))
         elif interp == "bash":
             # Surround each ini command argument in double quotes, except for the first ini command argument
@@ -1593,7 +1593,7 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_python_str(x) for x in arglist]
             output = "ModuleHelper.module({})".format(",".join(arglist))
         elif interp == "bash":
             output = "module {}".format(" ".join(arglist))
@@ -1827,6 +1827,13 @@ class SetEnvironment(ConfigParserEnhanced):
             )
         return output
 
+    def _quote_python_str(self, text) -> str:
+        """Quote a string for use in generated Python code."""
+        self._validate_parameter(text, (str))
+        text = text.replace("\\", "\\\\").replace('"', '\\"')
+        text = text.replace("\n", "\\n").replace("\r", "\\r")
+        return '"' + text + '"'
+
     def _remove_prefix(self, text, prefix) -> str:
         """Remove a prefix string from another string
 
-- 
2.43.0


From 45e3c3ccd8cbeed5f39b3e5365e0b1168becb5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:09 +0000
Subject: [PATCH 16/28] fix: forget the actions of the old file(s) when
 inifilepath is reassigned

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index b9a9908..7877df9 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1102,6 +1102,11 @@ class SetEnvironment(ConfigParserEnhanced):
     #  H E L P E R S
     # ---------------
 
+    def _reset_configparserdata(self) -> int:
+        """Reset the ConfigParser data and the actions that came from it."""
+        self._reset_lazy_attr("_var_actions_cache")
+        return super()._reset_configparserdata()
+
     def _apply_envvar(self, operation, envvar_name, envvar_value) -> int:
         """Apply an ENVVAR operation
 
-- 
2.43.0


From 7edaed5f16964e25b35dd5262dac849894917e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:59 +0000
Subject: [PATCH 17/28] fix: report a missing LMOD_CMD as FileNotFoundError
 instead of failing on None

---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index 18cbf6d..d5f81f1 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -83,7 +83,7 @@ try:          # pragma: cover if on lmod
         # they are both "patched" for unit testing.... I am settling for os.getenv
         # of LMOD_CMD, which is not a bash function, for now. Note that declare -F
         # is the more robust approach.
-        lmod_cmd_env = os.getenv("LMOD_CMD")
+        lmod_cmd_env = os.getenv("LMOD_CMD", "")
         if len(lmod_cmd_env) == 0:
             raise FileNotFoundError("Unable to find module function")
 
-- 
2.43.0


From 3343c267129fed8e48eac269291ed33b774323fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 18/28] fix: detect modules that are still loaded after an Lmod
 unload

---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index d5f81f1..0334d67 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -135,7 +135,7 @@ try:          # pragma: cover if on lmod
         _arguments = _command[1 :] + list(arguments)
         shell_cmds = []
         is_loaded = "module is-loaded {0} && true  || false"
-        is_unloaded = "module is-loaded {0} && false || true"
+        is_unloaded = "! module is-loaded {0}"
         is_file = "[ -e {0} ] && true || false"
         # TODO: handle other commands: purge, etc.
         if _command[0] == 'load':
@@ -143,7 +143,7 @@ try:          # pragma: cover if on lmod
         elif _command[0] == 'unload':
             shell_cmds += [is_unloaded.format(_arguments[0])]
         elif _command[0] == 'swap':
-            shell_cmds += [is_unloaded.format(_arguments[0])]
+            # The first module may still be loaded, as another version (`swap gcc gcc/7.3.0`)
             shell_cmds += [is_loaded.format(_arguments[1])]
         elif _command[0] == 'use':
             shell_cmds += [is_file.format(_arguments[0])]
-- 
2.43.0


From a28b00fc4415878213efb0a08f7e1daf3f33d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:38 +0000
Subject: [PATCH 19/28] fix: validate environment-specs.ini again after a
 failed validation

---
 wip/loadenv/load_env.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 75ce893..2ab283c 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -213,15 +213,19 @@ class LoadEnv(FormattedMsg):
         ``environment-specs.ini``.  Save the resulting object as
         :attr:`set_environment`.
         """
-        if self.set_environment is None:
-            self.set_environment = SetEnvironment(filename=self.args.environment_specs_file)
+        set_environment = self.set_environment
+        if set_environment is None:
+            set_environment = SetEnvironment(filename=self.args.environment_specs_file)
 
         # Make sure all operations specified in environment-specs.ini are valid
         # Note: If `set_environment.exception_control_level` is
         #       2 or less then `ValueError` will not be raised but
         #       rather `set_environment` will return a nonzero value.
-        self.set_environment.exception_control_level = 5
-        self.set_environment.assert_file_all_sections_handled()
+        set_environment.exception_control_level = 5
+        set_environment.assert_file_all_sections_handled()
+
+        # Keep it only if it is valid, otherwise the next call would skip the check
+        self.set_environment = set_environment
 
 
     def apply_env(self):
-- 
2.43.0


From 1466402c0bac3a12f2ae13b5ee593cc368183532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:34 +0000
Subject: [PATCH 20/28] fix: restore build name and force flag when the
 validation of config-specs.ini fails

---
 wip/genconfig/gen_config.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index fb47417..bdbab42 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -180,6 +180,15 @@ class GenConfig(FormattedMsg):
         if self.load_env is None:
             self.load_load_env()
 
+        try:
+            self.assert_config_specs_sections_are_valid()
+        finally:
+            self.load_env.build_name = self.args.build_name
+            self.load_env.args.force = self.args.force
+            self.config_keyword_parser.build_name = self.args.build_name
+        self.has_been_validated = True
+
+    def assert_config_specs_sections_are_valid(self):
         ckp = self.config_keyword_parser
         le = self.load_env
         le.args.force = True
@@ -230,11 +239,6 @@ class GenConfig(FormattedMsg):
                                  f"'{self.args.config_specs_file.name}'.")
             ))
 
-        self.load_env.build_name = self.args.build_name
-        self.load_env.args.force = self.args.force
-        self.config_keyword_parser.build_name = self.args.build_name
-        self.has_been_validated = True
-
     def load_config_keyword_parser(self):
         """
         Instantiate an :class:`ConfigKeywordParser` object with this object's
-- 
2.43.0


From 095ec463984ba791f6951d049efc8892d744a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:40 +0000
Subject: [PATCH 21/28] fix: ask again after an empty reply to the overwrite
 prompt

---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index bdbab42..79b23d0 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -89,7 +89,7 @@ class GenConfig(FormattedMsg):
                         f"({self.args.cmake_fragment}).\n"
                         "* Would you like to overwrite this file? [y/n] "
                     )
-                    while response.lower()[0] not in ["y", "n"]:
+                    while response.lower()[:1] not in ["y", "n"]:
                         response = input(
                             "  * Input not recognized. Please enter [y/n]: "
                         )
-- 
2.43.0


From 976ee82a294fa9c6ff13fbfa5da7e9af2d238d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:36 +0000
Subject: [PATCH 22/28] fix: look up options of sections that were added by
 hand without parsing them

---
 src/configparserenhanced/ConfigParserEnhanced.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index ae8ad24..029f62f 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -1826,6 +1826,11 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                 do_parse_section = section not in self._sections_checked
                 do_parse_section = do_parse_section or force_parse
 
+                # A section that was added by hand and isn't in the file can't be parsed.
+                if self.has_section_no_parse(section):
+                    if not self._owner.configparserdata.has_section(section):
+                        do_parse_section = False
+
                 if do_parse_section:
                     self._set_owner_options()
                     self._owner.parse_section(section)
-- 
2.43.0


From 096e461d2dbbfcd6db1f8d6b785e1714b12b64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:36 +0000
Subject: [PATCH 23/28] fix: keep a forced new section empty instead of parsing
 it on the next access

---
 src/configparserenhanced/ConfigParserEnhanced.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 029f62f..839466d 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -1750,6 +1750,9 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             """
             if (force) or (not self.has_section_no_parse(section)):
                 self.data[section] = {}
+            if force:
+                # Don't let a later (lazy) parse bring back the replaced options.
+                self._sections_checked.add(section)
             return self.data[section]
 
         def set(self, section, option, value):
-- 
2.43.0


From ddb3864bc600b7f06f903833865aa542bf8a3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:11 +0000
Subject: [PATCH 24/28] fix: let module-remove drop the operations on the named
 module and no others

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 7877df9..062f372 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1000,8 +1000,11 @@ class SetEnvironment(ConfigParserEnhanced):
 
             if 'module' in idata.keys():
                 # Note: idata['value'] can be None in some cases
-                if (idata['module'] !=
-                    module_name) and ((idata['value'] == None) or (module_name not in idata['value'])):
+                value = idata['value']
+                is_swap_to = idata['op'] == 'module_swap' and value is not None and (
+                    value == module_name or value.startswith(module_name + "/")
+                )
+                if idata['module'] != module_name and not is_swap_to:
                     new_data_shared.append(idata)
                 else:
                     self.debug_message(1, "Removed entry:{}".format(idata)) # Console
-- 
2.43.0


From 6869dc08e5cbebf2a4a8d1747255eadd6aec156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:53 +0000
Subject: [PATCH 25/28] fix: report a negative status of a module command as
 the result of apply

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 062f372..f8fdbb4 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -337,7 +337,7 @@ class SetEnvironment(ConfigParserEnhanced):
             if 'module' in iaction.keys():
                 rval = self._apply_module(op, module_name=iaction['module'], module_value=value)
 
-            output = max(output, rval)
+            output = max(output, rval, key=abs)
 
         return output
 
-- 
2.43.0


From 44d99ae37c5966f61576318ab787991a5ae5f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 26/28] fix: GenConfig accepts a gen-config.ini given relative
 to the current directory

Relative paths in gen-config.ini were joined with the directory of the file
at every access of the configuration data; when that directory was itself
relative (conf/gen-config.ini) the result was relative again and got prefixed
a second time (conf/conf/flags.ini), so that existing files were refused.
---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 79b23d0..0a40ae4 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -333,7 +333,7 @@ class GenConfig(FormattedMsg):
             else:
                 if not Path(value).is_absolute():
                     self._gen_config_config_data[section][key] = str(
-                        self.gen_config_ini_file.parent / value
+                        (self.gen_config_ini_file.parent / value).absolute()
                     )
 
             if not Path(self._gen_config_config_data[section][key]).exists():
-- 
2.43.0


From dfce2d9f933023ea14971f098f7c58a5a36473a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:00 +0000
Subject: [PATCH 27/28] fix: strip the system name from the build name whatever
 its case

---
 wip/loadenv/load_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 2ab283c..111722a 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -312,7 +312,9 @@ class LoadEnv(FormattedMsg):
             self.args.supported_systems_file,
             force_build_name=self.args.force
             )
-        l = [_ for _ in l if _ not in ds.supported_sys_names]
+        sys_names = ds.supported_sys_names
+        # System names are matched case-insensitively by DetermineSystem.
+        l = [_ for _ in l if _ not in sys_names and _.lower() not in sys_names]
 
         self._env_stripped_build_name = delim.join(l)
         return self._env_stripped_build_name
-- 
2.43.0


From 16e8538b42c080dddad38c7c5c0b22ea51ee82eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 28/28] fix: keep the previous script when no environment can
 be written

---
 wip/loadenv/load_env.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 111722a..e0bc1c9 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -268,6 +268,9 @@ class LoadEnv(FormattedMsg):
         if self.args.output:
             files += [self.args.output]
 
+        # Raises if there is no such environment, before any file is removed.
+        self.set_environment.generate_actions_script(self.parsed_env_name)
+
         for f in files:
             if f.exists():
                 f.unlink()
-- 
2.43.0

