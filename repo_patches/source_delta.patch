From 664504e34e6f432c75e72f279c713ceeb78c2a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:58 +0000
Subject: [PATCH 01/24] fix: do not keep an empty or partial configuration
 after a failed load

---
 src/configparserenhanced/ConfigParserEnhanced.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 3570f11..6f52c1d 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -245,14 +245,14 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
               reference and user-guide.
         """
         if not hasattr(self, '_configparserdata'):
-            self._configparserdata = configparser.ConfigParser(
+            configparserdata = configparser.ConfigParser(
                 allow_no_value=True,
                 delimiters=self.configparser_delimiters,
                 default_section=self._internal_default_section_name
             )
 
             # Prevent ConfigParser from lowercasing the keys.
-            self._configparserdata.optionxform = str
+            configparserdata.optionxform = str
 
             # configparser.ConfigParser.read() will not fail if it doesn't read the
             # .ini file(s) in the list, it'll just happily continue on and return
@@ -281,14 +281,17 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                     raise IOError(msg)
 
             try:
-                self._configparserdata.read(self.inifilepath, encoding='utf-8')
+                configparserdata.read(self.inifilepath, encoding='utf-8')
             except configparser.DuplicateOptionError as ex:
-                delattr(self, '_configparserdata')
                 message = "ERROR: Configparser found a section with "
                 message += "two options with identical keys."
                 self.debug_message(0, message)
                 raise ex
 
+            # Only keep the result once everything has been loaded, a failed load must
+            # not leave an empty or partially loaded configuration behind.
+            self._configparserdata = configparserdata
+
         return self._configparserdata
 
     @property
-- 
2.43.0


From 1a3d59fcbb5d2f7ad80eb6532375c279c9271dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:02 +0000
Subject: [PATCH 02/24] fix: raise an error if a listed .ini file could not be
 opened

---
 src/configparserenhanced/ConfigParserEnhanced.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 6f52c1d..f2ed1c2 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -281,13 +281,18 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                     raise IOError(msg)
 
             try:
-                configparserdata.read(self.inifilepath, encoding='utf-8')
+                files_read = configparserdata.read(self.inifilepath, encoding='utf-8')
             except configparser.DuplicateOptionError as ex:
                 message = "ERROR: Configparser found a section with "
                 message += "two options with identical keys."
                 self.debug_message(0, message)
                 raise ex
 
+            # ConfigParser.read() silently skips the files that it could not open.
+            if len(files_read) != len(self.inifilepath):
+                files_skipped = [str(x) for x in self.inifilepath if os.fspath(x) not in files_read]
+                raise IOError(f"ERROR: Unable to read configuration .ini file(s): {files_skipped}")
+
             # Only keep the result once everything has been loaded, a failed load must
             # not leave an empty or partially loaded configuration behind.
             self._configparserdata = configparserdata
-- 
2.43.0


From 641957535d1d72b418292cda11eb63441e72f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:46 +0000
Subject: [PATCH 03/24] fix: drop all data of the previous file list when
 inifilepath is assigned

---
 .../ConfigParserEnhanced.py                    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index f2ed1c2..f0f0f10 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -198,27 +198,27 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
     def inifilepath(self, value) -> list:
         self._validate_parameter(value, (str, list, Path))
 
-        # If we have already loaded a .ini file, we should reset the data
-        # structure. Delete any lazy-created properties, etc.
-        if hasattr(self, '_inifilepath'):
-            if hasattr(self, '_configparserdata'):
-                delattr(self, '_configparserdata')
-            self._reset_lazy_attr("_loginfo")
-
         # Internally we represent the inifile as a `list of Path` objects.
         # Do the necessary conversions to make that so.
         if not isinstance(value, list):
             value = [value]
 
-        self._inifilepath = []
+        inifilepath = []
 
         for entry in value:
             try:
-                self._inifilepath.append(Path(entry))
+                inifilepath.append(Path(entry))
             except TypeError as ex:
                 self.debug_message(0, "ERROR: invalid entry in `inifilepath` list.")
                 raise ex
 
+        # If we have already loaded a .ini file, we should reset the data
+        # structure. Delete any lazy-created properties, etc.
+        if hasattr(self, '_inifilepath'):
+            self._reset_configparserdata()
+
+        self._inifilepath = inifilepath
+
         return self._inifilepath
 
     @property
-- 
2.43.0


From 591a1bc76fb921fa2c4805407fb74077f381d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:13 +0000
Subject: [PATCH 04/24] fix: expand the default section once per parse and
 detect use cycles through it

---
 src/configparserenhanced/ConfigParserEnhanced.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index f0f0f10..550d556 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -897,8 +897,11 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         self._validate_parameter(initialize, (bool))
         self._validate_parameter(finalize, (bool))
 
+        # The root of the search is the one call that isn't handed parameters by a caller.
+        is_root = handler_parameters is None
+
         # Initialize handler_parameters if not currently set up.
-        if handler_parameters is None:
+        if is_root:
             handler_parameters = self._new_handler_parameters()
 
             # Check that we got the right data structure from _new_handler_parameters
@@ -922,12 +925,16 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             handler_parameters = self._new_handler_parameters(handler_parameters)
 
         # Execute _handler_initialize to add a pre-processing step.
-        if initialize and section_name == handler_parameters.section_root:
+        if initialize and is_root:
             handler_initialize_params = self._new_handler_parameters(handler_parameters)
             handler_initialize_params.handler_name = "handler_initialize"
             self.handler_initialize(section_name, handler_initialize_params)
 
+        # The default section is expanded as if the root section started with a `use` of it,
+        # so a link from there back to the root section is a cycle.
+        if is_root and section_name != self.default_section_name:
             if self.configparserdata.has_section(self.default_section_name):
+                handler_parameters.data_internal['processed_sections'].add(section_name)
                 self._parse_section_r(
                     self.default_section_name,
                     handler_parameters=handler_parameters,
@@ -1012,7 +1019,7 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
 
         # If we're exiting recursion from the root node and and finalize is
         # enabled, we call the finalize handler.
-        if finalize and section_name == handler_parameters.section_root:
+        if finalize and is_root:
             handler_finalize_params = self._new_handler_parameters(handler_parameters)
             handler_finalize_params.handler_name = "handler_finalize"
             self.handler_finalize(section_name, handler_finalize_params)
-- 
2.43.0


From d3533a90070854408705a39d5a47ef70ff4bb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 05/24] fix: a failed parse must not leave partial section data
 behind

---
 .../ConfigParserEnhanced.py                   | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 550d556..dbb3e30 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -682,8 +682,15 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         if section == "":
             raise ValueError("`section` cannot be empty.")
 
-        # Parse the requested section.
-        result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        # Parse the requested section. If that fails then restore what was known about the
+        # section so that a partial result can't be mistaken for a parsed section later.
+        data = self.configparserenhanceddata
+        snapshot = data._snapshot_section(section)
+        try:
+            result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        except BaseException:
+            data._restore_section(section, snapshot)
+            raise
 
         # caches the "data_shared" component of handler_parameters
         self.parse_section_last_result = result
@@ -1787,6 +1794,27 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                 self._sections_checked_data = set()
             return self._sections_checked_data
 
+        def _snapshot_section(self, section):
+            """
+            Get what is currently known about a section, for ``_restore_section``.
+            """
+            options = self.data.get(section)
+            return (section in self._sections_checked, None if options is None else dict(options))
+
+        def _restore_section(self, section, snapshot):
+            """
+            Restore the state of a section to what it was when the ``snapshot`` was taken.
+            """
+            checked, options = snapshot
+            if not checked:
+                self._sections_checked.discard(section)
+            if options is None:
+                self.data.pop(section, None)
+            else:
+                current = self.data.setdefault(section, {})
+                current.clear()
+                current.update(options)
+
         def _set_owner_options(self):
             """
             Get options from the owner class, if we have an owner class.
@@ -1825,7 +1853,6 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
 
                 if do_parse_section:
                     self._set_owner_options()
-                    self._sections_checked.add(section)
                     self._owner.parse_section(section)
 
             return
-- 
2.43.0


From da19007df3fde5c2741856d2cd11c6baabe66e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 06/24] fix: restore the exception control level when
 unroll_to_str fails

---
 .../ConfigParserEnhanced.py                   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index dbb3e30..adc314c 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -628,17 +628,18 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         ecl = parser.exception_control_level
         parser.exception_control_level = 0
 
-        section_list = parser.configparserenhanceddata.sections()
+        try:
+            section_list = parser.configparserenhanceddata.sections()
 
-        if section is None:
-            for section in section_list:
+            if section is None:
+                for section in section_list:
+                    output_str += __generate_section(section, parser, delimiter)
+                    output_str += "\n"
+            else:
                 output_str += __generate_section(section, parser, delimiter)
-                output_str += "\n"
-        else:
-            output_str += __generate_section(section, parser, delimiter)
-
-        # reset parser ECL (only useful when not using base class parser)
-        parser.exception_control_level = ecl
+        finally:
+            # reset parser ECL (only useful when not using base class parser)
+            parser.exception_control_level = ecl
 
         output_str = output_str.strip()
         output_str += "\n"
-- 
2.43.0


From c73344ab5a67dec65672851a026ce2332251471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:44 +0000
Subject: [PATCH 07/24] fix: export text that loads back to the same options
 and values

---
 src/configparserenhanced/ConfigParserEnhanced.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index adc314c..c71bde0 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -605,6 +605,11 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                 for key, value in parser.configparserenhanceddata.items(section):
                     if value is None:
                         value = ""
+                    # Write the value such that loading it again gives the same value: quote
+                    # outer whitespace, escape `%` and indent the lines of multi-line values.
+                    if value != value.strip():
+                        value = f'"{value}"'
+                    value = value.replace("%", "%%").replace("\n", "\n\t")
                     output += delimiter.join([key, value]).strip() + "\n"
             else:
                 raise KeyError(f"Section `{section}` was not found.")
@@ -615,12 +620,16 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         output_str = ""
 
         delimiter = ":"
+        if delimiter not in self.configparser_delimiters:
+            delimiter = self.configparser_delimiters[0]
         if space_around_delimiters:
             delimiter = " {} ".format(delimiter)
 
         parser = None
         if use_base_class_parser:
             parser = ConfigParserEnhanced(filename=self.inifilepath)
+            parser.configparser_delimiters = self.configparser_delimiters
+            parser.default_section_name = self.default_section_name
         else:
             parser = self
 
-- 
2.43.0


From 1d9b4a6d865487c121152c12ab97286befd73ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:06 +0000
Subject: [PATCH 08/24] fix: SetEnvironment forgets recorded actions when its
 source is reassigned

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 03c7661..6f846e3 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1102,6 +1102,11 @@ class SetEnvironment(ConfigParserEnhanced):
     #  H E L P E R S
     # ---------------
 
+    def _reset_configparserdata(self) -> int:
+        """Reset the internal state, including the actions found in the previous data."""
+        self._reset_lazy_attr("_var_actions_cache")
+        return super()._reset_configparserdata()
+
     def _apply_envvar(self, operation, envvar_name, envvar_value) -> int:
         """Apply an ENVVAR operation
 
-- 
2.43.0


From 26034e47651ea952a6d940b6884e66c9b141a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 09/24] fix: SetEnvironment.apply reports a module command that
 a signal killed

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 6f846e3..f4cf12c 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -337,7 +337,8 @@ class SetEnvironment(ConfigParserEnhanced):
             if 'module' in iaction.keys():
                 rval = self._apply_module(op, module_name=iaction['module'], module_value=value)
 
-            output = max(output, rval)
+            # rval is negative if the command was killed by a signal.
+            output = max(output, abs(rval))
 
         return output
 
-- 
2.43.0


From 25b094f92d15b4d87e36d99f9575c865ac1ca7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 10/24] fix: quote the arguments of generated actions so values
 are taken as they are

---
 .../src/setenvironment/SetEnvironment.py      | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index f4cf12c..a4e8189 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -17,6 +17,7 @@ Todo:
 from __future__ import print_function
 
 import inspect
+import json
 import logging
 import os
 from pathlib import Path
@@ -1486,11 +1487,11 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_arg(x, interp) for x in arglist]
             output = "envvar_op({})".format(",".join(arglist))
         elif interp == "bash":
             # Surround each ini command argument in double quotes, except for the first ini command argument
-            arglist[1 :] = ['"' + x + '"' for x in arglist[1 :]]
+            arglist[1 :] = [self._quote_arg(x, interp) for x in arglist[1 :]]
             output = "envvar_op {}".format(" ".join(arglist))
         else:
             self.exception_control_event(
@@ -1599,7 +1600,7 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_arg(x, interp) for x in arglist]
             output = "ModuleHelper.module({})".format(",".join(arglist))
         elif interp == "bash":
             output = "module {}".format(" ".join(arglist))
@@ -1833,6 +1834,19 @@ class SetEnvironment(ConfigParserEnhanced):
             )
         return output
 
+    def _quote_arg(self, text, interp) -> str:
+        """Double quote an argument for the generated code such that it is taken as it is.
+
+        Variable references (``$``) in ``bash`` arguments are expanded, as in ``envvar_op()``.
+
+        Raises:
+            TypeError: if ``text`` is not a string.
+        """
+        self._validate_parameter(text, (str))
+        if interp == "python":
+            return json.dumps(text, ensure_ascii=False)
+        return '"' + re.sub(r'([\\"`])', r'\\\1', text) + '"'
+
     def _remove_prefix(self, text, prefix) -> str:
         """Remove a prefix string from another string
 
-- 
2.43.0


From 3f80ae097c1a65c65d3bf07e38602ec865ab3722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:02 +0000
Subject: [PATCH 11/24] fix: DetermineSystem forgets a system name that it
 rejected

---
 .../determinesystem/DetermineSystem.py        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 0761f17..fbedef5 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -52,9 +52,9 @@ class DetermineSystem(FormattedMsg):
         if not hasattr(self, "_system_name"):
             hostname = socket.gethostname()
             sys_name_from_hostname = self.get_sys_name_from_hostname(hostname)
-            self._system_name = sys_name_from_hostname
-            if self._system_name is not None and not self.silent:
-                print(f"Using system '{self._system_name}' based on matching "
+            system_name = sys_name_from_hostname
+            if system_name is not None and not self.silent:
+                print(f"Using system '{system_name}' based on matching "
                       f"hostname '{hostname}'.")
             sys_name_from_build_name = self.get_sys_name_from_build_name()
             if (sys_name_from_hostname is None and
@@ -74,26 +74,29 @@ class DetermineSystem(FormattedMsg):
             # Use the system name in build_name if sys_name_from_hostname is
             # None.
             if sys_name_from_build_name is not None:
-                self._system_name = sys_name_from_build_name
+                system_name = sys_name_from_build_name
                 if not self.silent:
                     print(("Setting"
                            if sys_name_from_hostname is None
                            else "Overriding") +
-                          f" system to '{self._system_name}' based on "
+                          f" system to '{system_name}' based on "
                           f"specification in build name '{self.build_name}'.")
-                if (sys_name_from_hostname != self._system_name
+                if (sys_name_from_hostname != system_name
                     and self.force_build_name is False):
                     msg = self.get_formatted_msg(textwrap.fill(
                         f"Hostname '{hostname}' matched to system "
                         f"'{sys_name_from_hostname}' in "
                         f"'{self.supported_systems_file}', but you "
-                        f"specified '{self._system_name}' in the build name.  "
+                        f"specified '{system_name}' in the build name.  "
                         "If you want to force the use of "
-                        f"'{self._system_name}', add the --force flag.",
+                        f"'{system_name}', add the --force flag.",
                         width=68
                     ))
                     sys.exit(msg)
 
+            # Only a system name that was not rejected may be remembered.
+            self._system_name = system_name
+
     def get_sys_name_from_hostname(self, hostname):
         """
         Helper function to match the given hostname to a system name, as
-- 
2.43.0


From 54bafaaaace58db50bf41e2f4817b80997b82c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:55 +0000
Subject: [PATCH 12/24] fix: GenConfig goes back to its own build name when the
 validation fails

---
 wip/genconfig/gen_config.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index fb47417..00f45e3 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -180,6 +180,16 @@ class GenConfig(FormattedMsg):
         if self.load_env is None:
             self.load_load_env()
 
+        try:
+            self._assert_config_specs_sections_are_valid()
+        finally:
+            # Go back to our own build name, also if the validation failed.
+            self.load_env.build_name = self.args.build_name
+            self.load_env.args.force = self.args.force
+            self.config_keyword_parser.build_name = self.args.build_name
+        self.has_been_validated = True
+
+    def _assert_config_specs_sections_are_valid(self):
         ckp = self.config_keyword_parser
         le = self.load_env
         le.args.force = True
@@ -230,11 +240,6 @@ class GenConfig(FormattedMsg):
                                  f"'{self.args.config_specs_file.name}'.")
             ))
 
-        self.load_env.build_name = self.args.build_name
-        self.load_env.args.force = self.args.force
-        self.config_keyword_parser.build_name = self.args.build_name
-        self.has_been_validated = True
-
     def load_config_keyword_parser(self):
         """
         Instantiate an :class:`ConfigKeywordParser` object with this object's
-- 
2.43.0


From b1d30a435c5724eab7dc8f037a38c887e56020ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:15 +0000
Subject: [PATCH 13/24] fix: DetermineSystem keeps a '^' in a host-name pattern

---
 wip/determinesystem/determinesystem/DetermineSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index fbedef5..d332260 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -118,7 +118,7 @@ class DetermineSystem(FormattedMsg):
             #   Match anything that's not      |
             #        a '#' or whitespace.      |
             #                      vvvvv    vvvvvvvv
-            keys = [re.findall(r"([^#^\s]*)(?:\s*#.*)?", key)[0]
+            keys = [re.findall(r"([^#\s]*)(?:\s*#.*)?", key)[0]
                     for key in self.supported_systems_data[sys_name].keys()]
 
             # Keys are treated as REGEXes.
-- 
2.43.0


From 500af13dbfe910706e6b339339bc747ed414c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:15 +0000
Subject: [PATCH 14/24] fix: LoadEnv keeps the environment-specs only once they
 are validated

---
 wip/loadenv/load_env.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 75ce893..438f394 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -213,15 +213,17 @@ class LoadEnv(FormattedMsg):
         ``environment-specs.ini``.  Save the resulting object as
         :attr:`set_environment`.
         """
-        if self.set_environment is None:
-            self.set_environment = SetEnvironment(filename=self.args.environment_specs_file)
+        set_environment = self.set_environment
+        if set_environment is None:
+            set_environment = SetEnvironment(filename=self.args.environment_specs_file)
 
         # Make sure all operations specified in environment-specs.ini are valid
         # Note: If `set_environment.exception_control_level` is
         #       2 or less then `ValueError` will not be raised but
         #       rather `set_environment` will return a nonzero value.
-        self.set_environment.exception_control_level = 5
-        self.set_environment.assert_file_all_sections_handled()
+        set_environment.exception_control_level = 5
+        set_environment.assert_file_all_sections_handled()
+        self.set_environment = set_environment
 
 
     def apply_env(self):
-- 
2.43.0


From ff55d36522b70f96ba613cb50444b17309e93539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:15 +0000
Subject: [PATCH 15/24] fix: EnvKeywordParser looks for environment names
 literally, not as patterns

---
 wip/loadenv/loadenv/EnvKeywordParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/loadenv/loadenv/EnvKeywordParser.py b/wip/loadenv/loadenv/EnvKeywordParser.py
index a440af6..1e52350 100644
--- a/wip/loadenv/loadenv/EnvKeywordParser.py
+++ b/wip/loadenv/loadenv/EnvKeywordParser.py
@@ -90,7 +90,7 @@ class EnvKeywordParser(KeywordParser):
             for name in self.env_names:
                 env_name_in_build_name = (
                     False
-                    if re.search(f"(?:^|{self.delim}){name}(?:$|{self.delim})", self.build_name) is
+                    if re.search(f"(?:^|{self.delim}){re.escape(name)}(?:$|{self.delim})", self.build_name) is
                     None else True
                     )
 
@@ -104,7 +104,7 @@ class EnvKeywordParser(KeywordParser):
                 for alias in self.aliases:
                     alias_in_build_name = (
                         False if
-                        re.search(f"(?:^|{self.delim}){alias}(?:$|{self.delim})",
+                        re.search(f"(?:^|{self.delim}){re.escape(alias)}(?:$|{self.delim})",
                                   self.build_name) is None else True
                         )
 
-- 
2.43.0


From b8fca8decc865e59bf80370741cfea26c43d88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:15 +0000
Subject: [PATCH 16/24] fix: GenConfig asks again after an empty answer

---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 00f45e3..5b71dd3 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -89,7 +89,7 @@ class GenConfig(FormattedMsg):
                         f"({self.args.cmake_fragment}).\n"
                         "* Would you like to overwrite this file? [y/n] "
                     )
-                    while response.lower()[0] not in ["y", "n"]:
+                    while response.lower()[:1] not in ["y", "n"]:
                         response = input(
                             "  * Input not recognized. Please enter [y/n]: "
                         )
-- 
2.43.0


From 853bdd01824823964ca97a08af692e7f802f05a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:15 +0000
Subject: [PATCH 17/24] fix: KeywordParser does not split a keyword at '^'

---
 wip/keywordparser/keywordparser/KeywordParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 58fc07e..61e53ca 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -43,12 +43,12 @@ class KeywordParser(FormattedMsg):
                       else "")
 
         uncommented_values_list = re.findall(
-            r"(?:\s*?#.*\n*)*([^#^\n]*)", values_str
+            r"(?:\s*?#.*\n*)*([^#\n]*)", values_str
         )
         # Regex Explanation
         # =================
-        # (?:\s*?#.*\n*)*([^#^\n]*)
-        # ^^^^^^^^^^^^^ ^ ^^^^^^^^
+        # (?:\s*?#.*\n*)*([^#\n]*)
+        # ^^^^^^^^^^^^^ ^ ^^^^^^^
         # |             | |
         # |             | **Matching group for all non-#/non-\n characters
         # |             |   (i.e. 'intel 18  ', 'intel_19', or 'intel-20')**
-- 
2.43.0


From 47ec5bdc424f6bb992df375368509127db0fb455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:15 +0000
Subject: [PATCH 18/24] fix: load-env.sh removes its location file

---
 wip/loadenv/load-env.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 988fc3b..9175685 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -35,9 +35,10 @@ function cleanup()
     local ret_val=$ret
     [ -f /tmp/$USER/.load_matching_env_loc ] && rm -f /tmp/$USER/.load_matching_env_loc 2>/dev/null
     [ -f /tmp/$USER/.ci_mode ] && rm -f /tmp/$USER/.ci_mode 2>/dev/null
+    [ ! -z ${load_matching_env_loc} ] && rm -f ${load_matching_env_loc} 2>/dev/null
     [ ! -z ${env_file} ] && rm -f ${env_file} 2>/dev/null; rm -f ${env_file::-2}rc 2>/dev/null
 
-    unset python_too_old script_dir ci_mode cleanup env_file ret
+    unset python_too_old script_dir ci_mode cleanup env_file ret load_matching_env_loc
     trap -  SIGHUP SIGINT SIGTERM
     return $ret_val
 }
-- 
2.43.0


From a0cbc93d91521cde5b6a40eae9c9a5fdc3ff0760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 19/24] fix: load-env.sh does not remove a file rc of the user
 when no environment was written

---
 wip/loadenv/load-env.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 9175685..67e8e8d 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -36,7 +36,7 @@ function cleanup()
     [ -f /tmp/$USER/.load_matching_env_loc ] && rm -f /tmp/$USER/.load_matching_env_loc 2>/dev/null
     [ -f /tmp/$USER/.ci_mode ] && rm -f /tmp/$USER/.ci_mode 2>/dev/null
     [ ! -z ${load_matching_env_loc} ] && rm -f ${load_matching_env_loc} 2>/dev/null
-    [ ! -z ${env_file} ] && rm -f ${env_file} 2>/dev/null; rm -f ${env_file::-2}rc 2>/dev/null
+    [ ! -z ${env_file} ] && rm -f ${env_file} ${env_file::-2}rc 2>/dev/null
 
     unset python_too_old script_dir ci_mode cleanup env_file ret load_matching_env_loc
     trap -  SIGHUP SIGINT SIGTERM
-- 
2.43.0


From f64f51ec0824366cac6e0ca887e2f20b22228974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:20 +0000
Subject: [PATCH 20/24] fix: gen-config.sh returns the status of the step that
 failed

---
 wip/genconfig/gen-config.sh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 2150e0d..44e51b7 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -101,8 +101,9 @@ fi
 
 ### Generate the configuration ###
 python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args
-if [[ $? -ne 0 ]]; then
-    cleanup_gc; return $?
+ret_gc=$?
+if [[ $ret_gc -ne 0 ]]; then
+    cleanup_gc; return $ret_gc
 fi
 ### ========================== ###
 
@@ -145,15 +146,17 @@ declare -x -f gen_config_helper
 
 # Get proper call args to pass to LoadEnv, which ARE NOT the same as those we pass to GenConfig.
 python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args /tmp/$USER/.load_env_args
-if [[ $? -ne 0 ]]; then
-    cleanup_gc; return $?
+ret_gc=$?
+if [[ $ret_gc -ne 0 ]]; then
+    cleanup_gc; return $ret_gc
 fi
 load_env_call_args=$(cat /tmp/$USER/.load_env_args)
 
 # Actually run LoadEnv:
 source ${script_dir}/LoadEnv/load-env.sh ${load_env_call_args}
+ret_gc=$?
 ### ========================== ###
 
 ####### END configuration #######
 
-cleanup_gc
+cleanup_gc; return $ret_gc
-- 
2.43.0


From 638a0d78f2df98c0250d1ad0a12fcfb9b16a51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:43 +0000
Subject: [PATCH 21/24] fix: load-env.sh: do not delete the files named by the
 caller's env_file variable

---
 wip/loadenv/load-env.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 67e8e8d..f1cfe50 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -42,6 +42,8 @@ function cleanup()
     trap -  SIGHUP SIGINT SIGTERM
     return $ret_val
 }
+# cleanup() deletes the files these name, so they must not come from the caller's shell.
+unset env_file load_matching_env_loc ret
 trap "cleanup; return 1" SIGHUP SIGINT SIGTERM
 
 #### END helper functions ####
-- 
2.43.0


From 2dcb4adbfe590ab44e6535e9f4c5e62e31ce1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:01 +0000
Subject: [PATCH 22/24] fix: gen-config.sh: do not run cmake on the caller's
 path_to_src with --cmake-fragment

---
 wip/genconfig/gen-config.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 44e51b7..a1c6736 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -96,6 +96,7 @@ else
     fi
 
     gen_config_py_call_args=$@
+    path_to_src=""  # Only a fragment is written; do not use the caller's variable
 fi
 
 
-- 
2.43.0


From 9ba835b4477102f6e0c8e53e2a1a8d809d32f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 23/24] fix: gen_config.py: --list-configs lists only the
 configurations of the system

---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 5b71dd3..a1694b9 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -145,7 +145,7 @@ class GenConfig(FormattedMsg):
             self.args.config_specs_file
         ).configparserenhanceddata
         complete_configs = [_ for _ in config_specs.sections()
-                            if _.startswith(sys_name)]
+                            if _.startswith(f"{sys_name}_")]
 
         print(self.get_msg_for_list(
             "Please select one of the following complete configurations from\n"
-- 
2.43.0


From 1b264ed4ce3094e214b15b41387c26182cece7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 24/24] fix: ModuleHelper: with lmod, notice a module that is
 still loaded after unload or swap

---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index 18cbf6d..ad1e8a8 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -135,7 +135,7 @@ try:          # pragma: cover if on lmod
         _arguments = _command[1 :] + list(arguments)
         shell_cmds = []
         is_loaded = "module is-loaded {0} && true  || false"
-        is_unloaded = "module is-loaded {0} && false || true"
+        is_unloaded = "! module is-loaded {0}"
         is_file = "[ -e {0} ] && true || false"
         # TODO: handle other commands: purge, etc.
         if _command[0] == 'load':
-- 
2.43.0

