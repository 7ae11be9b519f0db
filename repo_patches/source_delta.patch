From 9317bc27479cf91bc2e322fbac4a120c0799e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 01/20] fix: report functions also called by a strong edge
 after a weak one was walked

---
 diffkemp/semdiff/caching.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index fe45d9d..035791f 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -322,8 +322,6 @@ class ComparisonGraph:
                     # Invalid successor.
                     continue
                 target = self[edge.target_name]
-                if target in visited:
-                    continue
                 if (target.files[side].endswith(".c") and
                         original_source_files[side] != target.files[side]):
                     # Do not walk on edges to a C source file from a different
@@ -332,9 +330,12 @@ class ComparisonGraph:
                     # comparison boundary beyond which we don't consider the
                     # results interesting.
                     continue
-                queue.appendleft(target)
-                if target not in backtracking_map:
-                    backtracking_map[target] = edge
+                # Note: the target may have been visited through a weak edge
+                # only, hence a strong edge to it must always be considered.
+                if target not in visited:
+                    queue.appendleft(target)
+                    if target not in backtracking_map:
+                        backtracking_map[target] = edge
                 if edge.kind == ComparisonGraph.DependencyKind.WEAK:
                     # Do not include targets of weak edges to the result.
                     continue
-- 
2.43.0


From c246b168f80b892448d3948c53f68fd19ce62b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 02/20] fix: keep results uncachable while another assumed
 equal result affects them

---
 diffkemp/semdiff/caching.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index 035791f..0230576 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -362,6 +362,12 @@ class ComparisonGraph:
                         vertex_to_reset.cachable = True
                 # Note: the entry to equal_funs is added automatically.
                 self[name] = vertex
+        # A vertex may be affected by multiple assumed equal results, keep the
+        # mark for those whose result did not change.
+        for vertex in self.vertices.values():
+            if vertex.result == Result.Kind.ASSUMED_EQUAL:
+                for affected_vertex in vertex.prevents_caching_of:
+                    affected_vertex.cachable = False
 
     def normalize(self):
         """
-- 
2.43.0


From 4f41674f9ecebcd009fe275dce56ba3a3a98efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 03/20] fix: report unreadable SimpLL output as a failure of
 the comparison

---
 diffkemp/simpll/simpll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index ebb483f..ac030cf 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -182,6 +182,9 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
     try:
         result_graph = ComparisonGraph()
         simpll_result = yaml.safe_load(simpll_out)
+        if not isinstance(simpll_result, dict):
+            # No output or an output that is not a result report.
+            raise SimpLLException("Invalid output of SimpLL")
         if simpll_result is not None:
             if "function-results" in simpll_result:
                 for fun_result in simpll_result["function-results"]:
@@ -206,6 +209,6 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
             missing_defs = simpll_result["missing-defs"] \
                 if "missing-defs" in simpll_result else None
     except yaml.YAMLError:
-        pass
+        raise SimpLLException("Invalid output of SimpLL")
 
     return first_out, second_out, result_graph, missing_defs
-- 
2.43.0


From b71f159f47028fb21cdadb1b3f128657c9479611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 04/20] fix: count results without a diff into the overall
 result with full diffs

---
 diffkemp/semdiff/function_diff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diffkemp/semdiff/function_diff.py b/diffkemp/semdiff/function_diff.py
index 9b0fd8f..b115bbe 100644
--- a/diffkemp/semdiff/function_diff.py
+++ b/diffkemp/semdiff/function_diff.py
@@ -305,6 +305,9 @@ def functions_diff(mod_first, mod_second,
                 # semantic difference.
                 if (fun_result.kind != Result.Kind.NOT_EQUAL and
                         fun_result.diff == ""):
+                    # Still, it contributes to the overall result kind.
+                    result.kind = Result.Kind(max(int(result.kind),
+                                                  int(fun_result.kind)))
                     continue
                 result.add_inner(fun_result)
     except ValueError:
-- 
2.43.0


From 0aa0ad14fe3a7acdcf8cbe7a92d4f946339ef21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 05/20] fix: name the unused return types pattern on the
 command line as the comparison does

---
 diffkemp/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/cli.py b/diffkemp/cli.py
index bae6e5c..fb15c6f 100644
--- a/diffkemp/cli.py
+++ b/diffkemp/cli.py
@@ -144,7 +144,7 @@ def make_argument_parser():
 
     BUILTIN_PATTERNS = ["struct-alignment",
                         "function-splits",
-                        "unused-returns",
+                        "unused-return-types",
                         "kernel-prints",
                         "dead-code",
                         "numerical-macros",
-- 
2.43.0


From 2474c8dddb5763a598a62bedc01c5d1759a31025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 06/20] fix: move only the line number lines of a context diff
 to the original numbering

---
 diffkemp/syndiff/function_syntax_diff.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/diffkemp/syndiff/function_syntax_diff.py b/diffkemp/syndiff/function_syntax_diff.py
index c3aa1b5..4c14a91 100644
--- a/diffkemp/syndiff/function_syntax_diff.py
+++ b/diffkemp/syndiff/function_syntax_diff.py
@@ -52,11 +52,7 @@ def syntax_diff(first_file, second_file, name, kind, first_line, second_line):
                 line += " " + extract.readline().strip()
 
         # Check whether the line is a line number line
-        number_line_set = set([" ", "*", "-", ","] +
-                              list(map(str, list(range(0, 10)))))
-        if ((not set(list(line)).issubset(number_line_set)) or
-            (not any(char.isdigit() for char in line)) or
-                line.isspace() or line == ""):
+        if not line.startswith(("*** ", "--- ")):
             diff_lines_new += [line]
             continue
 
-- 
2.43.0


From 8b7af97708a286f6dc72e7b889cc27cb69ab84fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 07/20] fix: apply the regex filter only to results that are
 not equal

---
 diffkemp/diffkemp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 4b53dd1..f2b9eef 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -424,11 +424,13 @@ def compare(args):
             result_graph = fun_result.graph
 
             if fun_result is not None:
-                if args.regex_filter is not None:
-                    # Filter results by regex
+                if args.regex_filter is not None and \
+                        fun_result.kind == Result.Kind.NOT_EQUAL:
+                    # Filter differences by regex
                     pattern = re.compile(args.regex_filter)
                     for called_res in fun_result.inner.values():
-                        if pattern.search(called_res.diff):
+                        if called_res.diff is not None and \
+                                pattern.search(called_res.diff):
                             break
                     else:
                         fun_result.kind = Result.Kind.EQUAL
-- 
2.43.0


From 7d8bca444c237b0fc1a7a367d1ce5568c997f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 08/20] fix: let the compiler wrapper script exit with the
 wrapper's return code

---
 diffkemp/building/cc_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index a1c1275..c16a5ad 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -220,4 +220,4 @@ def target(driver, args):
 
 # Enable running directly under Python interpreter
 if __name__ == "__main__":
-    wrapper(sys.argv)
+    sys.exit(wrapper(sys.argv))
-- 
2.43.0


From 1eb3a0d0d6a6b29627319f8df0cb05c7d7663dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 09/20] fix: record sources compiled to the default output file
 in the wrapper database

---
 diffkemp/building/cc_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index c16a5ad..78faf3e 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -165,8 +165,9 @@ def wrapper(argv):
     elif not linking:
         # Compiling to default output file
         db.extend(["o:" + os.path.join(os.getcwd(),
-                                       arg.rsplit(".", 1)[0] + ".ll")
-                   for arg in clang_argv if not arg.endswith(".c")])
+                                       os.path.basename(arg)
+                                       .rsplit(".", 1)[0] + ".ll")
+                   for arg in clang_argv if arg.endswith(".c")])
 
     # Analyze and modify parameters for clang (phase 2)
     clang_argv[0] = clang
-- 
2.43.0


From ae33df9e8ef595d4ec70124c31bc91fd620df04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 10/20] fix: look up wrapper database entries by their whole
 path

---
 diffkemp/building/cc_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index 78faf3e..d1be9eb 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -208,7 +208,7 @@ def wrapper(argv):
     with open(db_filename, "a") as db_file:
         # TODO: RPython-compatible file locking
         for entry in db:
-            if not os.path.exists(entry.split(":")[1]):
+            if not os.path.exists(entry.split(":", 1)[1]):
                 continue
             db_file.write(entry + "\n")
 
-- 
2.43.0


From 13ca11bff8e106ce7776ed89c6490b27b67a492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 11/20] fix: do not use a pattern file that failed to parse in
 warning mode

---
 diffkemp/semdiff/custom_pattern_config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diffkemp/semdiff/custom_pattern_config.py b/diffkemp/semdiff/custom_pattern_config.py
index 44d7c9b..27729eb 100644
--- a/diffkemp/semdiff/custom_pattern_config.py
+++ b/diffkemp/semdiff/custom_pattern_config.py
@@ -127,6 +127,7 @@ class CustomPatternConfig:
             check_call(call_opt, stdout=DEVNULL)
         except CalledProcessError:
             self._on_parse_failure(f"failed to parse pattern file {path}")
+            return
 
         self.pattern_files.add(path)
 
-- 
2.43.0


From b20074d0e191c1443b7344ac22d5a14b9af93d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 12/20] fix: read configuration files without extension as
 configurations

---
 diffkemp/semdiff/custom_pattern_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/semdiff/custom_pattern_config.py b/diffkemp/semdiff/custom_pattern_config.py
index 27729eb..899d2d0 100644
--- a/diffkemp/semdiff/custom_pattern_config.py
+++ b/diffkemp/semdiff/custom_pattern_config.py
@@ -45,7 +45,7 @@ class CustomPatternConfig:
         config = cls(path, patterns_path)
 
         # Process the configuration file based on its extension.
-        if CustomPatternConfig.get_extension(path) not in ("ll"):
+        if CustomPatternConfig.get_extension(path) != "ll":
             config._load_yaml()
         else:
             config.add_pattern(path)
-- 
2.43.0


From 07398fcc5999c8affde42cbd1c4bcae876957f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 13/20] fix: preprocess cached modules with the FFI form of the
 patterns

---
 diffkemp/simpll/simpll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index ac030cf..a56fa9a 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -46,7 +46,7 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
         for module in [first, second]:
             if module not in module_cache and module in modules_to_cache:
                 module_cache[module] = SimpLLModule(module)
-                module_cache[module].preprocess(config.builtin_patterns)
+                module_cache[module].preprocess(builtin_patterns[0])
 
         use_cached_modules = (module_cache and first in module_cache and
                               second in module_cache)
-- 
2.43.0


From e77ad25327b00472c401f5f868f5f3e82ce92dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:29 +0000
Subject: [PATCH 14/20] fix: a freed module can be freed, parsed and linked
 again

---
 diffkemp/llvm_ir/llvm_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/llvm_ir/llvm_module.py b/diffkemp/llvm_ir/llvm_module.py
index 01d0b45..77b32e6 100644
--- a/diffkemp/llvm_ir/llvm_module.py
+++ b/diffkemp/llvm_ir/llvm_module.py
@@ -61,7 +61,7 @@ class LlvmModule:
     def clean_module(self):
         """Free the parsed LLVM module."""
         if self.llvm_module is not None:
-            del self.llvm_module
+            self.llvm_module = None
 
     @staticmethod
     def clean_all():
-- 
2.43.0


From 9924153dc6dc2df01df32efff6fd03c6c89c5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:29 +0000
Subject: [PATCH 15/20] fix: report sysctls without a table as not found

---
 diffkemp/llvm_ir/kernel_source_tree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diffkemp/llvm_ir/kernel_source_tree.py b/diffkemp/llvm_ir/kernel_source_tree.py
index 9914b24..3d8f484 100644
--- a/diffkemp/llvm_ir/kernel_source_tree.py
+++ b/diffkemp/llvm_ir/kernel_source_tree.py
@@ -30,7 +30,7 @@ class KernelSourceTree(SourceTree):
         entries = sysctl.split(".")
         if entries[0] in ["kernel", "vm", "fs", "debug", "dev"]:
             table = "sysctl_base_table"
-        elif entries[0] == "net":
+        elif entries[0] == "net" and len(entries) > 2:
             if entries[1] == "ipv4":
                 if entries[2] == "conf":
                     table = "devinet_sysctl.1"
@@ -55,7 +55,10 @@ class KernelSourceTree(SourceTree):
 
             if i == len(entries) - 1:
                 return sysctl_mod
-            table = sysctl_mod.get_child(entry).name
+            child = sysctl_mod.get_child(entry)
+            if child is None:
+                break
+            table = child.name
         raise SourceNotFoundException(sysctl)
 
     def get_kernel_module(self, mod_dir, mod_name):
-- 
2.43.0


From ed59eb1349dee78ddc0f629efbbd7717083def5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:29 +0000
Subject: [PATCH 16/20] fix: restore only those asm constructs that were
 changed

---
 diffkemp/llvm_ir/kernel_llvm_source_builder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index 083a83c..a5b82e6 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -131,7 +131,9 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
             if not os.path.isfile(header):
                 continue
             commands = [
-                ["sed", "-i", "s/asm goto(x)/asm (\"goto(\" #x \")\")/g",
+                ["sed", "-i",
+                 "s/asm goto(x)/asm (\"goto(\" #x \")\") "
+                 "\\/* DiffKemp generated *\\//g",
                  header],
                 ["sed", "-i",
                  "/#ifdef CONFIG_CC_HAS_ASM_INLINE/i "
@@ -151,7 +153,9 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
             if not os.path.isfile(header):
                 continue
             commands = [
-                ["sed", "-i", "s/asm (\"goto(\" #x \")\")/asm goto(x)/g",
+                ["sed", "-i",
+                 "s/asm (\"goto(\" #x \")\") "
+                 "\\/\\* DiffKemp generated \\*\\//asm goto(x)/g",
                  header],
                 ["sed", "-i",
                  "/#undef CONFIG_CC_HAS_ASM_INLINE "
-- 
2.43.0


From 44746dd400596298b2a60e110e99a1764188399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:29 +0000
Subject: [PATCH 17/20] fix: restore kernel headers when the snapshot build
 fails

---
 diffkemp/diffkemp.py | 46 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index f2b9eef..60417c1 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -169,26 +169,34 @@ def build_kernel(args):
     source_finder = KernelLlvmSourceBuilder(args.source_dir)
     source = KernelSourceTree(args.source_dir, source_finder)
     list_kind = "sysctl" if args.sysctl else "function"
-    snapshot = Snapshot.create_from_source(source,
-                                           args.output_dir,
-                                           list_kind,
-                                           not args.no_source_dir)
-
-    # Read the symbol list
-    symbol_list = read_symbol_list(args.symbol_list)
-    if not symbol_list:
-        sys.stderr.write("ERROR: symbol list is empty or could not be read\n")
-        return
-
-    # Generate snapshot contents
-    if args.sysctl:
-        generate_from_sysctl_list(snapshot, symbol_list)
-    else:
-        generate_from_function_list(snapshot, symbol_list)
+    snapshot = None
+    try:
+        snapshot = Snapshot.create_from_source(source,
+                                               args.output_dir,
+                                               list_kind,
+                                               not args.no_source_dir)
+
+        # Read the symbol list
+        symbol_list = read_symbol_list(args.symbol_list)
+        if not symbol_list:
+            sys.stderr.write(
+                "ERROR: symbol list is empty or could not be read\n")
+            return
 
-    # Create the snapshot directory containing the YAML description file
-    snapshot.generate_snapshot_dir()
-    snapshot.finalize()
+        # Generate snapshot contents
+        if args.sysctl:
+            generate_from_sysctl_list(snapshot, symbol_list)
+        else:
+            generate_from_function_list(snapshot, symbol_list)
+
+        # Create the snapshot directory containing the YAML description file
+        snapshot.generate_snapshot_dir()
+    finally:
+        # Restore the kernel sources even if the snapshot could not be built
+        if snapshot is not None:
+            snapshot.finalize()
+        else:
+            source.finalize()
 
 
 def llvm_to_snapshot(args):
-- 
2.43.0


From 3ea1f05441a71e95055ae89d8ebf646099f2e33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:29 +0000
Subject: [PATCH 18/20] fix: leave the module and its original file untouched
 by a failing link

---
 diffkemp/llvm_ir/llvm_module.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/diffkemp/llvm_ir/llvm_module.py b/diffkemp/llvm_ir/llvm_module.py
index 77b32e6..58b7e7e 100644
--- a/diffkemp/llvm_ir/llvm_module.py
+++ b/diffkemp/llvm_ir/llvm_module.py
@@ -75,27 +75,31 @@ class LlvmModule:
         if not link_llvm_modules:
             return False
 
-        if "-linked" not in self.llvm:
+        # The original file is never overwritten and the file of a previous
+        # link is overwritten only if the new link succeeds.
+        if self.unlinked_llvm is None:
             new_llvm = "{}-linked.ll".format(self.llvm[:-3])
         else:
             new_llvm = self.llvm
+        tmp_llvm = new_llvm + ".tmp"
         link_command = ["llvm-link", "-S", self.llvm]
         link_command.extend([m.llvm for m in link_llvm_modules])
-        link_command.extend(["-o", new_llvm])
-        opt_command = get_opt_command([("constmerge", "module")], new_llvm)
+        link_command.extend(["-o", tmp_llvm])
+        opt_command = get_opt_command([("constmerge", "module")], tmp_llvm)
         with open(os.devnull, "w") as devnull:
             try:
                 check_call(link_command, stdout=devnull, stderr=devnull)
                 check_call(opt_command, stdout=devnull, stderr=devnull)
-                if self.unlinked_llvm is None:
-                    self.unlinked_llvm = self.llvm
-                self.llvm = new_llvm
-                self.linked_modules.update(link_llvm_modules)
-                self.parse_module(True)
-            except CalledProcessError:
+                llvm_module = SimpLLModule(tmp_llvm)
+                os.replace(tmp_llvm, new_llvm)
+            except (CalledProcessError, OSError, ValueError):
                 return False
-            finally:
-                return any([m for m in link_llvm_modules if self.links_mod(m)])
+        if self.unlinked_llvm is None:
+            self.unlinked_llvm = self.llvm
+        self.llvm = new_llvm
+        self.linked_modules.update(link_llvm_modules)
+        self.llvm_module = llvm_module
+        return True
 
     def find_param_var(self, param):
         """
-- 
2.43.0


From c29a02ab82fce7566c69d5b4a99af339bb149322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:29 +0000
Subject: [PATCH 19/20] fix: decide by path components which files lie in the
 project

---
 diffkemp/llvm_ir/llvm_module.py |  6 +++---
 diffkemp/llvm_ir/source_tree.py | 14 ++++++++------
 diffkemp/utils.py               |  6 ++++++
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/diffkemp/llvm_ir/llvm_module.py b/diffkemp/llvm_ir/llvm_module.py
index 58b7e7e..4822ea4 100644
--- a/diffkemp/llvm_ir/llvm_module.py
+++ b/diffkemp/llvm_ir/llvm_module.py
@@ -5,7 +5,7 @@ Functions for working with modules and parameters in them.
 
 from diffkemp.simpll.library import SimpLLModule
 from diffkemp.simpll._simpll.lib import shutdownSimpLL
-from diffkemp.utils import get_opt_command
+from diffkemp.utils import get_opt_command, is_inside_dir
 import os
 import re
 import shutil
@@ -157,7 +157,7 @@ class LlvmModule:
         :param new_root: Project root directory to move to.
         :return:
         """
-        if self.llvm.startswith(old_root):
+        if is_inside_dir(self.llvm, old_root):
             dest_llvm = os.path.join(new_root,
                                      os.path.relpath(self.llvm, old_root))
             # Copy the .ll file and replace all occurrences of the old root by
@@ -172,7 +172,7 @@ class LlvmModule:
                             llvm_new.write(line)
             self.llvm = dest_llvm
 
-        if self.source and self.source.startswith(old_root):
+        if self.source and is_inside_dir(self.source, old_root):
             # Copy the C source file.
             dest_source = os.path.join(new_root,
                                        os.path.relpath(self.source, old_root))
diff --git a/diffkemp/llvm_ir/source_tree.py b/diffkemp/llvm_ir/source_tree.py
index 7eafbf0..941cd17 100644
--- a/diffkemp/llvm_ir/source_tree.py
+++ b/diffkemp/llvm_ir/source_tree.py
@@ -4,6 +4,7 @@ Contains functions for getting LLVM modules from the project.
 """
 from diffkemp.llvm_ir.llvm_module import LlvmModule
 from diffkemp.llvm_ir.llvm_source_finder import SourceNotFoundException
+from diffkemp.utils import is_inside_dir
 import os
 import shutil
 
@@ -107,15 +108,16 @@ class SourceTree:
                                    structure).
         """
         for mod in modules:
-            module_dir = os.path.dirname(
-                os.path.relpath(mod.llvm, self.source_dir))
-            target_module_dir = os.path.join(target_source_tree.source_dir,
-                                             module_dir)
-            os.makedirs(target_module_dir, exist_ok=True)
+            if is_inside_dir(mod.llvm, self.source_dir):
+                module_dir = os.path.dirname(
+                    os.path.relpath(mod.llvm, self.source_dir))
+                target_module_dir = os.path.join(target_source_tree.source_dir,
+                                                 module_dir)
+                os.makedirs(target_module_dir, exist_ok=True)
 
             # Copy linked sources and headers.
             for src_sourcefile in mod.get_included_sources():
-                if not src_sourcefile.startswith(self.source_dir):
+                if not is_inside_dir(src_sourcefile, self.source_dir):
                     continue
                 dest_sourcefile = os.path.join(
                     target_source_tree.source_dir,
diff --git a/diffkemp/utils.py b/diffkemp/utils.py
index c7d1cb9..3eeb784 100644
--- a/diffkemp/utils.py
+++ b/diffkemp/utils.py
@@ -43,6 +43,12 @@ def get_opt_command(passes, llvm_file, overwrite=True):
     return opt_command
 
 
+def is_inside_dir(path, directory):
+    """Check if the path lies inside the given directory."""
+    rel_path = os.path.relpath(path, directory)
+    return rel_path.split(os.sep)[0] != os.pardir
+
+
 class EndLineNotFound(Exception):
     """
     Error to inform that end line of function / type was not found.
-- 
2.43.0


From eb51a9681e0c32983493b3a08133d68a0f8c8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:43 +0000
Subject: [PATCH 20/20] fix: go on after a sysctl data variable without uses

---
 diffkemp/diffkemp.py                           | 9 +++++++--
 diffkemp/llvm_ir/kernel_llvm_source_builder.py | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 60417c1..aa83561 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -312,8 +312,13 @@ def generate_from_sysctl_list(snapshot, sysctl_list):
             data = sysctl_mod.get_data(sysctl)
             if not data:
                 continue
-            for data_mod in \
-                    snapshot.source_tree.get_modules_using_symbol(data.name):
+            try:
+                data_mods = snapshot.source_tree.get_modules_using_symbol(
+                    data.name)
+            except SourceNotFoundException:
+                print("  could not find functions using data variable")
+                continue
+            for data_mod in data_mods:
                 for data_fun in data_mod.get_functions_using_param(data):
                     if data_fun == proc_fun:
                         continue
diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index a5b82e6..25d1330 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -90,7 +90,7 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
         try:
             cscope_out = self._cscope_run(symbol, definition=False)
             if len(cscope_out) == 0:
-                raise SourceNotFoundException
+                raise SourceNotFoundException(symbol)
             files = set()
             for line in cscope_out:
                 if line.split()[0].endswith(".h"):
-- 
2.43.0

