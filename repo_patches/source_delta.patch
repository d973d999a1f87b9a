From c34576c04f2b1de0741d82f78dbdd3b9c00155c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 01/40] fix: iwyu_tool: do not abort on output that is not
 UTF-8

One analysis that echoes a source line in another encoding raised
UnicodeDecodeError in the driver and lost the reports of all the others.
---
 iwyu_tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 18cf5ff..759728a 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -263,7 +263,8 @@ class Process(object):
         if not self.output:
             self.proc.wait()
             self.outfile.seek(0)
-            self.output = self.outfile.read().decode("utf-8")
+            self.output = self.outfile.read().decode(
+                "utf-8", errors="backslashreplace")
             self.outfile.close()
 
         return self.output
-- 
2.43.0


From e2db1adc241c18b0dc35876627278f3161c4e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 02/40] fix: iwyu_tool: accept removal lines without line
 numbers in clang format

clang_formatter used the failed match of such a line (output cut short, or
mixed with a diagnostic) and raised AttributeError, ending the whole run.
---
 iwyu_tool.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 759728a..2a2f607 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -94,9 +94,13 @@ def clang_formatter(output, style):
                                  (state[1], style, line))
         elif state[0] == REMOVE:
             match = LINES_RE.match(line)
-            line_no = match.group(2) if match else '1'
-            formatted.append("%s:%s:1: %s: superfluous '%s'" %
-                             (state[1], line_no, style, match.group(1)))
+            if match:
+                formatted.append("%s:%s:1: %s: superfluous '%s'" %
+                                 (state[1], match.group(2), style,
+                                  match.group(1)))
+            else:
+                formatted.append("%s:1:1: %s: superfluous '%s'" %
+                                 (state[1], style, line))
 
     return os.linesep.join(formatted)
 
-- 
2.43.0


From aaac72601baecd37e24d74a8cf5cf7575ca1c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 03/40] fix: iwyu_tool: report an unparsable compilation
 database as such

json.load raises ValueError, not IOError, for malformed content.
---
 iwyu_tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 2a2f607..ada39b3 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -449,7 +449,7 @@ def main(compilation_db_path, source_files, verbose, formatter, jobs,
         compilation_db_path = os.path.realpath(compilation_db_path)
         with open(compilation_db_path, 'r') as fileobj:
             compilation_db = json.load(fileobj)
-    except IOError as why:
+    except (IOError, ValueError) as why:
         print('error: failed to parse compilation database: %s' % why,
               file=sys.stderr)
         return 1
-- 
2.43.0


From 500c0566e9bedec97a31fd34d25fab1676163e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 04/40] fix: iwyu_tool: keep going when one analysis cannot be
 started

An OSError from Popen or TemporaryFile (process limit, missing directory)
ended the driver with the output of running and later analyses lost.  Report
it as that invocation's failed result instead.
---
 iwyu_tool.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index ada39b3..ebe69e4 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -285,6 +285,22 @@ class Process(object):
         return cls(process, outfile)
 
 
+class FailedProcess(object):
+    """ Stands in for an IWYU process that could not be started """
+    returncode = 1
+
+    def __init__(self, output):
+        self.output = output
+
+    def poll(self):
+        """ Return the exit code, there is nothing to wait for. """
+        return self.returncode
+
+    def get_output(self):
+        """ Return the description of the failure. """
+        return self.output
+
+
 KNOWN_COMPILER_WRAPPERS=frozenset([
     "ccache"
 ])
@@ -329,7 +345,10 @@ class Invocation(object):
         if verbose:
             print('# %s' % self, file=sys.stderr)
 
-        return Process.start(self)
+        try:
+            return Process.start(self)
+        except OSError as why:
+            return FailedProcess("error: failed to run '%s': %s" % (self, why))
 
 
 def fixup_compilation_db(compilation_db):
-- 
2.43.0


From 1eb8983805f57d0c366248d0d0b94e933a8f1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 05/40] fix: fix_includes: never leave a source file truncated

_WriteFile opened the file for writing, and so emptied it, before encoding
and writing the new content.  A full disk, an I/O error, a character the
file's encoding lacks or an interruption lost the user's source.  Write a
temporary file beside it and move that into place.  A file that could not
be written is no longer counted as edited.
---
 fix_includes.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 534a9d1..74ae0c4 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -63,7 +63,9 @@ import difflib
 import argparse
 import os
 import re
+import shutil
 import sys
+import tempfile
 from collections import OrderedDict
 
 _EPILOG = """\
@@ -600,15 +602,26 @@ def _ReadFile(filename, fileinfo):
 
 
 def _WriteFile(filename, fileinfo, file_lines):
-  """Write the given file-lines to the file."""
+  """Replace the file by one with the given file-lines, or leave it alone."""
+  # file_lines already have line endings, so join with ''.
+  content = ''.join(file_lines)
+  content = content.encode(fileinfo.encoding)
+  target = os.path.realpath(filename)
+  with open(target, 'r+b'):
+    pass     # do not replace what we would not be allowed to write
+  # Never truncate the original: it may be the only copy if we get interrupted.
+  fd, temp = tempfile.mkstemp(prefix='.fix_includes-',
+                              dir=os.path.dirname(target))
   try:
-    with open(filename, 'wb') as f:
-      # file_lines already have line endings, so join with ''.
-      content = ''.join(file_lines)
-      content = content.encode(fileinfo.encoding)
+    with os.fdopen(fd, 'wb') as f:
       f.write(content)
-  except (IOError, OSError) as why:
-    print("Error writing '%s': %s" % (filename, why))
+      f.flush()
+      os.fsync(f.fileno())
+    shutil.copymode(target, temp)
+    os.replace(temp, target)
+  except BaseException:
+    os.unlink(temp)
+    raise
 
 
 def PrintFileDiff(old_file_contents, new_file_contents):
@@ -2265,7 +2278,11 @@ def FixManyFiles(iwyu_records, flags):
       if flags.dry_run:
         PrintFileDiff(old_lines, fixed_lines)
       else:
-        _WriteFile(iwyu_record.filename, fileinfo, fixed_lines)
+        try:
+          _WriteFile(iwyu_record.filename, fileinfo, fixed_lines)
+        except (IOError, OSError, UnicodeError) as why:
+          print("Error writing '%s': %s" % (iwyu_record.filename, why))
+          continue
 
       files_fixed += 1
     except FixIncludesError as why:
-- 
2.43.0


From 9f44a5bfbf5ddc454ca400a4b1727fea469b7464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 06/40] fix: fix_includes: one bad file does not stop the
 others

A file that is missing, unreadable, changed between our two reads, or
shorter than its report's #include lines ended the run with a traceback, so
files after it were not fixed.  Skip it, go on, and exit with an error at
the end if a file could not be read or written, as the usage text promises.
---
 fix_includes.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 74ae0c4..f7f9067 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -596,7 +596,7 @@ def _ReadFile(filename, fileinfo):
       # The lines we add will have the linesep determined by
       # FileInfo.
       return content.decode(fileinfo.encoding).splitlines(True)
-  except (IOError, OSError) as why:
+  except (IOError, OSError, UnicodeError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
 
@@ -778,6 +778,9 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
 
   # Now double-check against iwyu that we got all the #include lines right.
   for line_number in iwyu_record.some_include_lines:
+    if line_number >= len(file_lines):
+      raise FixIncludesError('iwyu line number %s:%d is past file-end'
+                             % (iwyu_record.filename, line_number))
     if file_lines[line_number].type != _INCLUDE_RE:
       raise FixIncludesError('iwyu line number %s:%d (%s) is not an #include'
                              % (iwyu_record.filename, line_number,
@@ -2261,11 +2264,19 @@ def FixManyFiles(iwyu_records, flags):
     The number of files fixed (as opposed to ones that needed no fixing).
   """
   files_fixed = 0
+  files_failed = 0
   for iwyu_record in iwyu_records:
     try:
-      fileinfo = FileInfo.parse(iwyu_record.filename)
+      try:
+        fileinfo = FileInfo.parse(iwyu_record.filename)
+      except (IOError, OSError) as why:
+        print("Skipping '%s': %s" % (iwyu_record.filename, why))
+        files_failed += 1
+        continue
 
       file_contents = _ReadFile(iwyu_record.filename, fileinfo)
+      if file_contents is None:
+        files_failed += 1
       if not file_contents:
         continue
 
@@ -2282,6 +2293,7 @@ def FixManyFiles(iwyu_records, flags):
           _WriteFile(iwyu_record.filename, fileinfo, fixed_lines)
         except (IOError, OSError, UnicodeError) as why:
           print("Error writing '%s': %s" % (iwyu_record.filename, why))
+          files_failed += 1
           continue
 
       files_fixed += 1
@@ -2289,6 +2301,8 @@ def FixManyFiles(iwyu_records, flags):
       print('ERROR: %s - skipping file %s' % (why, iwyu_record.filename))
 
   print('IWYU edited %d files on your behalf.\n' % files_fixed)
+  if files_failed:
+    sys.exit('FATAL ERROR: could not read or write %d files' % files_failed)
   return files_fixed
 
 
-- 
2.43.0


From f4fe877b286f65cb396a787131cdeb9e8aef12c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 07/40] fix: fix_includes: count lines the way the compiler
 does

str.splitlines also splits at form feeds, vertical tabs and Unicode
separators, which shifts iwyu's line numbers, and the wrong #include could be
removed.
---
 fix_includes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index f7f9067..861059a 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -61,6 +61,7 @@ __author__ = 'csilvers@google.com (Craig Silverstein)'
 
 import difflib
 import argparse
+import io
 import os
 import re
 import shutil
@@ -590,12 +591,14 @@ def _ReadFile(filename, fileinfo):
   try:
     with open(filename, 'rb') as f:
       content = f.read()
-      # Call splitlines with True to keep the original line
+      # Use newline='' to keep the original line
       # endings.  Later in WriteFile, they will be used as-is.
       # This will reduce spurious changes to the original files.
       # The lines we add will have the linesep determined by
-      # FileInfo.
-      return content.decode(fileinfo.encoding).splitlines(True)
+      # FileInfo.  Unlike splitlines, this counts lines as iwyu does:
+      # a form feed, say, does not end a line.
+      return io.StringIO(content.decode(fileinfo.encoding),
+                         newline='').readlines()
   except (IOError, OSError, UnicodeError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
-- 
2.43.0


From 2177b532d8539b0ed2abbf959366a647acafc662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 08/40] fix: fix_includes: merge reports whose file name is
 spelled differently

Records for dir/../a.h and a.h were applied one after the other, the second
with line numbers that the first had made stale.
---
 fix_includes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 861059a..088da9a 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2359,7 +2359,10 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
           filename, flags.only_re))
       continue
 
+    # Different iwyu runs may spell the name of the same file differently.
+    filename = os.path.realpath(filename)
     if filename in iwyu_output_records:
+      iwyu_record.filename = iwyu_output_records[filename].filename
       iwyu_output_records[filename].Merge(iwyu_record)
     else:
       iwyu_output_records[filename] = iwyu_record
@@ -2371,7 +2374,8 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
   if not flags.update_comments:
     for filename in iwyu_output_records:
       if not iwyu_output_records[filename].HasContentfulChanges():
-        print('(skipping %s: iwyu reports no contentful changes)' % filename)
+        print('(skipping %s: iwyu reports no contentful changes)' %
+              iwyu_output_records[filename].filename)
         # Mark that we're skipping this file by setting the record to None
         iwyu_output_records[filename] = None
 
-- 
2.43.0


From 557e408c08a8243eb4fd8cdfc764cec64931cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 09/40] fix: choose among redeclarations by source order, not
 by address

GetTagRedecls returned a set of pointers, and several callers take the first
element that fits.  Which forward-declaration the report keeps, and which it
asks to remove, then depended on where the allocator put the declarations
(tests/cxx/elaborated_type.cc shows it).  Return them in source order.
---
 iwyu.cc          |  5 ++---
 iwyu_ast_util.cc | 23 ++++++++++++-----------
 iwyu_ast_util.h  |  9 +++++----
 iwyu_output.cc   |  4 ++--
 4 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 0373578..05f25bc 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1421,10 +1421,9 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     // If we're a template specialization, we also accept
     // forward-declarations of the underlying template (vector<T>, not
     // vector<int>).
-    set<const NamedDecl*> redecls = GetTagRedecls(decl);
+    vector<const NamedDecl*> redecls = GetTagRedecls(decl);
     if (const ClassTemplateSpecializationDecl* spec_decl = DynCastFrom(decl)) {
-      InsertAllInto(GetTagRedecls(spec_decl->getSpecializedTemplate()),
-                    &redecls);
+      Extend(&redecls, GetTagRedecls(spec_decl->getSpecializedTemplate()));
     }
 
     // Check if the author forward-declared the class in the same file.
diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 7ee6f94..19aa16c 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -11,6 +11,7 @@
 
 #include "iwyu_ast_util.h"
 
+#include <algorithm>                    // for reverse
 #include <set>                          // for set
 #include <string>                       // for string, operator+, etc
 #include <utility>                      // for pair
@@ -1267,18 +1268,17 @@ set<const NamedDecl*> GetNonTagRedecls(const NamedDecl* decl) {
   return retval;
 }
 
-set<const NamedDecl*> GetTagRedecls(const NamedDecl* decl) {
+vector<const NamedDecl*> GetTagRedecls(const NamedDecl* decl) {
   const TagDecl* tag_decl = DynCastFrom(decl);
   const ClassTemplateDecl* tpl_decl = DynCastFrom(decl);
   if (tpl_decl)
     tag_decl = tpl_decl->getTemplatedDecl();
   if (!tag_decl)
-    return set<const NamedDecl*>();
+    return vector<const NamedDecl*>();
 
-  set<const NamedDecl*> redecls;
-  for (TagDecl::redecl_iterator it = tag_decl->redecls_begin();
-       it != tag_decl->redecls_end(); ++it) {
-    const auto* redecl = cast<TagDecl>(*it);
+  vector<const NamedDecl*> redecls;
+  for (const TagDecl* redecl = tag_decl->getMostRecentDecl(); redecl;
+       redecl = redecl->getPreviousDecl()) {
     // If this decl is a friend decl, don't count it: friend decls
     // don't serve as forward-declarations.  (This should never
     // happen, I think, but it sometimes does due to a clang bug:
@@ -1291,11 +1291,12 @@ set<const NamedDecl*> GetTagRedecls(const NamedDecl* decl) {
       CHECK_(isa<CXXRecordDecl>(redecl) &&
              cast<CXXRecordDecl>(redecl)->getDescribedClassTemplate());
       const CXXRecordDecl* cxx_redecl = cast<CXXRecordDecl>(redecl);
-      redecls.insert(cxx_redecl->getDescribedClassTemplate());
+      redecls.push_back(cxx_redecl->getDescribedClassTemplate());
     } else {
-      redecls.insert(redecl);
+      redecls.push_back(redecl);
     }
   }
+  std::reverse(redecls.begin(), redecls.end());
   return redecls;
 }
 
@@ -1303,7 +1304,7 @@ const NamedDecl* GetFirstRedecl(const NamedDecl* decl) {
   const NamedDecl* first_decl = decl;
   SourceLocation first_decl_loc = GetLocation(first_decl);
 
-  set<const NamedDecl*> all_redecls = GetTagRedecls(decl);
+  vector<const NamedDecl*> all_redecls = GetTagRedecls(decl);
   if (all_redecls.empty())  // input is not a class or class template
     return nullptr;
 
@@ -1327,9 +1328,9 @@ const NamedDecl* GetNonfriendClassRedecl(const NamedDecl* decl) {
   if (!record_decl || !IsFriendDecl(record_decl))
     return decl;
 
-  set<const NamedDecl*> all_redecls = GetTagRedecls(decl);
+  vector<const NamedDecl*> all_redecls = GetTagRedecls(decl);
   CHECK_(!all_redecls.empty() && "Uncaught non-class decl");
-  return *all_redecls.begin();    // arbitrary choice
+  return all_redecls.front();    // arbitrary choice
 }
 
 bool DeclsAreInSameClass(const Decl* decl1, const Decl* decl2) {
diff --git a/iwyu_ast_util.h b/iwyu_ast_util.h
index 7ce346c..1d7ef39 100644
--- a/iwyu_ast_util.h
+++ b/iwyu_ast_util.h
@@ -678,14 +678,15 @@ bool HasDefaultTemplateParameters(const clang::TemplateDecl* decl);
 // can merge them.)
 set<const clang::NamedDecl*> GetNonTagRedecls(const clang::NamedDecl* decl);
 
-// Given a class, returns a set of all declarations of that class
-// (forward-declarations and, if present, the definition).  This
+// Given a class, returns all declarations of that class
+// (forward-declarations and, if present, the definition), in the
+// order they occur in the translation unit.  This
 // accepts both TagDecls and ClassTemplateDecls -- the return Decls
 // are guaranteed to be of the same type as the input Decl.  Returns
-// the empty set if the input is not a TagDecl or ClassTemplateDecl.
+// an empty vector if the input is not a TagDecl or ClassTemplateDecl.
 // Otherwise, always returns at least one element (since the input
 // decl is its own redecl).
-set<const clang::NamedDecl*> GetTagRedecls(const clang::NamedDecl* decl);
+std::vector<const clang::NamedDecl*> GetTagRedecls(const clang::NamedDecl* decl);
 
 // Returns the redecl of decl that occurs first in the translation
 // unit (that is, is the first one you'd see if you did 'cc -E').
diff --git a/iwyu_output.cc b/iwyu_output.cc
index be3e0fa..55fbba9 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1175,7 +1175,7 @@ void ProcessForwardDeclare(OneUse* use,
   // (A6) If a definition exists earlier in this file, discard this use.
   // Note: for the 'earlier' checks, what matters is the *instantiation*
   // location.
-  const set<const NamedDecl*> redecls = GetTagRedecls(tag_decl);
+  const vector<const NamedDecl*> redecls = GetTagRedecls(tag_decl);
   for (const NamedDecl* redecl : redecls) {
     CHECK_(isa<TagDecl>(redecl) && "GetTagRedecls has redecls of wrong type");
     const SourceLocation defined_loc = GetLocation(redecl);
@@ -1524,7 +1524,7 @@ void CalculateIwyuForForwardDeclareUse(
 
   // We also want to know if *any* redecl of this type is defined
   // in the same file as the use (and before it).
-  const set<const NamedDecl*>& redecls = GetTagRedecls(tag_decl);
+  const vector<const NamedDecl*> redecls = GetTagRedecls(tag_decl);
   for (const NamedDecl* redecl : redecls) {
     if (DeclIsVisibleToUseInSameFile(redecl, *use)) {
       same_file_decl = redecl;
-- 
2.43.0


From 08233eff9caf8322221d9cbb6cf89ede5a321525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 10/40] fix: report files in the order they were opened, not by
 address

The set of files to report is ordered by the address of its FileEntry
objects, so the order of the per-file records varied between runs.
---
 iwyu.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 05f25bc..cf8c24c 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -87,6 +87,7 @@
 //     already get it via foo.h, IWYU won't recommend foo.cc to
 //     #include bar.h, unless it already does so.
 
+#include <algorithm>                    // for sort
 #include <cstdio>
 #include <cstdlib>                      // for atoi, exit
 #include <functional>
@@ -4000,14 +4001,22 @@ class IwyuAstConsumer
     if (compiler()->getDiagnostics().hasUnrecoverableErrorOccurred())
       exit(EXIT_FAILURE);
 
-    const set<OptionalFileEntryRef>* const files_to_report_iwyu_violations_for =
-        preprocessor_info().files_to_report_iwyu_violations_for();
+    // The set is ordered by address; visit the files in the order they were
+    // first opened instead, so that every run writes the same report.
+    vector<OptionalFileEntryRef> files_to_report_iwyu_violations_for;
+    Extend(&files_to_report_iwyu_violations_for,
+           *preprocessor_info().files_to_report_iwyu_violations_for());
+    std::sort(files_to_report_iwyu_violations_for.begin(),
+              files_to_report_iwyu_violations_for.end(),
+              [](OptionalFileEntryRef lhs, OptionalFileEntryRef rhs) {
+                return lhs->getUID() < rhs->getUID();
+              });
 
     // Some analysis, such as UsingDecl resolution, is deferred until the
     // entire AST is visited because it's only at that point that we know if
     // the symbol was actually used or not.
     // We perform that analysis here before CalculateAndReportIwyuViolations.
-    for (OptionalFileEntryRef file : *files_to_report_iwyu_violations_for) {
+    for (OptionalFileEntryRef file : files_to_report_iwyu_violations_for) {
       CHECK_(preprocessor_info().FileInfoFor(file));
       preprocessor_info().FileInfoFor(file)->ResolvePendingAnalysis();
     }
@@ -4017,7 +4026,7 @@ class IwyuAstConsumer
     // need to figure out what those #includes are going to be.
     size_t num_edits = 0;
     OptionalFileEntryRef const main_file = preprocessor_info().main_file();
-    for (OptionalFileEntryRef file : *files_to_report_iwyu_violations_for) {
+    for (OptionalFileEntryRef file : files_to_report_iwyu_violations_for) {
       if (file == main_file)
         continue;
       CHECK_(preprocessor_info().FileInfoFor(file));
-- 
2.43.0


From 6aa2147dd1c0b72b84cc30ed6dcfa40168d819a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 11/40] fix: fix_includes: do not glue new lines to an
 unterminated last line

---
 fix_includes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 088da9a..a23d18a 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2231,6 +2231,10 @@ def FixFileLines(iwyu_record, file_lines, flags, fileinfo):
     # Add line separators to the new lines.
     new_lines = [nl.rstrip() + fileinfo.linesep for nl in new_lines]
 
+    # The last line of the file may lack a line separator.
+    if new_lines and output_lines and not output_lines[-1].endswith(('\n', '\r')):
+      output_lines[-1] += fileinfo.linesep
+
     output_lines.extend(new_lines)
     line_number = current_reorder_span[1]               # go to end of span
 
-- 
2.43.0


From 7b26994110981e71a3a022be515e8a3ad7bf74ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 12/40] fix: fix_includes: do not put forward declarations into
 unrelated namespaces

---
 fix_includes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index a23d18a..76251bd 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1359,7 +1359,9 @@ def _GetToplevelReorderSpans(file_lines):
     elif line_info.type == _NAMESPACE_CONTINUE_ALLMAN_MIXED_RE:
       namespace_depth += 1
     elif line_info.type == _NAMESPACE_END_RE:
+      # A } that closes something else must not outweigh a later namespace.
       namespace_depth -= max(line_info.line.count('}'), 1)
+      namespace_depth = max(namespace_depth, 0)
     if namespace_depth > 0:
       in_namespace[line_number] = True
       if line_info.type is None:
-- 
2.43.0


From ccad13e6fb74e6d42e96f2be9234acef718514b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 13/40] fix: fix_includes: keep the #endif of a conditional
 that has content

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 76251bd..52b39e9 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1116,7 +1116,8 @@ def _DeleteEmptyIfdefs(file_lines):
   num_ifdefs_deleted = 0
   start_line = 0
   while start_line < len(file_lines):
-    if file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE):
+    if (file_lines[start_line].deleted or
+        file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE)):
       start_line += 1
       continue
     end_line = start_line + 1
-- 
2.43.0


From 6b466db0a7c5fdaf2c3f5a7559658e1e0d151a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 14/40] fix: fix_includes: do not insert new lines inside a
 partly deleted block

---
 fix_includes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 52b39e9..5f2dff5 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1837,6 +1837,11 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
             first_reorder_spans
         if line_number >= first_reorder_spans[_FORWARD_DECLARE_KIND][0]:
           return first_reorder_spans[_FORWARD_DECLARE_KIND]
+      # The same goes for a span whose first lines are deleted: a new span
+      # inside it would lose the new lines or repeat those after it.
+      reorder_span = file_lines[line_number].reorder_span
+      if reorder_span and reorder_span[0] < line_number < reorder_span[1]:
+        return reorder_span
       return (line_number, line_number)
 
   # OK, I guess just insert at the end of the file
-- 
2.43.0


From 69181c9ccc569e84a22a0579d0c39c01aafa8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 15/40] fix: do not rely on forward-declarations the associated
 header loses

---
 iwyu_output.cc | 28 ++++++++++++++++++++++++----
 iwyu_output.h  |  3 +++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 55fbba9..6bca235 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1483,7 +1483,8 @@ void ProcessSymbolUse(OneUse* use,
 void CalculateIwyuForForwardDeclareUse(
     OneUse* use, const set<string>& actual_includes,
     const set<string>& desired_includes,
-    const set<OptionalFileEntryRef>& associated_includes) {
+    const set<OptionalFileEntryRef>& associated_includes,
+    const set<const NamedDecl*>& associated_fwd_decls_to_remove) {
   CHECK_(!use->ignore_use() && "Trying to calculate on an ignored use");
   CHECK_(use->decl() && "CalculateIwyuForForwardDeclareUse takes a fwd-decl");
   CHECK_(!use->is_full_use() && "ForwardDeclareUse are not full uses");
@@ -1533,10 +1534,14 @@ void CalculateIwyuForForwardDeclareUse(
   }
   // If there's no redecl in the .cc file, we'll accept a redecl in
   // an associated .h file.  Since associated .h files are always
-  // desired includes, we don't need to check for that.
+  // desired includes, we don't need to check for that.  But we can't
+  // rely on a forward-declare that the .h file is about to lose, unless
+  // we get the definition anyway.
   if (!same_file_decl) {
     for (const NamedDecl* redecl : redecls) {
-      if (ContainsKey(associated_includes, GetFileEntry(redecl))) {
+      if (ContainsKey(associated_includes, GetFileEntry(redecl)) &&
+          (dfn_is_in_desired_includes ||
+           !ContainsKey(associated_fwd_decls_to_remove, redecl))) {
         same_file_decl = redecl;
         break;
       }
@@ -1663,6 +1668,21 @@ void CalculateIwyuForFullUse(OneUse* use,
 
 }  // namespace internal
 
+set<const NamedDecl*> IwyuFileInfo::AssociatedForwardDeclaresToRemove() const {
+  set<const NamedDecl*> to_remove;
+  for (const IwyuFileInfo* associated : associated_headers_) {
+    for (const OneIncludeOrForwardDeclareLine& line : associated->lines_) {
+      if (line.IsIncludeLine() || line.is_desired())
+        continue;
+      if (const ClassTemplateDecl* tpl_decl = DynCastFrom(line.fwd_decl()))
+        to_remove.insert(tpl_decl->getTemplatedDecl());
+      else
+        to_remove.insert(line.fwd_decl());
+    }
+  }
+  return to_remove;
+}
+
 void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   VERRS(6) << "--- Calculating IWYU violations for "
            << GetFilePath(file_) << " ---\n";
@@ -1723,7 +1743,7 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
     } else if (!use.is_full_use()) {
       internal::CalculateIwyuForForwardDeclareUse(
           &use, effective_direct_includes, effective_desired_includes,
-          AssociatedFileEntries());
+          AssociatedFileEntries(), AssociatedForwardDeclaresToRemove());
     } else {
       internal::CalculateIwyuForFullUse(
           &use, effective_direct_includes, quoted_file_);
diff --git a/iwyu_output.h b/iwyu_output.h
index 8eb3338..0caf8ff 100644
--- a/iwyu_output.h
+++ b/iwyu_output.h
@@ -376,6 +376,9 @@ class IwyuFileInfo {
     return associated_desired_includes;
   }
 
+  // Forward-declares in associated headers that are going to be removed.
+  set<const clang::NamedDecl*> AssociatedForwardDeclaresToRemove() const;
+
   // Populates uses with full data, including is_iwyu_violation_.
   void CalculateIwyuViolations(vector<OneUse>* uses);
   // Uses uses to emit warning messages (at high enough verbosity).
-- 
2.43.0


From 9a58ce3baf96a12cf95684ff18be2ad18b0ccae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 16/40] fix: iwyu_tool: analyse an entry selected by several
 paths only once

---
 iwyu_tool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index ebe69e4..47f34cd 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -373,6 +373,7 @@ def slice_compilation_db(compilation_db, selection):
     selection = [os.path.realpath(p) for p in selection]
 
     new_db = []
+    selected = set()
     for path in selection:
         if not os.path.exists(path):
             print('warning: \'%s\' not found on disk.' % path, file=sys.stderr)
@@ -384,7 +385,9 @@ def slice_compilation_db(compilation_db, selection):
                   file=sys.stderr)
             continue
 
-        new_db.extend(found)
+        # Paths may overlap, but an entry is only to be analysed once.
+        new_db.extend(e for e in found if id(e) not in selected)
+        selected.update(id(e) for e in found)
 
     return new_db
 
-- 
2.43.0


From 77a67028debf7500e5a51baf305d185e6b1493a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:49 +0000
Subject: [PATCH 17/40] fix: do not give advice without the mappings asked for

---
 iwyu_include_picker.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 33fa421..443ca91 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -11,6 +11,7 @@
 
 #include <algorithm>                    // for find
 #include <cstddef>                      // for size_t
+#include <cstdlib>                      // for exit, EXIT_FAILURE
 // not hash_map: it's not as portable and needs hash<string>.
 #include <map>                          // for map, map<>::mapped_type, etc
 #include <memory>
@@ -40,6 +41,7 @@
 #include "llvm/Support/MemoryBuffer.h"
 #include "llvm/Support/SourceMgr.h"
 #include "llvm/Support/YAMLParser.h"
+#include "llvm/Support/raw_ostream.h"
 
 // TODO: Clean out pragmas as IWYU improves.
 // IWYU pragma: no_include <iterator>
@@ -1959,9 +1961,10 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
   llvm::ErrorOr<unique_ptr<MemoryBuffer>> bufferOrError =
       MemoryBuffer::getFile(absolute_path);
   if (std::error_code error = bufferOrError.getError()) {
-    VERRS(0) << "Cannot open mapping file '" << absolute_path
-             << "': " << error.message() << ".\n";
-    return;
+    // Without its mappings, all further advice would be wrong.
+    llvm::errs() << "FATAL ERROR: Cannot open mapping file '" << absolute_path
+                 << "': " << error.message() << ".\n";
+    exit(EXIT_FAILURE);
   }
 
   VERRS(5) << "Adding mappings from file '" << absolute_path << "'.\n";
-- 
2.43.0


From dfbb0334cd7d5d96adf972642188ecfc14fb868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 18/40] fix: fix_includes: match listed files however the
 report spells them

---
 fix_includes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 5f2dff5..8e21c97 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2342,7 +2342,7 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
     files that would have been modified.
   """
   if files_to_process is not None:
-    files_to_process = [NormalizeFilePath(cwd, fname)
+    files_to_process = [os.path.realpath(NormalizeFilePath(cwd, fname))
                         for fname in files_to_process]
 
   # First collect all the iwyu data from stdin.
@@ -2359,7 +2359,10 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
       print('ERROR: %s' % why)
       continue
     filename = NormalizeFilePath(flags.basedir, iwyu_record.filename)
-    if files_to_process is not None and filename not in files_to_process:
+    # The report may spell the name in another way than the commandline.
+    if (files_to_process is not None and
+        os.path.realpath(NormalizeFilePath(cwd, filename))
+        not in files_to_process):
       print('(skipping %s: not listed on commandline)' % filename)
       continue
     if flags.ignore_re and re.search(flags.ignore_re, filename):
-- 
2.43.0


From 8b63c9f072986d9ec4cf2145f0211da5b6d6274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 19/40] fix: do not list a forward-declaration twice

---
 iwyu_output.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 6bca235..f7f920d 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1801,6 +1801,17 @@ bool Contains(const vector<OneIncludeOrForwardDeclareLine>& lines,
   });
 }
 
+// Is there a line to be added that declares the same symbol as decl?  Uses in
+// one file may refer to different redeclarations of a symbol.
+bool ContainsAddedRedecl(const vector<OneIncludeOrForwardDeclareLine>& lines,
+                         const NamedDecl* decl) {
+  return std::any_of(lines.begin(), lines.end(),
+                     [&](const OneIncludeOrForwardDeclareLine& line) {
+    return !line.IsIncludeLine() && !line.is_present() &&
+           line.fwd_decl()->getCanonicalDecl() == decl->getCanonicalDecl();
+  });
+}
+
 template <class ContainerType>
 void ClearDesiredForSurplusIncludesOrForwardDeclares(ContainerType& container) {
   // Traverse multimap key by key.
@@ -1835,7 +1846,8 @@ void CalculateDesiredIncludesAndForwardDeclares(
       // Forward-declare uses that are already satisfied by an #include
       // have that as their suggested_header.  For the rest, we need to
       // make sure there's a forward-declare in the current file.
-      if (!Contains(*lines, use.decl())) { // must be added
+      if (!Contains(*lines, use.decl()) &&
+          !ContainsAddedRedecl(*lines, use.decl())) { // must be added
         // The OneIncludeOrForwardDeclareLine ctor sets up line
         // numbers, but they're for some other file!  Clear them.
         lines->push_back(OneIncludeOrForwardDeclareLine(use.decl()));
-- 
2.43.0


From 85bae05ae8c5207c9597f13df419821c6c5d6737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 20/40] fix: fix_includes: keep IWYU pragmas when updating
 comments

---
 fix_includes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 8e21c97..d546a2b 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -124,6 +124,8 @@ _HEADER_GUARD_RE = re.compile(r'$.HEADER_GUARD_RE')
 # know the previous line was a header-guard line, we're not that picky
 # about this one.
 _HEADER_GUARD_DEFINE_RE = re.compile(r'\s*#\s*define\s+')
+# Any pragma.  These comments must stay on their line.
+_IWYU_PRAGMA_RE = re.compile(r'IWYU\s*pragma:')
 # Pragma to mark the associated header (for use when it cannot be deduced from
 # the filename)
 _IWYU_PRAGMA_ASSOCIATED_RE = re.compile(r'IWYU\s*pragma:\s*associated')
@@ -1947,7 +1949,8 @@ def _DecoratedMoveSpanLines(iwyu_record, file_lines, move_span_lines, flags):
     # to do the comment-replacing first.
     sort_key = firstline.line
     iwyu_version = iwyu_record.full_include_lines.get(m.group(1), '')
-    if _COMMENT_LINE_RE.search(iwyu_version):  # the iwyu version has comments
+    if (_COMMENT_LINE_RE.search(iwyu_version) and  # the iwyu version has comments
+        not _IWYU_PRAGMA_RE.search(firstline.line)):  # and ours is no pragma
       sort_key = iwyu_version                  # replace the comments
     all_lines = ([li.line for li in move_span_lines[:-1] if not li.deleted] +
                  [sort_key])
-- 
2.43.0


From 1f2067b862440867b0c70ebae85321e2969de968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 21/40] fix: fix_includes: leave IWYU pragma lines in place

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index d546a2b..0d912c2 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -867,7 +867,8 @@ def _LineNumberStartingPrecedingComments(file_lines, line_number):
       top-of-file copyright notice.
   """
   retval = line_number
-  while retval > 0 and file_lines[retval - 1].type == _COMMENT_LINE_RE:
+  while (retval > 0 and file_lines[retval - 1].type == _COMMENT_LINE_RE and
+         not _IWYU_PRAGMA_RE.search(file_lines[retval - 1].line)):
     retval -= 1
   if retval <= 1:          # top-of-line comments
     retval = line_number   # so ignore all the comment lines
-- 
2.43.0


From 56a32e15cc2d1e5a84fda05a023303c5ad540d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 22/40] fix: look for backwards #includes by file, not by name

Two files may have the same quoted name (a wrapper using #include_next), and
which of them was asked depended on their addresses.
---
 iwyu_output.cc       | 2 +-
 iwyu_preprocessor.cc | 9 ---------
 iwyu_preprocessor.h  | 4 ----
 3 files changed, 1 insertion(+), 14 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index f7f920d..4e99474 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1459,7 +1459,7 @@ void ProcessSymbolUse(OneUse* use,
   // that only happens with hard-coded uses, which we shouldn't second guess.
   // TODO(csilvers): like (B5), remove this when we have 'soft' uses.
   if (!use->has_suggested_header() &&
-      preprocessor_info->FileTransitivelyIncludes(quoted_decl_file, use_file)) {
+      preprocessor_info->FileTransitivelyIncludes(use->decl_file(), use_file)) {
     VERRS(6) << "Ignoring use of " << use->symbol_name()
              << " (" << use->PrintableUseLoc() << "): 'backwards' #include\n";
     use->set_ignore_use();
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 9acde4f..2456ec0 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -1148,15 +1148,6 @@ bool IwyuPreprocessorInfo::FileTransitivelyIncludes(
   return false;
 }
 
-bool IwyuPreprocessorInfo::FileTransitivelyIncludes(
-    const string& quoted_includer, OptionalFileEntryRef includee) const {
-  for (const auto& entry : transitive_include_map_) {
-    if (ConvertToQuotedInclude(GetFilePath(entry.first)) == quoted_includer)
-      return ContainsKey(entry.second, includee);
-  }
-  return false;
-}
-
 bool IwyuPreprocessorInfo::IncludeIsInhibited(
     OptionalFileEntryRef file, const string& other_filename) const {
   const set<string>* inhibited_includes = FindInMap(&no_include_map_, file);
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 9be44b4..f9ee6d7 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -148,10 +148,6 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
                                 clang::OptionalFileEntryRef includee) const;
   bool FileTransitivelyIncludes(clang::OptionalFileEntryRef includer,
                                 const string& quoted_includee) const;
-  // This seems like a weird way to call this function, but we
-  // happen to need this in iwyu_output.cc:
-  bool FileTransitivelyIncludes(const string& quoted_includer,
-                                clang::OptionalFileEntryRef includee) const;
 
   // Return true if the given file has
   // "// IWYU pragma: no_include <other_filename>".
-- 
2.43.0


From a46c78e472411dbc094baaac0555907e20183996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 23/40] fix: add dynamic mappings in the order files were
 opened

The candidates for a header that uses macros of several includers were listed
in the order of the includers' addresses, which decided the advice.
---
 iwyu_preprocessor.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 2456ec0..2347340 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -9,6 +9,8 @@
 
 #include "iwyu_preprocessor.h"
 
+#include <algorithm>                    // for sort
+#include <cstdint>                      // for int64_t
 #include <cstring>
 #include <optional>
 #include <string>                       // for string, basic_string, etc
@@ -1071,8 +1073,17 @@ void IwyuPreprocessorInfo::HandlePreprocessingDone() {
   FileChanged_ExitToFile(SourceLocation(), main_file_);
 
   // Other post-processing steps.
+  // This may add mappings, whose order matters, so visit the files in the order
+  // they were first opened rather than by address.
+  vector<pair<int64_t, IwyuFileInfo*>> file_infos;
   for (auto& file_info_map_entry : iwyu_file_info_map_) {
-    file_info_map_entry.second.HandlePreprocessingDone();
+    OptionalFileEntryRef file = file_info_map_entry.first;
+    file_infos.emplace_back(file ? int64_t(file->getUID()) : -1,
+                            &file_info_map_entry.second);
+  }
+  std::sort(file_infos.begin(), file_infos.end());
+  for (const auto& file_info : file_infos) {
+    file_info.second->HandlePreprocessingDone();
   }
   MutableGlobalIncludePicker()->FinalizeAddedIncludes();
   FinalizeProtectedIncludes();
-- 
2.43.0


From ce137ac73d255a83c02ac210e78643193ed537f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 24/40] fix: resolve unused using-declarations in source order

They were resolved in the order of their addresses, and which header provides
several of them depends on the order of the uses.
---
 iwyu_output.cc | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 4e99474..b9c336e 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -2282,19 +2282,27 @@ void IwyuFileInfo::ResolvePendingAnalysis() {
   // thorough approach would be to scan the current list of includes that
   // already name this decl (like in the overloaded function case) and include
   // one of those so we don't include a file we don't actually need.
+  vector<const UsingDecl*> unreferenced_using_decls;
   for (map<const UsingDecl*, bool>::value_type using_decl_status
       : using_decl_referenced_) {
-    if (!using_decl_status.second) {
-      // There are valid cases where there is no shadow decl, e.g. if a derived
-      // class has a using declaration for a member, but also hides it.
-      // Only report the target if we have a shadow decl.
-      const UsingDecl* using_decl = using_decl_status.first;
-      if (using_decl->shadow_size() > 0) {
-        ReportForwardDeclareUse(using_decl->getUsingLoc(),
-                                using_decl->shadow_begin()->getTargetDecl(),
-                                /* flags */ UF_None,
-                                "(for un-referenced using)");
-      }
+    if (!using_decl_status.second)
+      unreferenced_using_decls.push_back(using_decl_status.first);
+  }
+  // The order of uses may matter, so don't let it depend on addresses.
+  sort(unreferenced_using_decls.begin(), unreferenced_using_decls.end(),
+       [](const UsingDecl* lhs, const UsingDecl* rhs) {
+         return GlobalSourceManager()->isBeforeInTranslationUnit(
+             lhs->getLocation(), rhs->getLocation());
+       });
+  for (const UsingDecl* using_decl : unreferenced_using_decls) {
+    // There are valid cases where there is no shadow decl, e.g. if a derived
+    // class has a using declaration for a member, but also hides it.
+    // Only report the target if we have a shadow decl.
+    if (using_decl->shadow_size() > 0) {
+      ReportForwardDeclareUse(using_decl->getUsingLoc(),
+                              using_decl->shadow_begin()->getTargetDecl(),
+                              /* flags */ UF_None,
+                              "(for un-referenced using)");
     }
   }
 }
-- 
2.43.0


From 3e98095722d85de7433908904ce6d810cd8042d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 25/40] fix: choose among spellings of a type regardless of
 addresses

Which of several spellings of a template argument was used to report it
depended on where the compiler had allocated them.
---
 iwyu_ast_util.cc | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 19aa16c..883e69c 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -873,6 +873,27 @@ set<FunctionDecl*> GetLateParsedFunctionDecls(TranslationUnitDecl* decl) {
   return v.late_parsed_decls;
 }
 
+// Helper for the Get*ResugarMap*() functions.  Given two ways of writing the
+// same type, returns the one to resugar it with, whatever their order (types
+// are usually held in sets, which order them by address).
+static const Type* PreferredSugar(const Type* lhs, const Type* rhs) {
+  if (lhs == rhs)
+    return lhs;
+  // Prefer anything to the canonical form.
+  if (lhs == GetCanonicalType(lhs))
+    return rhs;
+  if (rhs == GetCanonicalType(rhs))
+    return lhs;
+  return PrintableType(lhs) <= PrintableType(rhs) ? lhs : rhs;
+}
+
+// Like above, but adds the way to write a type to a desugared->resugared map.
+static void AddPreferredSugar(const Type* desugared_type, const Type* type,
+                              map<const Type*, const Type*>* resugar_map) {
+  const Type*& sugar = (*resugar_map)[desugared_type];
+  sugar = sugar ? PreferredSugar(sugar, type) : type;
+}
+
 // Helper for the Get*ResugarMap*() functions.  Given a map from
 // desugared->resugared types, looks at each component of the
 // resugared type (eg, both hash_set<Foo>* and vector<hash_set<Foo>>
@@ -888,8 +909,8 @@ static map<const Type*, const Type*> ResugarTypeComponents(
     const set<const Type*>& components = GetComponentsOfType(types.second);
     for (const Type* component_type : components) {
       const Type* desugared_type = GetCanonicalType(component_type);
-      if (!ContainsKey(retval, desugared_type)) {
-        retval[desugared_type] = component_type;
+      if (!ContainsKey(resugar_map, desugared_type)) {
+        AddPreferredSugar(desugared_type, component_type, &retval);
         VERRS(6) << "Adding a type-components of interest: "
                  << PrintableType(component_type) << "\n";
       }
@@ -1081,12 +1102,13 @@ TemplateInstantiationData GetTplInstDataForFunction(
     InsertAllInto(GetComponentsOfType(argtype), &fn_arg_types);
   }
 
+  map<const Type*, const Type*> fn_arg_resugar_map;
   for (const Type* type : fn_arg_types) {
     // See if any of the template args in resugar_map are the desugared form
     // of us.
     const Type* desugared_type = GetCanonicalType(type);
     if (ContainsKey(desugared_types, desugared_type)) {
-      resugar_map[desugared_type] = type;
+      AddPreferredSugar(desugared_type, type, &fn_arg_resugar_map);
       if (desugared_type != type) {
         VERRS(6) << "Remapping template arg of interest: "
                  << PrintableType(desugared_type) << " -> "
@@ -1101,6 +1123,9 @@ TemplateInstantiationData GetTplInstDataForFunction(
     InsertAllInto(provided_getter(type), &provided_types);
   }
 
+  for (const auto& types : fn_arg_resugar_map)
+    resugar_map[types.first] = types.second;
+
   InsertAllInto(GetDefaultedArgResugarMap(decl), &resugar_map);
 
   // Log the types we never mapped.
@@ -1615,7 +1640,7 @@ static TemplateInstantiationData GetTplInstDataForClassNoComponentTypes(
       for (unsigned i = 0; i < num_args; ++i) {
         if (const Type* arg_type = GetTemplateArgAsType(tpl_args[i])) {
           if (GetCanonicalType(type) == GetCanonicalType(arg_type)) {
-            retval[arg_type] = type;
+            AddPreferredSugar(arg_type, type, &retval);
             VERRS(6) << "Adding a template-class type of interest: "
                      << PrintableType(arg_type) << " -> " << PrintableType(type)
                      << "\n";
-- 
2.43.0


From be73b8e56b334e2ae0dff9a3b72a74db9a20c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 26/40] fix: report what a template uses in the order it uses
 it

The uses recorded for an instantiated template, and those known for containers
of the standard library, were reported in the order of addresses, on which
warnings, comments and the choice among headers depend.
---
 iwyu.cc      | 13 ++++++++++---
 iwyu_cache.h | 28 +++++++++++++++++-----------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index cf8c24c..78d5d40 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1603,7 +1603,7 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
   }
 
   void ReportDeclsUse(SourceLocation used_loc,
-                      const set<const NamedDecl*>& decls) {
+                      const vector<const NamedDecl*>& decls) {
     for (const NamedDecl* decl : decls)
       ReportDeclUse(used_loc, decl);
   }
@@ -1615,7 +1615,8 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     ReportTypeUseInternal(used_loc, type, blocked_types_, deref_kind);
   }
 
-  void ReportTypesUse(SourceLocation used_loc, const set<const Type*>& types) {
+  void ReportTypesUse(SourceLocation used_loc,
+                      const vector<const Type*>& types) {
     for (const Type* type : types)
       ReportTypeUse(used_loc, type, DerefKind::None);
   }
@@ -3842,11 +3843,17 @@ class InstantiatedTemplateVisitor
 
     VERRS(6) << "(Using pre-computed list of full-use information for "
              << tpl_decl->getQualifiedNameAsString() << ")\n";
+    // The map is ordered by address, but the order of uses may matter.
+    vector<pair<const Type*, const Type*>> entries(resugar_map.begin(),
+                                                   resugar_map.end());
+    sort(entries.begin(), entries.end(), [](const auto& lhs, const auto& rhs) {
+      return PrintableType(lhs.first) < PrintableType(rhs.first);
+    });
     // For entries with a non-nullptr value, we report the value, which
     // is the unsugared type, as being fully used.  Entries with a
     // nullptr value are default template args, and we only report them
     // if the template class doesn't intend-to-provide them.
-    for (const auto& item : resugar_map) {
+    for (const auto& item : entries) {
       const Type* resugared_type = nullptr;
       if (item.second) {
         resugared_type = item.second;
diff --git a/iwyu_cache.h b/iwyu_cache.h
index 352f228..cc4f6ec 100644
--- a/iwyu_cache.h
+++ b/iwyu_cache.h
@@ -18,6 +18,7 @@
 #include <map>                          // for map
 #include <set>                          // for set
 #include <utility>                      // for pair
+#include <vector>                       // for vector
 
 #include "clang/AST/Type.h"
 #include "iwyu_port.h"  // for CHECK_
@@ -36,6 +37,7 @@ namespace include_what_you_use {
 using std::map;
 using std::pair;
 using std::set;
+using std::vector;
 
 // This cache is used to store 'full use information' for a given
 // templated function call or type instantiation:
@@ -64,14 +66,14 @@ class FullUseCache {
   // what the types-of-interest were, we store that in the key too.
   typedef pair<const void*,
                map<const clang::Type*, const clang::Type*>> Key;
-  // The value are the types and decls we reported.
-  typedef pair<const set<const clang::Type*>,
-               const set<const clang::NamedDecl*>> Value;
+  // The value are the types and decls we reported, in that order.
+  typedef pair<const vector<const clang::Type*>,
+               const vector<const clang::NamedDecl*>> Value;
 
   void Insert(const void* decl_or_type,
               const map<const clang::Type*, const clang::Type*>& resugar_map,
-              const set<const clang::Type*>& reported_types,
-              const set<const clang::NamedDecl*>& reported_decls) {
+              const vector<const clang::Type*>& reported_types,
+              const vector<const clang::NamedDecl*>& reported_decls) {
     // TODO(csilvers): should in_forward_declare_context() be in Key too?
     cache_.insert(pair<Key,Value>(Key(decl_or_type, resugar_map),
                                   Value(reported_types, reported_decls)));
@@ -87,7 +89,7 @@ class FullUseCache {
 
   // You must call Contains() before calling these, to make sure the
   // key is in the cache.
-  const set<const clang::Type*>& GetFullUseTypes(
+  const vector<const clang::Type*>& GetFullUseTypes(
       const void* key,
       const map<const clang::Type*, const clang::Type*>& resugar_map) const {
     const Value* value = FindInMap(&cache_, Key(key, resugar_map));
@@ -95,7 +97,7 @@ class FullUseCache {
     return value->first;
   }
 
-  const set<const clang::NamedDecl*>& GetFullUseDecls(
+  const vector<const clang::NamedDecl*>& GetFullUseDecls(
       const void* key,
       const map<const clang::Type*, const clang::Type*>& resugar_map) const {
     const Value* value = FindInMap(&cache_, Key(key, resugar_map));
@@ -155,10 +157,12 @@ class CacheStoringScope {
   // These are what ReportDeclUse() and ReportTypeUse() call to
   // populate this cache entry.
   void NoteReportedType(const clang::Type* type) {
-    reported_types_.insert(type);
+    if (seen_types_.insert(type).second)
+      reported_types_.push_back(type);
   }
   void NoteReportedDecl(const clang::NamedDecl* decl) {
-    reported_decls_.insert(decl);
+    if (seen_decls_.insert(decl).second)
+      reported_decls_.push_back(decl);
   }
 
  private:
@@ -166,8 +170,10 @@ class CacheStoringScope {
   FullUseCache* const cache_;
   const void* const key_;
   const map<const clang::Type*, const clang::Type*>& resugar_map_;
-  set<const clang::Type*> reported_types_;
-  set<const clang::NamedDecl*> reported_decls_;
+  vector<const clang::Type*> reported_types_;
+  vector<const clang::NamedDecl*> reported_decls_;
+  set<const clang::Type*> seen_types_;
+  set<const clang::NamedDecl*> seen_decls_;
 };
 
 }  // namespace include_what_you_use
-- 
2.43.0


From 2ae8c1ab92753691e6c94a26b01d54d7385f6390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 27/40] fix: what a header provides does not depend on the
 order of its #includes

Following a public header's includes stopped at those that happened to be known
already, in the order of addresses.
---
 iwyu_preprocessor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 2347340..aecc4e8 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -1004,8 +1004,12 @@ void IwyuPreprocessorInfo::PopulateIntendsToProvideMap() {
           fileinfo.second.direct_includes_as_fileentries();
       for (OptionalFileEntryRef inc : direct_includes) {
         intends_to_provide_map_[file].insert(inc);
-        if (picker.IsPublic(inc))
-          AddAllIncludesAsFileEntries(inc, &intends_to_provide_map_[file]);
+        if (picker.IsPublic(inc)) {
+          // Start afresh: what includes are there already must not matter.
+          set<OptionalFileEntryRef> all_includes;
+          AddAllIncludesAsFileEntries(inc, &all_includes);
+          InsertAllInto(all_includes, &intends_to_provide_map_[file]);
+        }
       }
     }
   }
-- 
2.43.0


From 103a218b74bf1981104e0d7da27b79017b390b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 28/40] fix: a protected #include is not asked for under
 another name

---
 iwyu_include_picker.h | 12 ++++++------
 iwyu_preprocessor.cc  | 11 +++++++----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 44275e1..b9bde09 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -193,6 +193,12 @@ class IncludePicker {
                                         const string& use_path,
                                         const string& decl_filepath) const;
 
+  // Given an includer-pathname and includee-pathname, return the
+  // quoted-include of the includee, as written in the includer, or
+  // "" if it's not found for some reason.
+  string MaybeGetIncludeNameAsWritten(const string& includer_filepath,
+                                      const string& includee_filepath) const;
+
  private:
   // Private implementation of mapping file parser, which takes
   // mapping file search path to allow recursion that builds up
@@ -247,12 +253,6 @@ class IncludePicker {
   vector<MappedInclude> GetPublicValues(const IncludeMap& m,
                                         const string& key) const;
 
-  // Given an includer-pathname and includee-pathname, return the
-  // quoted-include of the includee, as written in the includer, or
-  // "" if it's not found for some reason.
-  string MaybeGetIncludeNameAsWritten(const string& includer_filepath,
-                                      const string& includee_filepath) const;
-
   // Given a collection of MappedIncludes, and a path that might include them,
   // choose the best quoted include form for each MappedInclude.
   vector<string> BestQuotedIncludesForIncluder(
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index aecc4e8..e64a4a4 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -542,19 +542,22 @@ void IwyuPreprocessorInfo::FinalizeProtectedIncludes() {
     for (OptionalFileEntryRef include :
          includer.direct_includes_as_fileentries()) {
       const string includee_path = GetFilePath(include);
+      // Protect the include as it is written, or we would ask for a second one.
+      string quoted_include = GlobalIncludePicker().MaybeGetIncludeNameAsWritten(
+          includer_path, includee_path);
+      if (quoted_include.empty())
+        quoted_include = ConvertToQuotedInclude(includee_path);
       if (GlobalIncludePicker().HasMapping(includee_path, includer_path)) {
         // If includer re-exports includee, that counts as a "use" of it, so
         // protect the include.
-        includer.ReportIncludeFileUse(include,
-                                      ConvertToQuotedInclude(includee_path));
+        includer.ReportIncludeFileUse(include, quoted_include);
         ERRSYM(includer_file)
             << "Marked dep: " << includer_path << " needs to keep "
             << includee_path << " (reason: re-exports)\n";
       } else if (always_keep_files_.count(include) > 0) {
         // Includee itself contains an "always_keep" pragma that protects it
         // from removal in all includers.
-        includer.ReportIncludeFileUse(include,
-                                      ConvertToQuotedInclude(includee_path));
+        includer.ReportIncludeFileUse(include, quoted_include);
         includer.ReportKnownDesiredFile(include);
         ERRSYM(includer_file)
             << "Marked dep: " << includer_path << " needs to keep "
-- 
2.43.0


From 2cd17397c3f28493a7999246d4c1de72e561065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 29/40] fix: --comment_style=long names declared symbols in
 full, too

---
 iwyu_output.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index b9c336e..cd3c1ba 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1912,7 +1912,9 @@ void CalculateDesiredIncludesAndForwardDeclares(
     } else if (ContainsKey(include_map, use.suggested_header())) {
       // If we satisfy a forward-declare use from a file, let the file
       // know (this is just for logging).
-      const string symbol_name = use.short_symbol_name();
+      const string symbol_name = GlobalFlags().comments_with_namespace
+                                     ? use.symbol_name()
+                                     : use.short_symbol_name();
 
       auto range = include_map.equal_range(use.suggested_header());
       for (auto it = range.first; it != range.second; ++it) {
-- 
2.43.0


From 170fc4cb2364ec70b53028c2d1e407e493d436bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 30/40] fix: what is exported is exported even if it is kept by
 other means

---
 iwyu_preprocessor.cc | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index e64a4a4..f1d1d80 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -470,26 +470,18 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
   if (IsSpecialFile(includer))
     return;
 
-  string protect_reason;
-  // We always keep lines with pragmas "keep" or "export".
   // TODO(dsturtevant): As written "// // IWYU pragma: keep" is incorrectly
   // interpreted as a pragma. Maybe do "keep" and "export" pragma handling
   // in HandleComment?
-  if (LineHasText(includer_loc, "// IWYU pragma: keep") ||
-      LineHasText(includer_loc, "/* IWYU pragma: keep") ||
-      HasOpenBeginKeep(includer)) {
-    protect_reason = "pragma_keep";
-    FileInfoFor(includer)->ReportKnownDesiredFile(includee);
-
-  } else if (ShouldKeepIncludeFor(includee)) {
-    // The command line version of pragma keep.
-    protect_reason = "--keep";
-    FileInfoFor(includer)->ReportKnownDesiredFile(includee);
-
-  } else if (LineHasText(includer_loc, "// IWYU pragma: export") ||
-             LineHasText(includer_loc, "/* IWYU pragma: export") ||
-             HasOpenBeginExports(includer)) {
-    protect_reason = "pragma_export";
+  const bool keep_pragma = LineHasText(includer_loc, "// IWYU pragma: keep") ||
+                           LineHasText(includer_loc, "/* IWYU pragma: keep");
+  // What is exported is exported even if other means keep the #include, too.
+  const bool exported =
+      !keep_pragma &&
+      (LineHasText(includer_loc, "// IWYU pragma: export") ||
+       LineHasText(includer_loc, "/* IWYU pragma: export") ||
+       HasOpenBeginExports(includer));
+  if (exported) {
     const string includer_path = GetFilePath(includer);
     const string quoted_includer = ConvertToQuotedInclude(includer_path);
     MappedInclude map_to(quoted_includer, includer_path);
@@ -507,6 +499,21 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
                << ")\n";
       MutableGlobalIncludePicker()->AddMapping(map_from, map_to);
     }
+  }
+
+  string protect_reason;
+  // We always keep lines with pragmas "keep" or "export".
+  if (keep_pragma || HasOpenBeginKeep(includer)) {
+    protect_reason = "pragma_keep";
+    FileInfoFor(includer)->ReportKnownDesiredFile(includee);
+
+  } else if (ShouldKeepIncludeFor(includee)) {
+    // The command line version of pragma keep.
+    protect_reason = "--keep";
+    FileInfoFor(includer)->ReportKnownDesiredFile(includee);
+
+  } else if (exported) {
+    protect_reason = "pragma_export";
 
   // We also always keep #includes of .c files: iwyu doesn't touch those.
   // TODO(csilvers): instead of IsHeaderFile, check if the file has
-- 
2.43.0


From 896c3cd63995378f0e442213716a1c7650d21468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 31/40] fix: an #include that is not there is not kept

---
 iwyu_output.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index cd3c1ba..c697529 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1942,7 +1942,7 @@ void CalculateDesiredIncludesAndForwardDeclares(
 
   // Now reset all files included with "IWYU pragma: keep" as desired.
   for (OneIncludeOrForwardDeclareLine& line : *lines) {
-    if (!line.is_desired() && line.IsIncludeLine() &&
+    if (!line.is_desired() && line.IsIncludeLine() && line.is_present() &&
         ContainsKey(kept_includes, line.included_file())) {
       line.set_desired();
     }
-- 
2.43.0


From b2c50bb2c5b74eb4a6a8e816c9af6c4006389638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 32/40] fix: several headers of one name provide the same, in
 any order

---
 iwyu_preprocessor.cc | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index f1d1d80..f34d1e0 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -1023,20 +1023,25 @@ void IwyuPreprocessorInfo::PopulateIntendsToProvideMap() {
       }
     }
   }
-  // Ugh, we can have two files with the same name, using
-  // #include-next.  Merge them.
-  for (const auto& fileinfo : iwyu_file_info_map_) {
-    OptionalFileEntryRef file = fileinfo.first;
-    // See if a round-trip to string and back ends up at a different file.
-    const string quoted_include = ConvertToQuotedInclude(GetFilePath(file));
-    OptionalFileEntryRef other_file =
-        GetOrDefault(include_to_fileentry_map_, quoted_include, file);
-    if (other_file != file) {
-      InsertAllInto(intends_to_provide_map_[file],
-                    &intends_to_provide_map_[other_file]);
-      // TODO(csilvers): this isn't enough if there are *more* than 2
-      // files with the same name.
-      intends_to_provide_map_[file] = intends_to_provide_map_[other_file];
+  // Ugh, we can have several files with the same name, using
+  // #include-next.  Merge them.  Go on until nothing changes, so that
+  // neither their number nor their order matters.
+  bool merged = true;
+  while (merged) {
+    merged = false;
+    for (const auto& fileinfo : iwyu_file_info_map_) {
+      OptionalFileEntryRef file = fileinfo.first;
+      // See if a round-trip to string and back ends up at a different file.
+      const string quoted_include = ConvertToQuotedInclude(GetFilePath(file));
+      OptionalFileEntryRef other_file =
+          GetOrDefault(include_to_fileentry_map_, quoted_include, file);
+      if (other_file != file &&
+          intends_to_provide_map_[file] != intends_to_provide_map_[other_file]) {
+        InsertAllInto(intends_to_provide_map_[file],
+                      &intends_to_provide_map_[other_file]);
+        intends_to_provide_map_[file] = intends_to_provide_map_[other_file];
+        merged = true;
+      }
     }
   }
   // Finally, for convenience, we'll say every private header file
-- 
2.43.0


From 45366d569e664cf39174fdd01e2fc94fa2dfaa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 33/40] fix: fix_includes put new includes below the first line
 of code in a whole-file #if

---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 0d912c2..9e2ce67 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1819,7 +1819,9 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
       line_number += 1
     elif file_lines[line_number].type == _HEADER_GUARD_RE:
       seen_header_guard = True
-      line_number += 2    # skip over the header guard
+      line_number += 1    # skip over the header guard...
+    elif file_lines[line_number].type == _HEADER_GUARD_DEFINE_RE:
+      line_number += 1    # ...and its #define, if it has one
     elif file_lines[line_number].type == _BLANK_LINE_RE:
       line_number += 1
     elif file_lines[line_number].type == _PRAGMA_ONCE_LINE_RE:
-- 
2.43.0


From b6ff2fa98348966d903481bb151c67fc54cbb0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 34/40] fix: a kept forward declaration stays even if its class
 has attributes

---
 iwyu.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 78d5d40..0537331 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -140,6 +140,7 @@
 #include "iwyu_use_flags.h"
 #include "iwyu_verrs.h"
 #include "llvm/ADT/ArrayRef.h"
+#include "llvm/ADT/STLExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/ADT/iterator_range.h"
 #include "llvm/Support/Casting.h"
@@ -4208,13 +4209,10 @@ class IwyuAstConsumer
       // that attributes are consistent between declarations, so we can't
       // remove a decl with attributes unless they're inherited, i.e. propagated
       // from another redeclaration as opposed to explicitly written.
-      } else if (decl->hasAttrs()) {
-        for (const Attr* attr : decl->getAttrs()) {
-          if (!attr->isInherited()) {
-            definitely_keep_fwd_decl = true;
-            break;
-          }
-        }
+      } else if (llvm::any_of(decl->attrs(), [](const Attr* attr) {
+                   return !attr->isInherited();
+                 })) {
+        definitely_keep_fwd_decl = true;
 
       // (3) If we're a nested class ("class A { class SubA; };"),
       // then we can't necessary be removed either, since we're part
@@ -4237,9 +4235,11 @@ class IwyuAstConsumer
               definitely_keep_fwd_decl = true;
           }
         }
-      } else if (preprocessor_info().ForwardDeclareIsMarkedKeep(decl)) {
-        definitely_keep_fwd_decl = true;
-      } else if (preprocessor_info().ForwardDeclareIsExported(decl)) {
+      }
+
+      // (4) Whatever it is, the author may want to keep or to export it.
+      if (preprocessor_info().ForwardDeclareIsMarkedKeep(decl) ||
+          preprocessor_info().ForwardDeclareIsExported(decl)) {
         definitely_keep_fwd_decl = true;
       }
 
-- 
2.43.0


From 9ec0598a94f25540f8da09809b20de51a9afd347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 35/40] fix: a use that a declaration cannot serve is one of
 the definition

---
 iwyu_output.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index c697529..df85384 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1144,6 +1144,11 @@ void ProcessForwardDeclare(OneUse* use,
     }
   }
 
+  // A full use is one of the definition: another declaration, which this file
+  // may happen to have, does not help.
+  if (use->is_full_use())
+    use->reset_decl(GetDefinitionAsWritten(use->decl()));
+
   // (A5) If using a nested class or a type declared inside a function, discard
   // this use.
   if (IsNestedClass(tag_decl)) {
-- 
2.43.0


From 55fd9b5d71c95998f4b9ec22a19437d534019379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 36/40] fix: --no_fwd_decls prefers headers to declarations of
 templates, too

---
 iwyu_output.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index df85384..93faad4 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1213,8 +1213,11 @@ void ProcessForwardDeclare(OneUse* use,
   // so we can just let IWYU do its work, and there is no need to recategorize.
   if (!use->ignore_use() && GlobalFlags().no_fwd_decls) {
     bool promote_to_full_use = true;
-    for (const Decl* decl = use->decl(); decl != nullptr;
-         decl = decl->getPreviousDecl()) {
+    const Decl* decl = use->decl();
+    // What is declared elsewhere, is the template.
+    if (spec_decl && !spec_decl->isExplicitInstantiationOrSpecialization())
+      decl = tpl_decl;
+    for (; decl != nullptr; decl = decl->getPreviousDecl()) {
       if (IsBeforeInSameFile(decl->getLocation(), use->use_loc())) {
         promote_to_full_use = false;
       } else if (IsBeforeInTranslationUnit(decl->getLocation(),
-- 
2.43.0


From f7ff70d00349fec32a28247c9c2fcdc22f27c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 37/40] fix: no_forward_declare spares the only declaration of
 a class

---
 iwyu_output.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 93faad4..b7cb592 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -823,6 +823,18 @@ bool DeclIsVisibleToUseInSameFile(const Decl* decl, const OneUse& use) {
            (use.flags() & UF_InCxxMethodBody)));
 }
 
+// Whether there is no definition of the tag, but a declaration visible to the
+// use in its own file.
+bool SeesOnlyDeclarationInSameFile(const TagDecl* tag_decl, const OneUse& use) {
+  if (GetTagDefinition(tag_decl) != nullptr)
+    return false;
+  for (const NamedDecl* redecl : GetTagRedecls(tag_decl)) {
+    if (DeclIsVisibleToUseInSameFile(redecl, use))
+      return true;
+  }
+  return false;
+}
+
 // This makes a best-effort attempt to find the smallest set of
 // #include files that satisfy all uses.  A more accurate name
 // might be "calculate minimal-ish includes". :-)  It populates
@@ -1134,9 +1146,12 @@ void ProcessForwardDeclare(OneUse* use,
   // (A4) If the file containing the use has a pragma inhibiting the forward
   // declaration of the symbol, change the use to a full info use in order
   // to make sure that the compiler can see some declaration of the symbol.
+  // If there is no definition, and this file's own declaration is what it sees,
+  // there is nothing to use in full.
   if (!use->is_full_use()) {
     if (preprocessor_info->ForwardDeclareIsInhibited(
-            GetFileEntry(use->use_loc()), use->symbol_name())) {
+            GetFileEntry(use->use_loc()), use->symbol_name()) &&
+        !SeesOnlyDeclarationInSameFile(tag_decl, *use)) {
       VERRS(6) << "Changing fwd-decl use of " << use->symbol_name()
                << " (" << use->PrintableUseLoc()
                << ") to a full-info use: no_forward_declare pragma\n";
-- 
2.43.0


From f6d4a97f76a9e52622ee5834977c873443a71eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 38/40] fix: function declarations in source files provide no
 types

---
 iwyu.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iwyu.cc b/iwyu.cc
index 0537331..09eeb0a 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1495,7 +1495,9 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
               GetFileEntry(call_expr), GetFileEntry(*fn_redecl))) {
         continue;
       }
-      if (fn_redecl->isThisDeclarationADefinition() && !IsInHeader(*fn_redecl))
+      // Declarations in source files provide nothing, see
+      // CanBeProvidedTypeComponent.
+      if (!IsInHeader(*fn_redecl))
         continue;
       for (const Type* type : autocast_types) {
         const set<const Type*> components =
@@ -1511,6 +1513,10 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     const FunctionDecl* providing_decl = decl;
     if (const auto* method = dyn_cast<CXXMethodDecl>(decl))
       providing_decl = GetFromLeastDerived(method);
+    // Declarations in source files provide nothing, see
+    // CanBeProvidedTypeComponent.
+    if (!IsInHeader(providing_decl))
+      return set<const Type*>();
     const Type* return_type = providing_decl->getReturnType().getTypePtr();
     return GetProvidedTypes(return_type, GetLocation(providing_decl));
   }
-- 
2.43.0


From d6e3db053f3a365095e5d8c84e94b44170154f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 39/40] fix: pointer increments and reversed subscripts use the
 pointee type in full

---
 iwyu.cc | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 09eeb0a..021c3b0 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -267,6 +267,7 @@ using clang::TypedefDecl;
 using clang::TypedefNameDecl;
 using clang::TypedefType;
 using clang::UnaryExprOrTypeTraitExpr;
+using clang::UnaryOperator;
 using clang::UnresolvedLookupExpr;
 using clang::UsingDecl;
 using clang::UsingDirectiveDecl;
@@ -2019,7 +2020,7 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     if (CanIgnoreCurrentASTNode())
       return true;
 
-    ReportTypeUse(CurrentLoc(), GetTypeOf(expr->getLHS()),
+    ReportTypeUse(CurrentLoc(), GetTypeOf(expr->getBase()),
                   DerefKind::RemoveRefsAndPtr);
     return true;
   }
@@ -2040,17 +2041,31 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
       // Dig past implicit casts and parens to get the real location.
       const Expr* term = cast<Expr>(child)->IgnoreImpCasts()->IgnoreParens();
 
-      // If the term expression is pointer-typed we need the full types for
-      // pointer arithmetic.
-      const Type* type = GetTypeOf(term);
-      if (type->isPointerType()) {
-        ReportTypeUse(GetLocation(term), type, DerefKind::RemoveRefsAndPtr);
-      }
+      ReportIfPointerArithmetic(term);
     }
 
     return true;
   }
 
+  // Likewise for ++ and --.
+  bool VisitUnaryOperator(UnaryOperator* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+
+    if (expr->isIncrementDecrementOp())
+      ReportIfPointerArithmetic(expr->getSubExpr()->IgnoreParens());
+    return true;
+  }
+
+  // If the term expression is pointer-typed we need the full types for
+  // pointer arithmetic.
+  void ReportIfPointerArithmetic(const Expr* term) {
+    const Type* type = GetTypeOf(term);
+    if (RemoveReferenceAsWritten(type)->isPointerType()) {
+      ReportTypeUse(GetLocation(term), type, DerefKind::RemoveRefsAndPtr);
+    }
+  }
+
   bool VisitTypeTraitExpr(TypeTraitExpr* expr) {
     if (CanIgnoreCurrentASTNode())
       return true;
-- 
2.43.0


From b0788624ad6b79475e0e6203f864166fec9d1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 40/40] fix: throwing a pointer uses its pointee type in full

---
 iwyu.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 021c3b0..1865417 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -195,6 +195,7 @@ using clang::CXXNewExpr;
 using clang::CXXOperatorCallExpr;
 using clang::CXXRecordDecl;
 using clang::CXXTemporaryObjectExpr;
+using clang::CXXThrowExpr;
 using clang::CXXTypeidExpr;
 using clang::CallExpr;
 using clang::CastExpr;
@@ -2066,6 +2067,19 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     }
   }
 
+  // The type of a thrown pointer's pointee must be complete.
+  bool VisitCXXThrowExpr(CXXThrowExpr* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+
+    if (const Expr* thrown = expr->getSubExpr()) {
+      const Type* type = GetTypeOf(thrown->IgnoreImpCasts()->IgnoreParens());
+      if (RemoveReferenceAsWritten(type)->isPointerType())
+        ReportTypeUse(CurrentLoc(), type, DerefKind::RemoveRefsAndPtr);
+    }
+    return true;
+  }
+
   bool VisitTypeTraitExpr(TypeTraitExpr* expr) {
     if (CanIgnoreCurrentASTNode())
       return true;
-- 
2.43.0

