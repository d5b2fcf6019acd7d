From 7910c20eb40532b6e4638b5395ca542f617a124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 01/64] fix: read .debug_str and .debug_str_offsets from their
 own sections in the DWARF line reader

---
 util/symbolize/addr2line_inlinestack.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index f68f6e1..94d752c 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -415,15 +415,15 @@ void InlineStackHandler::ProcessAttributeUnsigned(
           const char* str_buffer = NULL;
           uint64 str_buffer_size = 0;
           if (str_section != sections_.end()) {
-            str_buffer = line_str->second.first;
-            str_buffer_size = line_str->second.second;
+            str_buffer = str_section->second.first;
+            str_buffer_size = str_section->second.second;
           }
           SectionMap::const_iterator str_offsets = sections_.find(".debug_str_offsets");
           const char* str_offsets_buffer = NULL;
           uint64 str_offsets_size = 0;
           if (str_offsets != sections_.end()) {
-            str_offsets_buffer = line_str->second.first;
-            str_offsets_size = line_str->second.second;
+            str_offsets_buffer = str_offsets->second.first;
+            str_offsets_size = str_offsets->second.second;
           }                    
           LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                             line_str_buffer, line_str_size,
-- 
2.43.0


From 6b2daec55ae64a78b17bfbd76b09d1adb7d60035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 02/64] fix: sum call target counts when merging afdo profiles

---
 profile_creator.cc |  3 ++-
 symbol_map.cc      | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 09d68b6..a9a2e75 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -250,10 +250,11 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
     // number of collected samples. We're hacking support for prefetch hints on
     // top of that, and prefetch hints are signed. For now, we'll explicitly
     // cast to unsigned.
+    // The delta is not a sample count, so it must not be summed up.
     if (!symbol_map->AddIndirectCallTarget(
             *name, stack,
             "__prefetch_" + hint.type + "_" + std::to_string(prefetch_index),
-            static_cast<uint64_t>(delta))) {
+            static_cast<uint64_t>(delta), SymbolMap::INVALID)) {
       LOG(WARNING) << "Ignoring address " << std::hex << pc
                    << ". Could not add an indirect call target. Likely the "
                       "inline stack is empty for this address.";
diff --git a/symbol_map.cc b/symbol_map.cc
index 355df2f..e32330a 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -601,8 +601,14 @@ bool SymbolMap::AddIndirectCallTarget(absl::string_view symbol_name,
   if ((data_source == PERFDATA || data_source == AFDOPROTO) &&
       src[0].HasInvalidInfo())
     return false;
-  symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
-      .target_map[GetOriginalName(target)] = count;
+  uint64_t &target_count =
+      symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
+          .target_map[GetOriginalName(target)];
+  // As in AddSourceCount, counts are merged when reading afdo profiles.
+  if (data_source == AFDOPROFILE)
+    target_count += count;
+  else
+    target_count = count;
   return true;
 }
 
-- 
2.43.0


From 7d5f93a04f3538aec88e1984e96da7ff0a92b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 03/64] fix: report reads past the end of a gcov file as an
 error

---
 gcov.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gcov.cc b/gcov.cc
index f16437b..6b43e9e 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -188,6 +188,7 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
     gcov_var.byte_length += excess_bytes;
     if (gcov_var.byte_length < bytes) {
       gcov_var.byte_length = 0;
+      gcov_var.error = 1;
       return 0;
     }
   }
-- 
2.43.0


From aa7f5263d08b904b28a865506279222b98fa6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 04/64] fix: bound the hint type read from a prefetch hints
 file

---
 profile_creator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index a9a2e75..1154202 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -76,9 +76,9 @@ PrefetchHints ReadPrefetchHints(const std::string &file_name) {
   } else {
     uint64_t address = 0;
     int64_t delta = 0;
-    char prefetch_type[5];
+    char prefetch_type[16];
     while (!feof(fp)) {
-      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%s\n", &address, &delta,
+      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%15s\n", &address, &delta,
                       prefetch_type)) {
         LOG(ERROR) << "Error reading from " << file_name;
         break;
-- 
2.43.0


From e566d5b16dcc89c957f6ac961c6089e2004cb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 05/64] fix: number call graph nodes uniquely when finding
 recursive components

---
 symbol_map.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index e32330a..bbd0521 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -795,7 +795,7 @@ class CallGraph {
   void TopoVisit(SCCNode *node, absl::flat_hash_set<SCCNode *> *workingset,
                  std::vector<SCCNode *> *sorted);
   SCCNode *CreateSCCNode(Symbol *sym);
-  void StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+  void StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                      SCCMap *sccmap);
   void CollapseSCC(SCCMap *sccmap);
 
@@ -846,11 +846,12 @@ SCCNode *CallGraph::FindOrCreateSCCNode(Symbol *sym) {
 
 // Find the strongly connected component using DFS. sccmap is the map mapping
 // each node to the root node of the SCC where node belongs to.
-void CallGraph::StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+void CallGraph::StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                               SCCMap *sccmap) {
-  node->index = index;
-  node->lowlink = index;
-  index++;
+  node->index = *index;
+  node->lowlink = *index;
+  // Every node needs an index of its own, not just every node on a path.
+  ++*index;
   stack->push_back(node);
 
   for (auto *callee : node->callees) {
@@ -907,7 +908,7 @@ void CallGraph::FindAndCollapseSCC() {
   NodeStack stack;
   SCCMap sccmap;
   for (auto *node : nodes) {
-    if (!node->index) StrongConnect(node, index, &stack, &sccmap);
+    if (!node->index) StrongConnect(node, &index, &stack, &sccmap);
   }
   CollapseSCC(&sccmap);
 }
-- 
2.43.0


From 8167ed99c9f975eecc7bfd89a288efb546de89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 06/64] fix: compute inclusive totals of recursive functions in
 64 bits

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index bbd0521..775895d 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -968,7 +968,7 @@ void SymbolMap::ComputeTotalCountIncl() {
   // same total_count_incl.
   std::vector<Symbol *> stacksyms;
   for (auto *node : sorted) {
-    unsigned scc_total_count_incl = 0;
+    uint64_t scc_total_count_incl = 0;
     for (auto *sym : node->syms) {
       sym->total_count_incl = sym->total_count;
       stacksyms.push_back(sym);
-- 
2.43.0


From bdd72e71f8e188ad5ea07c948530e3273edaad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 07/64] fix: choose among equally hot inline instances by name
 when throttling

---
 symbol_map.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 775895d..0d70b27 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1575,7 +1575,10 @@ int64_t Symbol::throttleInlineInstancesAtSameLocation(
                          return a.first.location < b.first.location;
                        // If the locations are the same, compare the hotness of
                        // the callsites.
-                       return a.second->total_count > b.second->total_count;
+                       if (a.second->total_count != b.second->total_count)
+                         return a.second->total_count > b.second->total_count;
+                       // Otherwise the order depends on that of the hash map.
+                       return CallsiteLessThan()(a.first, b.first);
                      });
 
     uint64_t num_inline_instances_at_same_loc = 0;
-- 
2.43.0


From 07b28e60049a46e239b4cd0fd34faac15abeb12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 08/64] fix: do not count samples twice when flattening
 recursively inlined functions

---
 symbol_map.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 0d70b27..c0c6a7a 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1367,7 +1367,10 @@ void SymbolMap::BuildHybridProfile(const SymbolMap &srcmap,
 
 int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
     int max_inline_callsite_nesting_level, int depth, Symbol *func) {
-  int64_t original_total_count = func->total_count;
+  // The change of the total count that is due to flattening in 'func'. This is
+  // not the difference of the totals before and after: if 'func' is inlined
+  // recursively, samples of a flattened instance may be merged into it.
+  int64_t total_count_change = 0;
   // Iterator of func->callsites may be invalidated if an inlined function with
   // the same name as the top level function is flattened and merged into itself
   // and causes callsites to be rehashed. We need to make a copy of callsites.
@@ -1382,6 +1385,7 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
       const Callsite &pos = pos_and_callsite->first;
       Symbol *callsite = pos_and_callsite->second;
       func->total_count -= callsite->total_count;
+      total_count_change -= callsite->total_count;
       // We process the deepest nested inline callsite first because if the same
       // function already exists and is previously processed, we need to make
       // sure after merging the max inline depth of that function is under the
@@ -1398,8 +1402,10 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
       func->pos_counts[pos.location].count = std::max(
           func->pos_counts[pos.location].count,
           func->pos_counts[pos.location].target_map[callsite->info.func_name]);
-      func->total_count +=
+      int64_t added_count =
           func->pos_counts[pos.location].count - original_count;
+      func->total_count += added_count;
+      total_count_change += added_count;
       // Add outlined callsite and its content to the top level symbol map.
       AddSymbolToMap(*callsite);
       map_.at(callsite->info.func_name)->Merge(callsite);
@@ -1411,9 +1417,10 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
       int64_t diff = FlattenNestedInlineCallsitesImpl(
           max_inline_callsite_nesting_level, depth + 1, callsite);
       func->total_count += diff;
+      total_count_change += diff;
     }
   }
-  return func->total_count - original_total_count;
+  return total_count_change;
 }
 
 int SymbolMap::FlattenNestedInlineCallsites(
-- 
2.43.0


From 2167286824044467e40a88327198687ff461de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 09/64] fix: limit the inline nesting in a fixed order of the
 call sites

---
 symbol_map.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbol_map.cc b/symbol_map.cc
index c0c6a7a..0bd0e19 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1379,6 +1379,10 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
   for (auto &callsite : func->callsites) {
     callsites.push_back(&callsite);
   }
+  // The result must not depend on the order of the hash map.
+  absl::c_sort(callsites, [](const auto *a, const auto *b) {
+    return CallsiteLessThan()(a->first, b->first);
+  });
   if (depth == max_inline_callsite_nesting_level) {
     // If nesting level is at max, all inline callsites are flattened.
     for (const auto *pos_and_callsite : callsites) {
-- 
2.43.0


From 0a640d5eb942c95a7c423980f0a75dbdbd1219ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 10/64] fix: do not end sampled ranges at wrong-path LBR
 entries

---
 sample_reader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index ac5d6ab..6dbd152 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -312,10 +312,14 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
       branch_count_map_[Branch(event.branch_stack[start_index].from.offset(),
                                event.branch_stack[start_index].to.offset())]++;
     }
+    // The most recent entry before i that is not on a wrong path.
+    int last = start_index;
     for (int i = start_index + 1; i < event.branch_stack.size(); i++) {
       if (event.branch_stack[i].spec == quipper::PERF_BR_SPEC_WRONG_PATH) {
         continue;
       }
+      const int prev = last;
+      last = i;
 
       if (!MatchBinary(event.branch_stack[i].to)) {
         continue;
@@ -340,7 +344,7 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
         continue;
       }
       uint64_t begin = event.branch_stack[i].to.offset();
-      uint64_t end = event.branch_stack[i - 1].from.offset();
+      uint64_t end = event.branch_stack[prev].from.offset();
       // The interval between two taken branches should not be too large.
       if (end < begin || end - begin > (1 << 20)) {
         const std::string reason =
-- 
2.43.0


From 770ca2db2091b2cef3fd6e39aa91fcc4892cc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 11/64] fix: forget the matched binaries of the previous perf
 file

---
 sample_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample_reader.cc b/sample_reader.cc
index 6dbd152..fb30ef9 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -272,6 +272,8 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
   if (!reader.ReadFile(profile_file) || !parser.ParseRawEvents()) {
     return false;
   }
+  // The cache is keyed by objects that the parser of each file owns.
+  match_cache_.clear();
 
   // If we can find build_id from binary, and the exact build_id was found
   // in the profile, then we use focus_bins to match samples. Otherwise,
-- 
2.43.0


From 05030130c14b1ca336a9ecd2521dbcf7c0751281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 12/64] fix: match the name of the profiled binary literally

---
 profile_creator.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 1154202..07f5da1 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -93,6 +93,16 @@ PrefetchHints ReadPrefetchHints(const std::string &file_name) {
   }
   return hints;
 }
+
+// Returns a regular expression that matches exactly `text`.
+std::string EscapeRegex(absl::string_view text) {
+  std::string escaped;
+  for (const char c : text) {
+    if (strchr("^$\\.*+?()[]{}|", c) != nullptr) escaped += '\\';
+    escaped += c;
+  }
+  return escaped;
+}
 }  // namespace
 
 namespace devtools_crosstool_autofdo {
@@ -172,7 +182,7 @@ bool ProfileCreator::ReadSample(absl::string_view input_profile_name,
       }
       const char *file_base_name = basename(dup_name);
       CHECK(file_base_name) << "Cannot find basename for: " << binary_;
-      focus_binary_re = std::string(".*/") + file_base_name + "$";
+      focus_binary_re = ".*/" + EscapeRegex(file_base_name) + "$";
       free(dup_name);
 
       ElfReader reader(binary_);
-- 
2.43.0


From 8d6f4e64eb05f3a63d9845d0950f031378c96e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 13/64] fix: decide per name whether a build id's file names
 are absolute

---
 perfdata_reader.cc | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index acdac31..768f418 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -53,39 +53,32 @@ namespace devtools_crosstool_autofdo {
 // part w/ mmap_event.filename's name part.
 struct MMapSelector {
   explicit MMapSelector(const absl::flat_hash_set<std::string> &name_set) {
-    std::string n = *(name_set.begin());
     // Similar to handling kernel image name -> mmap name.
     // https://source.corp.google.com/piper///depot/google3/devtools/crosstool/autofdo/sample_reader.cc;l=89;rcl=500000000
-    if (name_set.size() == 1 && n == "[kernel.kallsyms]") {
-      target_mmap_name_set = {"[kernel.kallsyms]", "[kernel.kallsyms]_text",
-                              "[kernel.kallsyms]_stext"};
-      path_changer = noop_path_changer;
-    } else if (llvm::sys::path::is_absolute(n)) {
-      target_mmap_name_set = name_set;
-      path_changer = noop_path_changer;
-    } else {
-      for (const std::string &nm : name_set) {
-        target_mmap_name_set.insert(llvm::sys::path::filename(nm).str());
+    if (name_set.size() == 1 && *name_set.begin() == "[kernel.kallsyms]") {
+      full_names = {"[kernel.kallsyms]", "[kernel.kallsyms]_text",
+                    "[kernel.kallsyms]_stext"};
+      return;
+    }
+    for (const std::string &n : name_set) {
+      if (llvm::sys::path::is_absolute(n)) {
+        full_names.insert(n);
+      } else {
+        base_names.insert(llvm::sys::path::filename(n).str());
       }
-      path_changer = name_only_path_changer;
     }
   }
 
-  // mmap_fn is always absolute path. If target_mmap_name is absolute, we
+  // mmap_fn is always absolute path. If a target name is absolute, we
   // compare both directly. Otherwise, we only compare the name part of
   // mmap_fn.
   bool operator()(const std::string &mmap_fn) const {
-    return target_mmap_name_set.find(path_changer(mmap_fn).str()) !=
-           target_mmap_name_set.end();
+    return full_names.contains(mmap_fn) ||
+           base_names.contains(llvm::sys::path::filename(mmap_fn).str());
   }
 
-  std::function<llvm::StringRef(const std::string &mmap_fn)> path_changer;
-  absl::flat_hash_set<std::string> target_mmap_name_set;
-
-  static llvm::StringRef noop_path_changer(const std::string &n) { return n; }
-  static llvm::StringRef name_only_path_changer(const std::string &n) {
-    return llvm::sys::path::filename(n);
-  }
+  absl::flat_hash_set<std::string> full_names;
+  absl::flat_hash_set<std::string> base_names;
 };
 
 absl::StatusOr<absl::flat_hash_set<std::string>> GetBuildIdNames(
-- 
2.43.0


From aec79beb22d4f6342e906201ebab39d23d4bb713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 14/64] fix: sum branch counters in 64 bits

---
 branch_frequencies.h | 2 +-
 lbr_aggregation.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/branch_frequencies.h b/branch_frequencies.h
index 1dee479..427a2c5 100644
--- a/branch_frequencies.h
+++ b/branch_frequencies.h
@@ -17,7 +17,7 @@ namespace devtools_crosstool_autofdo
     int64_t GetNumberOfTakenBranchCounters() const
     {
       return absl::c_accumulate(
-          taken_branch_counters, 0,
+          taken_branch_counters, int64_t{0},
           [](int64_t cnt, const auto &v)
           { return cnt + v.second; });
     }
diff --git a/lbr_aggregation.h b/lbr_aggregation.h
index 2d58359..ac6a9b4 100644
--- a/lbr_aggregation.h
+++ b/lbr_aggregation.h
@@ -21,7 +21,7 @@ namespace devtools_crosstool_autofdo {
 struct LbrAggregation {
   int64_t GetNumberOfBranchCounters() const {
     return absl::c_accumulate(
-        branch_counters, 0,
+        branch_counters, int64_t{0},
         [](int64_t cnt, const auto &v) { return cnt + v.second; });
   }
 
-- 
2.43.0


From a084a359ebcbb398c4ae8ecc8ff27dc1b395da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 15/64] fix: map no branch source to an empty block at the end
 of a function

---
 llvm_propeller_binary_address_mapper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_address_mapper.cc b/llvm_propeller_binary_address_mapper.cc
index d71128a..4168c06 100644
--- a/llvm_propeller_binary_address_mapper.cc
+++ b/llvm_propeller_binary_address_mapper.cc
@@ -252,7 +252,9 @@ std::optional<int> BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress(
       return it - bb_handles_.begin();
     }
     case BranchDirection::kFrom: {
-      DCHECK_NE(GetBBEntry(*it).Size, 0);
+      // The last block of a function can be empty, in which case no code is
+      // mapped at this address.
+      if (GetBBEntry(*it).Size == 0) return std::nullopt;
       return it - bb_handles_.begin();
     }
     default:
-- 
2.43.0


From 351388c8de1404551a4dc4e35d29054edc8b13c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 16/64] fix: keep a uniq-named function whose symbol is listed
 twice

---
 llvm_propeller_binary_address_mapper.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llvm_propeller_binary_address_mapper.cc b/llvm_propeller_binary_address_mapper.cc
index 4168c06..b83daad 100644
--- a/llvm_propeller_binary_address_mapper.cc
+++ b/llvm_propeller_binary_address_mapper.cc
@@ -405,8 +405,9 @@ int BinaryAddressMapperBuilder::FilterDuplicateNameFunctions(
         LOG(WARNING) << func_indices.size()
                      << " duplicate uniq-named functions '" << name.str()
                      << "' with same size and structure found, keep one copy.";
-        for (int i = 1; i < func_indices.size(); ++i)
-          selected_functions.erase(func_indices[i]);
+        for (int func_idx : func_indices)
+          if (func_idx != func_indices.front())
+            selected_functions.erase(func_idx);
         continue;
       }
       LOG(WARNING) << "duplicate uniq-named functions '" << name.str()
-- 
2.43.0


From abf1346262f53caed9910099cb77741fafd3584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 17/64] fix: keep the events from which SPE records get their
 process

---
 perfdata_reader.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index 768f418..0d8d468 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -354,12 +354,9 @@ void PerfDataReader::ReadWithSampleCallBack(
 absl::Status PerfDataReader::ReadWithSpeRecordCallBack(
     absl::FunctionRef<void(const quipper::ArmSpeDecoder::Record &, int)>
         callback) const {
+  // No event type is skipped: `SpeTidPidProvider` learns from SAMPLE, MMAP, FORK
+  // and COMM events which process a thread belongs to.
   quipper::PerfReader perf_reader;
-  // We don't need to serialise anything here, so let's exclude all major event
-  // types.
-  perf_reader.SetEventTypesToSkipWhenSerializing(
-      {quipper::PERF_RECORD_SAMPLE, quipper::PERF_RECORD_MMAP,
-       quipper::PERF_RECORD_FORK, quipper::PERF_RECORD_COMM});
   if (!perf_reader.ReadFromPointer(perf_data_.buffer->getBufferStart(),
                                    perf_data_.buffer->getBufferSize())) {
     LOG(FATAL) << "Failed to read perf data file: " << perf_data_.description;
-- 
2.43.0


From 882e8e765e575370ae15c6131757f6b58c832073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 18/64] fix: let the code at the end of one SPE range fall
 through into the next

---
 simple_spe_sample_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_spe_sample_reader.cc b/simple_spe_sample_reader.cc
index a1d59ad..264705a 100644
--- a/simple_spe_sample_reader.cc
+++ b/simple_spe_sample_reader.cc
@@ -85,9 +85,11 @@ void SimpleSpeDataSampleReader::SynthesizeRanges() {
   for (const auto& [addr, _] : address_count_map_) branch_addrs.insert(addr);
   
   uint64_t ranges_created = 0;
+  // What runs at the end of one scan falls through into the next one.
+  uint64_t range_weight = 0;
   for (auto it = incoming_weights.begin(); it != incoming_weights.end(); ++it) {
     uint64_t range_start = it->first;
-    uint64_t range_weight = it->second;
+    range_weight += it->second;
     uint64_t scan_end = (std::next(it) != incoming_weights.end()) 
                         ? std::next(it)->first : range_start + kMaxRangeSize;
     
-- 
2.43.0


From 31ce5020e174bbc19f8b30064c74288e12e7faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 19/64] fix: do not count SPE branch records into the total
 count twice

---
 simple_spe_sample_reader.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simple_spe_sample_reader.cc b/simple_spe_sample_reader.cc
index 264705a..304165b 100644
--- a/simple_spe_sample_reader.cc
+++ b/simple_spe_sample_reader.cc
@@ -121,7 +121,7 @@ bool SimpleSpeDataSampleReader::Append(const std::string &profile_file) {
   // Create a temporary reader for the additional profile file
   SimpleSpeDataSampleReader temp_reader(profile_file, binary_file_.string());
   
-  if (!temp_reader.Read()) {
+  if (!temp_reader.ReadAndSetTotalCount()) {
     LOG(ERROR) << "Failed to read profile file: " << profile_file;
     return false;
   }
@@ -169,6 +169,7 @@ bool SimpleSpeDataSampleReader::Read() {
   const auto &events = reader.events();
   uint64_t spe_event_count = 0;
   uint64_t branch_records = 0;
+  uint64_t valid_branches = 0;
   
   for (const auto &event : events) {
     // Check if this event contains ARM SPE trace data
@@ -194,7 +195,7 @@ bool SimpleSpeDataSampleReader::Read() {
       // Handle conditional not-taken branches
       if (record.op.br_eret.br_cond && record.event.cond_not_taken) {
         address_count_map_[binary_offset]++;
-        total_count_++;
+        valid_branches++;
         continue;
       }
       
@@ -204,7 +205,7 @@ bool SimpleSpeDataSampleReader::Read() {
         uint64_t target_offset = mmap_info.VaToBinaryOffset(target_runtime);
         if (target_offset != 0) {
           branch_count_map_[Branch(binary_offset, target_offset)]++;
-          total_count_++;
+          valid_branches++;
         }
       }
     }
@@ -215,7 +216,7 @@ bool SimpleSpeDataSampleReader::Read() {
     return false;
   }
   
-  if (branch_records == 0 || total_count_ == 0) {
+  if (branch_records == 0 || valid_branches == 0) {
     LOG(ERROR) << "No valid branch samples collected";
     return false;
   }
-- 
2.43.0


From e0e3fa219bcd09c466540f410eb2e972149c4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 20/64] fix: keep all 64 bits of a block's address in its CFG
 node

---
 llvm_propeller_cfg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm_propeller_cfg.h b/llvm_propeller_cfg.h
index c3408b8..aa49fc1 100644
--- a/llvm_propeller_cfg.h
+++ b/llvm_propeller_cfg.h
@@ -264,7 +264,7 @@ class CFGNode final {
   const int bb_id_;
   // Index of the node in its CFG's `nodes()`.
   const int node_index_;
-  const int addr_;
+  const uint64_t addr_;
   int size_ = 0;
   const llvm::object::BBAddrMap::BBEntry::Metadata metadata_;
   int freq_ = 0;
-- 
2.43.0


From ce0c4d85d8e24dd61ac72da218c23219a5d411ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 21/64] fix: apply a profile on top of the existing edges of
 initial CFGs

---
 llvm_propeller_program_cfg_builder.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/llvm_propeller_program_cfg_builder.cc b/llvm_propeller_program_cfg_builder.cc
index 44fd0d5..4f28c53 100644
--- a/llvm_propeller_program_cfg_builder.cc
+++ b/llvm_propeller_program_cfg_builder.cc
@@ -207,6 +207,16 @@ absl::Status ProgramCfgBuilder::CreateEdges(
   absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                       CFGEdge *>
       tmp_edge_map;
+  // The profile is applied on top of the edges of the initial CFGs.
+  for (const auto &[cfg_index, cfg] : cfgs_) {
+    for (const auto *edges : {&cfg->intra_edges(), &cfg->inter_edges()}) {
+      for (const std::unique_ptr<CFGEdge> &edge : *edges) {
+        tmp_edge_map.insert(
+            {{edge->src()->inter_cfg_id(), edge->sink()->inter_cfg_id()},
+             edge.get()});
+      }
+    }
+  }
 
   absl::flat_hash_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
 
-- 
2.43.0


From 66568f5eba11cc7cb85f7467ab10a109bb808fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 22/64] fix: compute layout scores without wrapping to 32 bits

The weight of an edge was multiplied with the uint32 parameter in 32 bits, and
distances of 2 GB and more were truncated to int.
---
 llvm_propeller_code_layout_scorer.cc | 12 ++++++++----
 llvm_propeller_code_layout_scorer.h  |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/llvm_propeller_code_layout_scorer.cc b/llvm_propeller_code_layout_scorer.cc
index 98582c9..b180df3 100644
--- a/llvm_propeller_code_layout_scorer.cc
+++ b/llvm_propeller_code_layout_scorer.cc
@@ -26,26 +26,30 @@ PropellerCodeLayoutScorer::PropellerCodeLayoutScorer(
 // Returns the score for one edge, given its source to sink direction and
 // distance in the layout.
 double PropellerCodeLayoutScorer::GetEdgeScore(const CFGEdge &edge,
-                                               int src_sink_distance) const {
+                                               int64_t src_sink_distance) const {
   // Approximate callsites to be in the middle of the source basic block.
   if (edge.IsCall()) src_sink_distance += edge.src()->size() / 2;
 
   if (edge.IsReturn()) src_sink_distance += edge.sink()->size() / 2;
 
+  // The parameters are 32-bit integers: without this, edge weight times
+  // parameter would be computed (and wrap around) in 32 bits.
+  const double weight = edge.weight();
+
   if (src_sink_distance == 0 && edge.IsBranchOrFallthrough())
-    return edge.weight() * code_layout_params_.fallthrough_weight();
+    return weight * code_layout_params_.fallthrough_weight();
 
   double absolute_src_sink_distance =
       static_cast<double>(std::abs(src_sink_distance));
   if (src_sink_distance > 0 &&
       absolute_src_sink_distance < code_layout_params_.forward_jump_distance())
-    return edge.weight() * code_layout_params_.forward_jump_weight() *
+    return weight * code_layout_params_.forward_jump_weight() *
            (1.0 - absolute_src_sink_distance /
                     code_layout_params_.forward_jump_distance());
 
   if (src_sink_distance < 0 &&
       absolute_src_sink_distance < code_layout_params_.backward_jump_distance())
-    return edge.weight() * code_layout_params_.backward_jump_weight() *
+    return weight * code_layout_params_.backward_jump_weight() *
            (1.0 - absolute_src_sink_distance /
                     code_layout_params_.backward_jump_distance());
   return 0;
diff --git a/llvm_propeller_code_layout_scorer.h b/llvm_propeller_code_layout_scorer.h
index a35ed19..1ec3a5b 100644
--- a/llvm_propeller_code_layout_scorer.h
+++ b/llvm_propeller_code_layout_scorer.h
@@ -1,6 +1,8 @@
 #ifndef AUTOFDOLLVM_PROPELLER_CODE_LAYOUT_SCORER_H_
 #define AUTOFDOLLVM_PROPELLER_CODE_LAYOUT_SCORER_H_
 
+#include <cstdint>
+
 #include "llvm_propeller_cfg.h"
 #include "llvm_propeller_options.pb.h"
 
@@ -14,7 +16,7 @@ class PropellerCodeLayoutScorer {
  public:
   explicit PropellerCodeLayoutScorer(
       const PropellerCodeLayoutParameters &params);
-  double GetEdgeScore(const CFGEdge &edge, int src_sink_distance) const;
+  double GetEdgeScore(const CFGEdge &edge, int64_t src_sink_distance) const;
   const PropellerCodeLayoutParameters &code_layout_params() const {
     return code_layout_params_;
   }
-- 
2.43.0


From d626a3a935a34400e07eed2115a24ae92fa79200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 23/64] fix: sum block frequencies of chains and clusters in 64
 bits

---
 llvm_propeller_chain_cluster_builder.cc | 2 +-
 llvm_propeller_chain_cluster_builder.h  | 5 +++--
 llvm_propeller_node_chain.h             | 9 +++++----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/llvm_propeller_chain_cluster_builder.cc b/llvm_propeller_chain_cluster_builder.cc
index 3a4b637..175fcc1 100644
--- a/llvm_propeller_chain_cluster_builder.cc
+++ b/llvm_propeller_chain_cluster_builder.cc
@@ -17,7 +17,7 @@ namespace devtools_crosstool_autofdo {
 namespace {
 // We omit edges if their weight is less than
 // 1/kHotEdgeRelativeFrequencyThreshold of their sink.
-constexpr int kHotEdgeRelativeFrequencyThreshold = 10;
+constexpr int64_t kHotEdgeRelativeFrequencyThreshold = 10;
 // We avoid clustering if it reduces the density by more than
 // 1/kDensityDegradationThreshold.
 constexpr int64_t kExecutionDensityDegradationThreshold = 8;
diff --git a/llvm_propeller_chain_cluster_builder.h b/llvm_propeller_chain_cluster_builder.h
index a1b8e19..a7ec03e 100644
--- a/llvm_propeller_chain_cluster_builder.h
+++ b/llvm_propeller_chain_cluster_builder.h
@@ -2,6 +2,7 @@
 #define AUTOFDOLLVM_PROPELLER_CHAIN_CLUSTER_BUILDER_H_
 
 #include <algorithm>
+#include <cstdint>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -38,7 +39,7 @@ class ChainCluster {
   int size() const { return size_; }
 
   // Returns the total frquency of the cluster.
-  int freq() const { return freq_; }
+  int64_t freq() const { return freq_; }
 
   // Returns the unique identifier for this cluster.
   CFGNode::InterCfgId id() const { return id_; }
@@ -74,7 +75,7 @@ class ChainCluster {
   int size_;
 
   // Total frequency of the cluster.
-  int freq_;
+  int64_t freq_;
 };
 
 class ChainClusterBuilder {
diff --git a/llvm_propeller_node_chain.h b/llvm_propeller_node_chain.h
index d16dfa6..983a7ef 100644
--- a/llvm_propeller_node_chain.h
+++ b/llvm_propeller_node_chain.h
@@ -2,6 +2,7 @@
 #define AUTOFDOLLVM_PROPELLER_NODE_CHAIN_H_
 
 #include <algorithm>
+#include <cstdint>
 #include <iterator>
 #include <memory>
 #include <optional>
@@ -89,7 +90,7 @@ class CFGNodeBundle {
   CFGNodeBundle &operator=(CFGNodeBundle &&other) = default;
 
   int size() const { return size_; }
-  int freq() const { return freq_; }
+  int64_t freq() const { return freq_; }
   const std::vector<const CFGNode *> &nodes() const { return nodes_; }
   const ChainMappingEntry &chain_mapping() const { return chain_mapping_; }
   const std::vector<const CFGEdge *> &intra_chain_out_edges() const {
@@ -140,7 +141,7 @@ class CFGNodeBundle {
   int size_;
 
   // Total execution frequency of this bundle.
-  int freq_;
+  int64_t freq_;
 
   // Edges from this bundle to other bundles of `chain_`. Ordered in increasing
   // order of the sink bundle's `chain_index_`. This ordering should be enforced
@@ -199,7 +200,7 @@ class NodeChain {
   std::optional<int> function_index() const { return function_index_; }
   double score() const { return score_; }
   int size() const { return size_; }
-  int freq() const { return freq_; }
+  int64_t freq() const { return freq_; }
   std::vector<std::unique_ptr<CFGNodeBundle>> &mutable_node_bundles() {
     return node_bundles_;
   }
@@ -316,7 +317,7 @@ class NodeChain {
   // Total binary size of the chain.
   int size_;
   // Total execution frequency of the chain.
-  int freq_;
+  int64_t freq_;
   // Total score for this chain.
   double score_ = 0;
 
-- 
2.43.0


From 97e58d8a78620e097317780995183438f57f74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 24/64] fix: write the CFG protobuf in the order of the
 function indices

---
 llvm_propeller_program_cfg_proto_builder.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_program_cfg_proto_builder.cc b/llvm_propeller_program_cfg_proto_builder.cc
index dee493d..e312b0c 100644
--- a/llvm_propeller_program_cfg_proto_builder.cc
+++ b/llvm_propeller_program_cfg_proto_builder.cc
@@ -2,8 +2,10 @@
 
 #include <fcntl.h>
 
+#include <algorithm>
 #include <memory>
 #include <string>
+#include <vector>
 
 #include "llvm_propeller_cfg.h"
 #include "llvm_propeller_cfg.pb.h"
@@ -44,7 +46,16 @@ bool ProgramCfgProtoBuilder::WriteAndClose() {
 // Add CFGs to protobuf.
 void ProgramCfgProtoBuilder::AddCfgs(
     const absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> &cfgs) {
-  for (auto &[function_index, cfg] : cfgs)
+  // Write the functions in the order of their indices, for the output not to
+  // depend on the iteration order of the hash map.
+  std::vector<const ControlFlowGraph *> sorted_cfgs;
+  sorted_cfgs.reserve(cfgs.size());
+  for (auto &[function_index, cfg] : cfgs) sorted_cfgs.push_back(cfg.get());
+  std::sort(sorted_cfgs.begin(), sorted_cfgs.end(),
+            [](const ControlFlowGraph *a, const ControlFlowGraph *b) {
+              return a->function_index() < b->function_index();
+            });
+  for (const ControlFlowGraph *cfg : sorted_cfgs)
     PopulateControlFlowGraphPb(program_cfg_pb_.add_cfg(), *cfg);
 }
 
-- 
2.43.0


From 844d83767b48d992e3325a51c7f92bd6ab62c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 25/64] fix: do not draw edges between clusters as
 fall-throughs in the CFG dump

---
 llvm_propeller_profile_writer.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/llvm_propeller_profile_writer.cc b/llvm_propeller_profile_writer.cc
index 9a6512b..a30a1b9 100644
--- a/llvm_propeller_profile_writer.cc
+++ b/llvm_propeller_profile_writer.cc
@@ -75,11 +75,17 @@ void DumpCfgs(const PropellerProfile &profile,
       CHECK(cfg_dump_os.good())
           << "Failed to open " << cfg_dump_file << " for writing.";
 
+      // Leave a gap between the positions of different clusters: only blocks of
+      // the same cluster are known to be adjacent.
       absl::flat_hash_map<CFGNode::IntraCfgId, int> layout_index_map;
-      for (auto &cluster : func_cluster_info.clusters)
-        for (int bbi = 0; bbi < cluster.full_bb_ids.size(); ++bbi)
-          layout_index_map.insert({cluster.full_bb_ids[bbi].intra_cfg_id,
-                                   cluster.layout_index + bbi});
+      int layout_index = 0;
+      for (auto &cluster : func_cluster_info.clusters) {
+        for (int bbi = 0; bbi < cluster.full_bb_ids.size(); ++bbi) {
+          layout_index_map.insert(
+              {cluster.full_bb_ids[bbi].intra_cfg_id, layout_index++});
+        }
+        ++layout_index;
+      }
 
       cfg->WriteDotFormat(cfg_dump_os, layout_index_map);
     }
-- 
2.43.0


From 74750b11b621a958bb0cd9c5d19463445b0e588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 26/64] fix: elide name suffixes independently of the map order

---
 symbol_map.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbol_map.cc b/symbol_map.cc
index 0bd0e19..3777380 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -318,6 +318,15 @@ void SymbolMap::ElideSuffixesAndMerge() {
     if (orig_name != name_symbol.first)
       suffix_elide_set.push_back(name_symbol.first.c_str());
   }
+  // Eliding shortens a name. Handle the shorter names first, so that a name
+  // which is also what another one elides to ("foo.cold" and "foo.cold.cold")
+  // has moved away before the other one takes its place, whatever the order of
+  // the map.
+  std::sort(suffix_elide_set.begin(), suffix_elide_set.end(),
+            [](const std::string &a, const std::string &b) {
+              return std::make_pair(a.size(), absl::string_view(a)) <
+                     std::make_pair(b.size(), absl::string_view(b));
+            });
   for (const auto &name : suffix_elide_set) {
     std::string orig_name = GetOriginalName(name);
     auto iter = map_.find(name);
-- 
2.43.0


From 9061335d1c3c6385a563002d663685b5c30f5bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 27/64] fix: create edges of the program CFG in a fixed order

---
 llvm_propeller_program_cfg_builder.cc | 20 +++++++++++++++++---
 llvm_propeller_program_cfg_builder.h  |  3 ++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/llvm_propeller_program_cfg_builder.cc b/llvm_propeller_program_cfg_builder.cc
index 4f28c53..f56b76a 100644
--- a/llvm_propeller_program_cfg_builder.cc
+++ b/llvm_propeller_program_cfg_builder.cc
@@ -1,5 +1,7 @@
 #include "llvm_propeller_program_cfg_builder.h"
 
+#include <algorithm>
+#include <cstdint>
 #include <memory>
 #include <optional>
 #include <tuple>
@@ -14,6 +16,7 @@
 #include "llvm_propeller_formatting.h"
 #include "llvm_propeller_program_cfg.h"
 #include "base/logging.h"
+#include "third_party/abseil/absl/container/btree_map.h"
 #include "third_party/abseil/absl/container/flat_hash_map.h"
 #include "third_party/abseil/absl/status/status.h"
 #include "third_party/abseil/absl/status/statusor.h"
@@ -114,7 +117,7 @@ absl::StatusOr<std::unique_ptr<ProgramCfg>> ProgramCfgBuilder::Build(
 void ProgramCfgBuilder::CreateFallthroughs(
     const BranchAggregation &branch_aggregation,
     const absl::flat_hash_map<CFGNode::InterCfgId, CFGNode *> &tmp_node_map,
-    absl::flat_hash_map<std::pair<int, int>, int> *tmp_bb_fallthrough_counters,
+    absl::btree_map<std::pair<int, int>, int> *tmp_bb_fallthrough_counters,
     absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                         CFGEdge *> *tmp_edge_map) {
   for (auto [fallthrough, cnt] : branch_aggregation.fallthrough_counters) {
@@ -218,11 +221,22 @@ absl::Status ProgramCfgBuilder::CreateEdges(
     }
   }
 
-  absl::flat_hash_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
+  absl::btree_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
 
   int weight_on_dubious_edges = 0;
   int edges_recorded = 0;
-  for (auto [branch, weight] : branch_aggregation.branch_counters) {
+  // Create the edges in the order of their addresses: the order in which the
+  // edges of a node were created and the kind of an edge which several branches
+  // map to must not depend on the order of the hash map.
+  std::vector<std::pair<BinaryAddressBranch, int64_t>> branches(
+      branch_aggregation.branch_counters.begin(),
+      branch_aggregation.branch_counters.end());
+  std::sort(branches.begin(), branches.end(),
+            [](const auto &a, const auto &b) {
+              return std::tie(a.first.from, a.first.to) <
+                     std::tie(b.first.from, b.first.to);
+            });
+  for (auto [branch, weight] : branches) {
     ++edges_recorded;
     std::optional<int> from_bb_index =
         binary_address_mapper_->FindBbHandleIndexUsingBinaryAddress(
diff --git a/llvm_propeller_program_cfg_builder.h b/llvm_propeller_program_cfg_builder.h
index 9c745d3..7da2670 100644
--- a/llvm_propeller_program_cfg_builder.h
+++ b/llvm_propeller_program_cfg_builder.h
@@ -10,6 +10,7 @@
 #include "llvm_propeller_cfg.h"
 #include "llvm_propeller_program_cfg.h"
 #include "llvm_propeller_statistics.h"
+#include "third_party/abseil/absl/container/btree_map.h"
 #include "third_party/abseil/absl/container/flat_hash_map.h"
 #include "third_party/abseil/absl/status/status.h"
 #include "third_party/abseil/absl/status/statusor.h"
@@ -63,7 +64,7 @@ class ProgramCfgBuilder {
   void CreateFallthroughs(
       const BranchAggregation &branch_aggregation,
       const absl::flat_hash_map<CFGNode::InterCfgId, CFGNode *> &tmp_node_map,
-      absl::flat_hash_map<std::pair<int, int>, int>
+      absl::btree_map<std::pair<int, int>, int>
           *tmp_bb_fallthrough_counters,
       absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                           CFGEdge *> *tmp_edge_map);
-- 
2.43.0


From b8390f98676247c3825a062a3eff6710125642f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 28/64] fix: do not report success when Propeller profiles
 cannot be written

---
 llvm_propeller_profile_writer.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/llvm_propeller_profile_writer.cc b/llvm_propeller_profile_writer.cc
index a30a1b9..4937b3b 100644
--- a/llvm_propeller_profile_writer.cc
+++ b/llvm_propeller_profile_writer.cc
@@ -114,6 +114,12 @@ void DumpCfgProfile(const ControlFlowGraph &cfg, std::ofstream &out) {
 void PropellerProfileWriter::Write(const PropellerProfile &profile) const {
   std::ofstream cc_profile_os(options_.cluster_out_name());
   std::ofstream ld_profile_os(options_.symbol_order_out_name());
+  // A file without a name is not wanted.
+  CHECK(cc_profile_os.good() || options_.cluster_out_name().empty())
+      << "Failed to open " << options_.cluster_out_name() << " for writing.";
+  CHECK(ld_profile_os.good() || options_.symbol_order_out_name().empty())
+      << "Failed to open " << options_.symbol_order_out_name()
+      << " for writing.";
   if (profile_encoding_.version != ClusterEncodingVersion::VERSION_0) {
     cc_profile_os << profile_encoding_.version_specifier << "\n";
   }
@@ -261,6 +267,13 @@ void PropellerProfileWriter::Write(const PropellerProfile &profile) const {
       }
     }
   }
+  // Do not report success for a truncated profile.
+  cc_profile_os.close();
+  CHECK(cc_profile_os.good() || options_.cluster_out_name().empty())
+      << "Failed to write " << options_.cluster_out_name() << ".";
+  ld_profile_os.close();
+  CHECK(ld_profile_os.good() || options_.symbol_order_out_name().empty())
+      << "Failed to write " << options_.symbol_order_out_name() << ".";
   if (options_.has_cfg_dump_dir_name())
     DumpCfgs(profile, options_.cfg_dump_dir_name());
 }
-- 
2.43.0


From 293694aee0b591d002f30593c0cb80d4bfea214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 29/64] fix: honour --profiler=perf_spe for profiles named on
 the command line

---
 create_llvm_prof.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 3992c27..95dfc32 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -155,7 +155,9 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     for (const std::string &pf : perf_files)
       if (!pf.empty())
         option_builder.AddInputProfiles(
-            devtools_crosstool_autofdo::InputProfileBuilder().SetName(pf));
+            devtools_crosstool_autofdo::InputProfileBuilder()
+                .SetName(pf)
+                .SetType(GetProfileTypeFromFlag()));
   }
   if (!absl::GetFlag(FLAGS_propeller_cfg_dump_dir).empty()) {
     option_builder.SetCfgDumpDirName(
-- 
2.43.0


From 2accb130772c57f6bf87077900cf05e32335197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 30/64] fix: let --ignore_build_id take effect without
 --profiled_binary_name

---
 create_llvm_prof.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 95dfc32..ddd4589 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -163,12 +163,17 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     option_builder.SetCfgDumpDirName(
         absl::GetFlag(FLAGS_propeller_cfg_dump_dir));
   }
+  // An option that is set, even to "", takes precedence over the name of the
+  // binary, which is what --ignore_build_id falls back to.
+  if (!absl::GetFlag(FLAGS_profiled_binary_name).empty()) {
+    option_builder.SetProfiledBinaryName(
+        absl::GetFlag(FLAGS_profiled_binary_name));
+  }
 
   return devtools_crosstool_autofdo::PropellerOptions(
       option_builder.SetBinaryName(absl::GetFlag(FLAGS_binary))
           .SetClusterOutName(absl::GetFlag(FLAGS_out))
           .SetSymbolOrderOutName(absl::GetFlag(FLAGS_propeller_symorder))
-          .SetProfiledBinaryName(absl::GetFlag(FLAGS_profiled_binary_name))
           .SetIgnoreBuildId(absl::GetFlag(FLAGS_ignore_build_id))
           .SetCodeLayoutParamsChainSplit(
               absl::GetFlag(FLAGS_propeller_chain_split))
-- 
2.43.0


From eef2196f237fbbc19eb1c4859e64389497a49476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 31/64] fix: let status consumers poll Propeller's progress
 from other threads

---
 llvm_propeller_profile_generator.cc | 5 +++--
 status_provider.h                   | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/llvm_propeller_profile_generator.cc b/llvm_propeller_profile_generator.cc
index 3385254..59ba957 100644
--- a/llvm_propeller_profile_generator.cc
+++ b/llvm_propeller_profile_generator.cc
@@ -148,6 +148,9 @@ namespace devtools_crosstool_autofdo
             create_aggregator)
     {
       MultiStatusProvider main_status("generate propeller profiles");
+      // All sub-statuses are added before consumers, which may poll from other
+      // threads, get to see `main_status`.
+      StatusProviders statuses = AddStatusProviders(main_status);
 
       // Because the stopper "stops" consumers that have a reference to
       // main_status, we must declared "stopper" after "main_status" so "stopper" is
@@ -160,8 +163,6 @@ namespace devtools_crosstool_autofdo
                         /*status_provider=*/&main_status);
       }
 
-      StatusProviders statuses = AddStatusProviders(main_status);
-
       ASSIGN_OR_RETURN(std::unique_ptr<BinaryContent> binary_content,
                        GetBinaryContent(opts.binary_name()));
       statuses.binary_reading->SetDone();
diff --git a/status_provider.h b/status_provider.h
index 5977465..134bd6b 100644
--- a/status_provider.h
+++ b/status_provider.h
@@ -2,6 +2,7 @@
 #define AUTOFDO_STATUS_PROVIDER_H_
 
 #include <algorithm>
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <string>
@@ -44,7 +45,8 @@ class DefaultStatusProvider : public StatusProvider {
 
  private:
   const std::string job_;
-  int progress_;
+  // Set by the job and read by status consumers, which may run in other threads.
+  std::atomic<int> progress_;
 };
 
 // MultiStatusProvider reports status based on multiple sub-statuses. Suppose
-- 
2.43.0


From f8207bcd1d90edbed9d3e4b7f7003c8abc0c7566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 32/64] fix: keep the first line of a sequence that ends where
 an earlier one starts

---
 util/symbolize/functioninfo.cc |  6 +++++-
 util/symbolize/functioninfo.h  | 30 +++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index ec0f904..4a9e88b 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -161,7 +161,11 @@ void CULineInfoHandler::AddLine(uint64 address, uint32 file_num,
     return;
   }
   if (end_sequence) {
-    linemap_->AddActual(address, 0);
+    if (GetLogicals() == NULL) {
+      linemap_->EndSequence(address);
+    } else {
+      linemap_->AddActual(address, 0);
+    }
   } else {
     if (GetLogicals() == NULL) {
       if (file_num < files_->size()) {
diff --git a/util/symbolize/functioninfo.h b/util/symbolize/functioninfo.h
index dba3248..79a58de 100644
--- a/util/symbolize/functioninfo.h
+++ b/util/symbolize/functioninfo.h
@@ -88,7 +88,8 @@ class AddressToLineMap {
 
   AddressToLineMap()
     : subprogs_(), logical_lines_(), line_map_(), logical_map_(),
-      subprog_bias_(0) { }
+      subprog_bias_(0), has_last_line_(false), last_addr_(0),
+      last_logical_(0) { }
 
   void StartCU() {
     subprog_bias_ = subprogs_.size();
@@ -102,10 +103,16 @@ class AddressToLineMap {
   }
 
   // Add a line from a normal line table (not two-level).
-  // Adds both a logical entry and an actual entry.
+  // Adds both a logical entry and an actual entry, the latter once the next
+  // line or the end of the sequence shows that it covers some code.
   void AddLine(uint64 addr, LineIdentifier line_id) {
     logical_lines_.push_back(line_id);
-    line_map_[addr] = logical_lines_.size();
+    if (has_last_line_ && last_addr_ != addr) {
+      line_map_[last_addr_] = last_logical_;
+    }
+    has_last_line_ = true;
+    last_addr_ = addr;
+    last_logical_ = logical_lines_.size();
   }
 
   // Resize the per-CU logical map to the size of the CU's
@@ -147,6 +154,18 @@ class AddressToLineMap {
     line_map_[addr] = logical_num;
   }
 
+  // End a sequence of a normal line table (not two-level) at the given
+  // address.  Sequences come in no particular order, so the address may be
+  // where a sequence seen earlier starts: its line stays.  A line that the
+  // ended sequence itself has there covers no instruction.
+  void EndSequence(uint64 addr) {
+    if (has_last_line_ && last_addr_ != addr) {
+      line_map_[last_addr_] = last_logical_;
+    }
+    has_last_line_ = false;
+    line_map_.insert(std::make_pair(addr, 0));
+  }
+
   const_iterator begin() const {
     return line_map_.begin();
   }
@@ -187,6 +206,11 @@ class AddressToLineMap {
   // to keep track of the first subprogram for the current CU, and adjust
   // all references into these arrays by this amount.
   uint32 subprog_bias_;
+
+  // The last line of the current sequence, not yet in line_map_.
+  bool has_last_line_;
+  uint64 last_addr_;
+  uint32 last_logical_;
 };
 
 static int strcmp_maybe_null(const char *a, const char *b) {
-- 
2.43.0


From 22e04d241a213ec578f4dedbdb9ea3ee7188b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 33/64] fix: number the DWARF 5 directory and file tables from
 0

---
 util/symbolize/addr2line_inlinestack.cc |  6 ++++--
 util/symbolize/dwarf2reader.cc          |  7 ++++---
 util/symbolize/functioninfo.cc          | 12 +++++++++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 94d752c..349ba43 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -265,7 +265,8 @@ void InlineStackHandler::ProcessAttributeUnsigned(
   if (!subprogram_stack_.empty()) {
     switch (attr) {
       case DW_AT_call_file: {
-        if (data == 0 || data >= file_names_->size()) {
+        if ((data == 0 && dwarf_version_ < 5) ||
+            data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
@@ -468,7 +469,8 @@ void InlineStackHandler::ProcessAttributeSigned(
       case DW_AT_call_file: {
         CHECK(form == DW_FORM_implicit_const);
 
-        if (data == 0 || data >= file_names_->size()) {
+        if ((data == 0 && dwarf_version_ < 5) ||
+            data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 072665f..5d5babd 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1612,7 +1612,8 @@ void LineInfo::ReadHeader() {
     header_.actuals_offset = 0;
   } 
   else if (header_.version == 5) {
-    // Read the DWARF-5 directory table.
+    // Read the DWARF-5 directory table.  The entries of the DWARF-5 tables
+    // are numbered from 0.
     {
       static const uint32 kMaxTypes = 4;
       uint32 content_types[kMaxTypes];
@@ -1629,7 +1630,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* dirname = NULL;
         for (uint32 col = 0; col < format_count; ++col) {
           if (content_types[col] == DW_LNCT_path) {
@@ -1667,7 +1668,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* filename = NULL;
         uint64 dirindex = 0;
         uint64 mod_time = 0;
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index 4a9e88b..dc0c777 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -51,8 +51,8 @@ CULineInfoHandler::CULineInfoHandler(
   Init();
 }
 void CULineInfoHandler::Init() {
-  // The dirs and files are 1 indexed, so just make sure we put
-  // nothing in the 0 vector.
+  // The dirs and files are 1 indexed before DWARF 5, so just make sure we
+  // put nothing in the 0 vector.
   CHECK_EQ(dirs_->size(), 0);
   CHECK_EQ(files_->size(), 0);
   dirs_->push_back("");
@@ -85,6 +85,10 @@ bool CULineInfoHandler::ShouldAddAddress(uint64 address) const {
 }
 
 void CULineInfoHandler::DefineDir(const char *name, uint32 dir_num) {
+  if (dir_num == 0) {
+    (*dirs_)[0] = name;
+    return;
+  }
   // These should never come out of order, actually
   CHECK_EQ(dir_num, dirs_->size());
   dirs_->push_back(name);
@@ -96,7 +100,9 @@ void CULineInfoHandler::DefineFile(const char *name,
   // These should never come out of order, actually.
   CHECK_GE(dir_num, 0);
   CHECK_LT(dir_num, dirs_->size());
-  if (file_num == files_->size() || file_num == -1) {
+  if (file_num == 0) {
+    (*files_)[0] = std::make_pair(dir_num, name);
+  } else if (file_num == files_->size() || file_num == -1) {
     files_->push_back(std::make_pair(dir_num, name));
   } else {
     LOG(INFO) << "error in DefineFile";
-- 
2.43.0


From 75f7bb7a4d1175a3e16f8e7bf3a99ca4124fa05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 34/64] fix: skip DWARF 5 type units instead of giving up on
 the rest of .debug_info

---
 util/symbolize/dwarf2reader.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 5d5babd..2dc3334 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -388,9 +388,12 @@ void CompilationUnit::ReadHeader() {
           return;
       }
       header_.unit_type = reader_->ReadOneByte(headerptr);
+      // Type units are skipped later, only their length is needed.
       if (header_.unit_type != DwarfUnitType::DW_UT_compile &&
+          header_.unit_type != DwarfUnitType::DW_UT_type &&
           header_.unit_type != DwarfUnitType::DW_UT_skeleton &&
-          header_.unit_type != DwarfUnitType::DW_UT_split_compile) 
+          header_.unit_type != DwarfUnitType::DW_UT_split_compile &&
+          header_.unit_type != DwarfUnitType::DW_UT_split_type)
       {
           LOG(INFO) << "Only full compilation unit and skeleton unit types are supported.";
           malformed_ = true;
@@ -519,6 +522,13 @@ uint64 CompilationUnit::Start() {
   else
     ourlength += 4;
 
+  // Type units describe no code.
+  if (header_.version == 5 &&
+      (header_.unit_type == DwarfUnitType::DW_UT_type ||
+       header_.unit_type == DwarfUnitType::DW_UT_split_type)) {
+    return ourlength;
+  }
+
   if (is_split_dwarf_) {
     // If the user does not want it, just return.
     if (!handler_->StartSplitCompilationUnit(offset_from_section_start_,
-- 
2.43.0


From be4f167228e29618fd03adcd29aeabb4bf3ce140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 35/64] fix: do not crash on an inlined call without a
 call-site file

---
 legacy_addr2line.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 96d7e0c..e1d360a 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -244,7 +244,9 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     if (start_line == 0)
       start_line = subprog->callsite_line();
 
-    dir_name = subprog->callsite_directory();
+    // The call site may come without a file.
+    const char *callsite_directory = subprog->callsite_directory();
+    dir_name = callsite_directory ? callsite_directory : "";
     if (!dir_name.is_absolute()) {
       if (subprog->comp_directory()) {
         dir_name = subprog->comp_directory() / dir_name;
@@ -256,7 +258,7 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     stack->push_back(SourceInfo(
         canonical_parent->name().c_str(),
         dir_name,
-        subprog->callsite_filename(),
+        subprog->callsite_filename() ? subprog->callsite_filename() : "",
         start_line,
         subprog->callsite_line(),
         subprog->callsite_discr()));
-- 
2.43.0


From a009e9c675be66419c175d85ebf997917d9d785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 36/64] fix: read declaration lines that come as implicit
 constants (DWARF 5)

---
 util/symbolize/addr2line_inlinestack.cc | 46 +++----------------------
 1 file changed, 5 insertions(+), 41 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 349ba43..b6ee78a 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -297,15 +297,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         break;  
       }
       case DW_AT_call_line:
-        CHECK(form == DW_FORM_data1 ||
-              form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
         subprogram_stack_.back()->set_callsite_line(data);
         break;
       case DW_AT_GNU_discriminator:
-        CHECK(form == DW_FORM_data1 ||
-              form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
         subprogram_stack_.back()->set_callsite_discr(data);
         break;
       case DW_AT_abstract_origin:
@@ -464,41 +458,11 @@ void InlineStackHandler::ProcessAttributeSigned(
     enum DwarfAttribute attr,
     enum DwarfForm form,
     int64 data) {
-
-    switch (attr) {
-      case DW_AT_call_file: {
-        CHECK(form == DW_FORM_implicit_const);
-
-        if ((data == 0 && dwarf_version_ < 5) ||
-            data >= file_names_->size()) {
-          LOG(WARNING) << "unexpected reference to file_num " << data;
-          break;
-        }
-
-        if (file_names_ != NULL) {
-          const FileVector::value_type &file =
-              (*file_names_)[data];
-          if (directory_names_ != NULL) {
-            if (file.first < directory_names_->size()) {
-              const char *dir = (*directory_names_)[file.first];
-              subprogram_stack_.back()->set_callsite_directory(dir);
-            } else {
-              LOG(WARNING) << "unexpected reference to dir_num " << file.first;
-            }
-          }
-          subprogram_stack_.back()->set_callsite_filename(file.second);
-        }
-        break;
-      }
-      case DW_AT_call_line:
-        CHECK(form == DW_FORM_implicit_const);
-        subprogram_stack_.back()->set_callsite_line(data);
-        break;
-
-      default:
-        break;
-    }      
-
+  // Constants such as line and file numbers come in signed forms as well
+  // (DW_FORM_implicit_const, DW_FORM_sdata).
+  if (data >= 0) {
+    ProcessAttributeUnsigned(offset, attr, form, data);
+  }
 }
 
 void InlineStackHandler::FindBadSubprograms(
-- 
2.43.0


From 7e7eb360e43c1a7cfd57126e85540fcbc8273852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 37/64] fix: only offset pairs of a DWARF 5 range list are
 relative to its base

---
 util/symbolize/dwarf3ranges.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf3ranges.cc b/util/symbolize/dwarf3ranges.cc
index 13f5a9a..48c8b85 100644
--- a/util/symbolize/dwarf3ranges.cc
+++ b/util/symbolize/dwarf3ranges.cc
@@ -123,7 +123,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             CHECK(stop_ptr <= (addr_buffer_ + addr_buffer_length_));
             uint64 stop = reader_->ReadAddress(stop_ptr);
             if (start != stop)
-              ranges->push_back (make_pair (start + base, stop + base));
+              ranges->push_back (make_pair (start, stop));
             break;
           }
           case DW_RLE_startx_length: {
@@ -138,7 +138,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (start + base, start + base + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           case DW_RLE_offset_pair: {
@@ -173,7 +173,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (base + start, base + start + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           default: { 
-- 
2.43.0


From 75d9143d17017e5925e0d59365d48c3542a7407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 38/64] fix: take a file's directory from the right entry of a
 DWARF 5 line table

---
 addr2line.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/addr2line.cc b/addr2line.cc
index af9fba1..9c5ee37 100644
--- a/addr2line.cc
+++ b/addr2line.cc
@@ -125,12 +125,14 @@ void LLVMAddr2line::GetInlineStack(uint64_t address, SourceStack *stack) const {
     if (line_table->hasFileAtIndex(file)) {
       const auto &entry = line_table->Prologue.getFileNameEntry(file);
       file_name = llvm::dwarf::toString(entry.Name).value();
-      if (entry.DirIdx > 0 &&
-          entry.DirIdx <= line_table->Prologue.IncludeDirectories.size())
-        dir_name =
-            llvm::dwarf::toString(
-                line_table->Prologue.IncludeDirectories[entry.DirIdx - 1])
-                .value();
+      // The include directories are numbered from 1 before DWARF 5, and from
+      // 0 (the compilation directory) since.
+      const auto &dirs = line_table->Prologue.IncludeDirectories;
+      uint64_t dir_index = line_table->Prologue.getVersion() >= 5
+                               ? entry.DirIdx
+                               : entry.DirIdx - 1;
+      if (entry.DirIdx > 0 && dir_index < dirs.size())
+        dir_name = llvm::dwarf::toString(dirs[dir_index]).value();
     }
     stack->emplace_back(function_name, dir_name, file_name, start_line, line,
                         discriminator);
-- 
2.43.0


From e9deedfc9c412d207c19c4cc00cf3e76ec8a0ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 39/64] fix: keep functions nested in others without being
 inlined

---
 util/symbolize/addr2line_inlinestack.cc | 36 +++++++++++++++----------
 util/symbolize/addr2line_inlinestack.h  |  5 ++++
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index b6ee78a..fc52a94 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -185,6 +185,14 @@ void InlineStackHandler::CleanupUnusedSubprograms() {
   subprograms_by_offset_maps_.back() = new_map;
 }
 
+SubprogramInfo *InlineStackHandler::CurrentFunction() const {
+  for (auto it = subprogram_stack_.rbegin(); it != subprogram_stack_.rend();
+       ++it) {
+    if (!(*it)->inlined()) return *it;
+  }
+  return subprogram_stack_.front();
+}
+
 bool InlineStackHandler::StartDIE(uint64 offset,
                                   enum DwarfTag tag,
                                   const AttributeList& attrs) {
@@ -226,12 +234,10 @@ void InlineStackHandler::EndDIE(uint64 offset) {
   if ((die == DW_TAG_subprogram ||
        die == DW_TAG_inlined_subroutine) &&
       !have_two_level_line_tables_) {
-    // If the top level subprogram is used, we mark all subprograms in
-    // the subprogram_stack_ as used.
-    if (subprogram_stack_.front()->used()) {
+    // If the function that contains the subprogram is used, we mark the
+    // subprogram as used.
+    if (CurrentFunction()->used()) {
       subprogram_stack_.back()->set_used();
-    }
-    if (subprogram_stack_.front()->used()) {
       subprogram_insert_order_.push_back(subprogram_stack_.back());
     }
     subprogram_stack_.pop_back();
@@ -323,17 +329,17 @@ void InlineStackHandler::ProcessAttributeUnsigned(
       case DW_AT_low_pc:
         subprogram_stack_.back()->SetSingletonRangeLow(data);
         // If a symbol's start address is in sampled_functions, we will
-        // mark the top level subprogram of this symbol as used.
-        if (subprogram_stack_.size() != 1) {
+        // mark the function of this symbol as used.
+        if (subprogram_stack_.back() != CurrentFunction()) {
           break;
         }
         if (sampled_functions_ != NULL) {
           if (sampled_functions_->find(data) != sampled_functions_->end()) {
-            subprogram_stack_.front()->set_used();
+            CurrentFunction()->set_used();
           }
         } else {
           if (data != 0) {
-            subprogram_stack_.front()->set_used();
+            CurrentFunction()->set_used();
           }
         }
         break;
@@ -354,19 +360,19 @@ void InlineStackHandler::ProcessAttributeUnsigned(
           address_ranges_->ReadDwarfRngListwithOffsetArray(address_, compilation_unit_base_, &ranges, addr_base_, ranges_base_);
         }
 
-        if (subprogram_stack_.size() == 1) {
+        if (subprogram_stack_.back() == CurrentFunction()) {
           if (sampled_functions_ != NULL) {
             for (const auto &range : ranges) {
               if (sampled_functions_->find(range.first)
                   != sampled_functions_->end()) {
-                subprogram_stack_.front()->set_used();
+                CurrentFunction()->set_used();
                 break;
               }
             }
           } else {
             for (const auto &range : ranges) {
               if (range.first != 0) {
-                subprogram_stack_.front()->set_used();
+                CurrentFunction()->set_used();
                 break;
               }
             }
@@ -605,13 +611,15 @@ void InlineStackHandler::FindBadSubprograms(
   // subprograms are stored in a leaf-to-parent order in
   // subprogram_insert_order_, it suffices to scan the vector
   // backwards once.
-  // Also, if a subprogram is not a subset of its parent, mark it bad.
+  // Also, if an inlined subprogram is not a subset of its parent, mark it bad.
+  // A subprogram nested in another one without being inlined (GNU C nested
+  // functions, Fortran internal procedures) has its own code elsewhere.
   for (std::vector<SubprogramInfo *>::reverse_iterator subprogs =
            subprogram_insert_order_.rbegin();
        subprogs != subprogram_insert_order_.rend();
        ++subprogs) {
     SubprogramInfo *subprog = *subprogs;
-    if (subprog->parent()) {
+    if (subprog->parent() && subprog->inlined()) {
       if (bad_subprograms->find(subprog->parent()) != bad_subprograms->end() ||
           !SubprogramContains(subprog->parent(), subprog)) {
         bad_subprograms->insert(subprog);
diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index 0bf46cc..c178711 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -247,6 +247,11 @@ class InlineStackHandler: public Dwarf2Handler {
   typedef std::map<uint64, SubprogramInfo*> SubprogramsByOffsetMap;
 
   void FindBadSubprograms(std::set<const SubprogramInfo *> *bad_subprograms);
+
+  // The function whose code the subprogram now read belongs to: the innermost
+  // one on the stack that is not inlined.
+  SubprogramInfo *CurrentFunction() const;
+
   static void InitSubprograms(InlineStackHandler *handler) {
     handler->PopulateSubprogramsByAddress();
   }
-- 
2.43.0


From a9a17dc9578af5950a837e9cb193d58123977174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 40/64] fix: do not hand a null buffer to memmove on the first
 gcov read

---
 gcov.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcov.cc b/gcov.cc
index 6b43e9e..c17c0c7 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -176,7 +176,11 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
   CHECK_GT(gcov_var.mode, 0);
   CHECK(bytes < GCOV_BLOCK_BYTE_SIZE);
   if (excess_bytes < bytes) {
-    memmove(gcov_var.buffer, gcov_var.buffer + gcov_var.byte_offset, excess_bytes);
+    // There is no buffer yet on the first read.
+    if (excess_bytes > 0) {
+      memmove(gcov_var.buffer, gcov_var.buffer + gcov_var.byte_offset,
+              excess_bytes);
+    }
     gcov_var.byte_offset = 0;
     gcov_var.byte_length = excess_bytes;
     if (gcov_var.byte_length + bytes > gcov_var.byte_alloc) {
-- 
2.43.0


From 02e3fe2f5c4c5f50d975cb82ed6068caad2aedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 41/64] fix: report text profiles that could not be written

---
 sample_reader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index fb30ef9..9a5c418 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -252,7 +252,11 @@ bool TextSampleReaderWriter::Write(const char *aux_info) {
   if (aux_info) {
     fprintf(fp, "%s", aux_info);
   }
-  fclose(fp);
+  const bool written = !ferror(fp);
+  if (fclose(fp) != 0 || !written) {
+    LOG(ERROR) << "Error writing to " << profile_file_;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 32c352f1ba73b0dd9063cd33e53e84a702dce5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 42/64] fix: fail profile_diff on unreadable profiles

---
 profile_diff.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profile_diff.cc b/profile_diff.cc
index fc11f27..554fb0c 100644
--- a/profile_diff.cc
+++ b/profile_diff.cc
@@ -34,8 +34,9 @@ int main(int argc, char **argv) {
   absl::node_hash_set<std::string> names;
   devtools_crosstool_autofdo::LLVMProfileReader reader_1(&symbol_map_1, names);
   devtools_crosstool_autofdo::LLVMProfileReader reader_2(&symbol_map_2, names);
-  reader_1.ReadFromFile(argv[1]);
-  reader_2.ReadFromFile(argv[2]);
+  if (!reader_1.ReadFromFile(argv[1]) || !reader_2.ReadFromFile(argv[2])) {
+    return 1;
+  }
 
   if (absl::GetFlag(FLAGS_compare_function)) {
     symbol_map_1.DumpFuncLevelProfileCompare(symbol_map_2);
-- 
2.43.0


From aa8b294867b9ff80c23dcfe2842760603eb74ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 43/64] fix: do not list functions of the profile as unsampled
 for their parts

---
 symbol_map.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 3777380..c9bb310 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1529,7 +1529,11 @@ NameSizeList SymbolMap::collectNamesForProfSymList() {
   NameSizeList name_size_list;
   for (const auto &addr_symbol : address_symbol_map_) {
     llvm::StringRef str = addr_symbol.second.first;
-    if (names_in_profile.count(str)) continue;
+    // A part of a function stands in the profile under the function's name.
+    if (names_in_profile.count(str) ||
+        names_in_profile.count(GetOriginalName(str.data()))) {
+      continue;
+    }
     name_size_list.emplace_back(str, addr_symbol.second.second);
   }
   return name_size_list;
-- 
2.43.0


From 2560c7e4b3c878c9fec6de9df9561f5ee68a0240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 44/64] fix: accept flags next to the files in dump_gcov and
 profile_diff

---
 dump_gcov.cc    | 8 +++++---
 profile_diff.cc | 6 +++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/dump_gcov.cc b/dump_gcov.cc
index 49a2ba6..5571044 100644
--- a/dump_gcov.cc
+++ b/dump_gcov.cc
@@ -14,6 +14,8 @@
 
 // Read the gcda file and dump the information.
 
+#include <vector>
+
 #include "base/commandlineflags.h"
 #include "profile_reader.h"
 #include "symbol_map.h"
@@ -22,16 +24,16 @@
 
 int main(int argc, char **argv) {
   absl::SetProgramUsageMessage(argv[0]);
-  absl::ParseCommandLine(argc, argv);
+  const std::vector<char *> args = absl::ParseCommandLine(argc, argv);
 
-  if (argc != 2) {
+  if (args.size() != 2) {
     LOG(FATAL) << "Please use: dump_gcov file_path\n";
     return -1;
   }
   devtools_crosstool_autofdo::SymbolMap symbol_map;
   devtools_crosstool_autofdo::AutoFDOProfileReader reader(
       &symbol_map, false);
-  reader.ReadFromFile(argv[1]);
+  reader.ReadFromFile(args[1]);
   symbol_map.Dump();
   return 0;
 }
diff --git a/profile_diff.cc b/profile_diff.cc
index 554fb0c..3fe8660 100644
--- a/profile_diff.cc
+++ b/profile_diff.cc
@@ -24,17 +24,17 @@ int main(int argc, char **argv) {
       "of [0,1]). If overlap is > 0.9, the two profiles are "
       "considered similar and should provide comparable speedup.";
   absl::SetProgramUsageMessage(use);
-  absl::ParseCommandLine(argc, argv);
+  const std::vector<char *> args = absl::ParseCommandLine(argc, argv);
   devtools_crosstool_autofdo::SymbolMap symbol_map_1, symbol_map_2;
 
-  if (argc != 3) {
+  if (args.size() != 3) {
     LOG(FATAL) << "Please specify two files to compare";
   }
 
   absl::node_hash_set<std::string> names;
   devtools_crosstool_autofdo::LLVMProfileReader reader_1(&symbol_map_1, names);
   devtools_crosstool_autofdo::LLVMProfileReader reader_2(&symbol_map_2, names);
-  if (!reader_1.ReadFromFile(argv[1]) || !reader_2.ReadFromFile(argv[2])) {
+  if (!reader_1.ReadFromFile(args[1]) || !reader_2.ReadFromFile(args[2])) {
     return 1;
   }
 
-- 
2.43.0


From a68edce82026d761ef3c8a6fcc43f1322266e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 45/64] fix: fail on missing or malformed prefetch hints

---
 profile_creator.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 07f5da1..3bbc00d 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -68,30 +68,36 @@ typedef std::vector<PrefetchHint> PrefetchHints;
 //   - the hint type (string) - e.g. NTA, T{0|1|2}.
 // The delta is to the next cache miss, calculated from the memory location
 // used in the memory operation at PC.
-PrefetchHints ReadPrefetchHints(const std::string &file_name) {
-  PrefetchHints hints;
+// Returns whether the whole file could be read.
+bool ReadPrefetchHints(const std::string &file_name, PrefetchHints *hints) {
+  bool success = true;
   FILE *fp = fopen(file_name.c_str(), "r");
   if (fp == nullptr) {
     LOG(ERROR) << "Cannot open " << file_name << "to read";
+    success = false;
   } else {
     uint64_t address = 0;
     int64_t delta = 0;
     char prefetch_type[16];
     while (!feof(fp)) {
-      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%15s\n", &address, &delta,
-                      prefetch_type)) {
+      int fields = fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%15s\n", &address,
+                          &delta, prefetch_type);
+      // An empty file has no hints.
+      if (fields == EOF && hints->empty() && !ferror(fp)) break;
+      if (fields != 3) {
         LOG(ERROR) << "Error reading from " << file_name;
+        success = false;
         break;
       }
       // We don't validate the type here. We'll just use it as a suffix to the
       // "__prefetch" indirect call, and let the compiler decide if it
       // supports it.
       std::string type(prefetch_type);
-      hints.push_back({address, delta, type});
+      hints->push_back({address, delta, type});
     }
     fclose(fp);
   }
-  return hints;
+  return success;
 }
 
 // Returns a regular expression that matches exactly `text`.
@@ -239,7 +245,8 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
   // used.
   if (!CheckAndAssignAddr2Line(symbol_map, Addr2line::Create(binary_)))
     return false;
-  PrefetchHints hints = ReadPrefetchHints(profile_file);
+  PrefetchHints hints;
+  if (!ReadPrefetchHints(profile_file, &hints)) return false;
   absl::btree_map<uint64_t, uint8_t> repeated_prefetches_indices;
   for (auto &hint : hints) {
     uint64_t pc = hint.address;
-- 
2.43.0


From 9af02318444c789defe405ca63bb06a24c80ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:16 +0000
Subject: [PATCH 46/64] fix: notice DWARF 4 units whose .dwo file is missing

---
 addr2cu.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/addr2cu.cc b/addr2cu.cc
index d314003..fe336f8 100644
--- a/addr2cu.cc
+++ b/addr2cu.cc
@@ -30,8 +30,15 @@ absl::StatusOr<std::unique_ptr<llvm::DWARFContext>> CreateDWARFContext(
   if (dwp_file.empty() &&
       absl::c_any_of(dwarf_context->compile_units(),
                    [](std::unique_ptr<llvm::DWARFUnit> &cu) {
-                     return cu->getUnitDIE().getTag() ==
-                            llvm::dwarf::DW_TAG_skeleton_unit;
+                     if (cu->getUnitDIE().getTag() ==
+                         llvm::dwarf::DW_TAG_skeleton_unit)
+                       return true;
+                     // The skeletons of DWARF 4 are compile units. Their name
+                     // is in the .dwo file, if that is still there.
+                     return cu->getDWOId().has_value() &&
+                            !cu->getNonSkeletonUnitDIE()
+                                 .getDwarfUnit()
+                                 ->isDWOUnit();
                    })) {
     return absl::FailedPreconditionError(
         "skeleton unit found without a corresponding dwp file");
-- 
2.43.0


From 04b3d968f28d69d11132896404574b668ab42ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:17 +0000
Subject: [PATCH 47/64] fix: do not read before the start of symbol names
 shorter than @plt

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index c9bb310..d9524ee 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -515,7 +515,7 @@ void SymbolMap::BuildSymbolMap() {
     static const std::regex kSuffixRe(R"(\.__part\.\d+$)");
     return (size != 0 &&
             (type == STT_FUNC || absl::EndsWith(name, ".cold") || std::regex_search(name, kSuffixRe)) &&
-            strcmp(name + strlen(name) - 4, "@plt") != 0);
+            !absl::EndsWith(name, "@plt"));
   };
   elf_reader.VisitSymbols(&symbol_reader);
 #if defined(HAVE_LLVM)
-- 
2.43.0


From 31540431cefb375e7c8ad8aece88dbbf7a3fe275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:17 +0000
Subject: [PATCH 48/64] fix: do not read outside truncated or damaged ELF files

---
 util/symbolize/elf_reader.cc | 61 ++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index 9787c11..e5d0d56 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -49,6 +49,7 @@
 #include <string.h>
 
 #include <algorithm>
+#include <limits>
 #include <map>
 #include <string>
 #include <vector>
@@ -130,7 +131,19 @@ class ElfSectionReader {
  public:
   ElfSectionReader(const string &path, int fd,
                    const typename ElfArch::Shdr &section_header)
-      : header_(section_header) {
+      : contents_aligned_(NULL),
+        contents_(""),
+        size_aligned_(0),
+        section_size_(0),
+        header_(section_header) {
+    // A section that is not within the file (the file may be truncated, or the
+    // section takes no space in it) has no contents: reading what is mapped
+    // beyond the end of the file would end the process.
+    struct stat file_stat;
+    if (header_.sh_type == SHT_NOBITS || header_.sh_size == 0 ||
+        fstat(fd, &file_stat) != 0 || header_.sh_offset > file_stat.st_size ||
+        header_.sh_size > file_stat.st_size - header_.sh_offset)
+      return;
     // Back up to the beginning of the page we're interested in.
     const size_t additional = header_.sh_offset % getpagesize();
     const size_t offset_aligned = header_.sh_offset - additional;
@@ -146,7 +159,7 @@ class ElfSectionReader {
   }
 
   ~ElfSectionReader() {
-    munmap(contents_aligned_, size_aligned_);
+    if (contents_aligned_ != NULL) munmap(contents_aligned_, size_aligned_);
   }
 
   // Return the section header for this section.
@@ -158,6 +171,15 @@ class ElfSectionReader {
     return contents_ + bytes;
   }
 
+  // Return the string at the given offset within this section, or NULL if
+  // there is none.
+  const char *GetString(typename ElfArch::Word bytes) const {
+    if (bytes >= section_size_ ||
+        memchr(contents_ + bytes, '\0', section_size_ - bytes) == NULL)
+      return NULL;
+    return contents_ + bytes;
+  }
+
   const char *contents() const { return contents_; }
   size_t section_size() const { return section_size_; }
 
@@ -193,8 +215,9 @@ class SymbolIterator {
     // If this section type doesn't exist, leave
     // num_symbols_in_section_ as zero, so this iterator is already
     // done().
-    if (symbol_section_ != NULL) {
-      num_symbols_in_section_ = symbol_section_->header().sh_size /
+    if (symbol_section_ != NULL && symbol_section_->header().sh_entsize >=
+                                       sizeof(typename ElfArch::Sym)) {
+      num_symbols_in_section_ = symbol_section_->section_size() /
                                 symbol_section_->header().sh_entsize;
 
       // Symbol sections have sh_link set to the section number of
@@ -228,7 +251,7 @@ class SymbolIterator {
     int name_offset = GetSymbol()->st_name;
     if (name_offset == 0)
       return NULL;
-    return string_section_->GetOffset(name_offset);
+    return string_section_->GetString(name_offset);
   }
 
  private:
@@ -268,7 +291,12 @@ class ElfReaderImpl {
     string error;
     CHECK(IsArchElfFile(fd, &error)) << " Could not parse file: " << error;
     is_dwp_ = MyHasSuffixString(path, ".dwp");
-    ParseHeaders(fd, path);
+    if (!ParseHeaders(fd, path)) {
+      // There are no headers to go by.
+      header_.e_shnum = SHN_UNDEF;
+      header_.e_phnum = 0;
+      first_section_header_ = {};
+    }
   }
 
   ~ElfReaderImpl() {
@@ -485,7 +513,7 @@ class ElfReaderImpl {
     // direction of iteration.
     for (int k = GetNumSections() - 1; k >= 0; --k) {
       const char *name = GetSectionName(section_headers_[k].sh_name);
-      if (strncmp(name, ".debug", strlen(".debug")) == 0)
+      if (name != NULL && strncmp(name, ".debug", strlen(".debug")) == 0)
         return true;
     }
     return false;
@@ -544,16 +572,14 @@ class ElfReaderImpl {
   const char *GetSectionName(typename ElfArch::Word sh_name) {
     const ElfSectionReader<ElfArch> *shstrtab =
         GetSection(GetStringTableIndex());
-    if (shstrtab != NULL) {
-      CHECK_GE(shstrtab->section_size(), sh_name);
-      return shstrtab->GetOffset(sh_name);
-    }
+    if (shstrtab != NULL) return shstrtab->GetString(sh_name);
     return NULL;
   }
 
   // Return an ElfSectionReader for the given section. The reader will
   // be freed when this object is destroyed.
   const ElfSectionReader<ElfArch> *GetSection(int num) {
+    CHECK_GE(num, 0);
     CHECK_LT(num, GetNumSections());
     const char *name;
     // Hard-coding the name for the section-name string table prevents
@@ -604,13 +630,20 @@ class ElfReaderImpl {
         LOG(ERROR) << "Failed to read first section header: " << path;
         return false;
       }
+      if (first_section_header_.sh_size >
+              std::numeric_limits<int>::max() / sizeof(*section_headers_) ||
+          first_section_header_.sh_info >
+              std::numeric_limits<int>::max() / sizeof(*program_headers_)) {
+        LOG(ERROR) << "Invalid number of headers: " << path;
+        return false;
+      }
     }
 
     // Dynamically allocate enough space to store the section headers
     // and read them out of the file.
     const int section_headers_size =
         GetNumSections() * sizeof(*section_headers_);
-    section_headers_ = new typename ElfArch::Shdr[section_headers_size];
+    section_headers_ = new typename ElfArch::Shdr[GetNumSections()];
     if (pread(fd, section_headers_, section_headers_size, header_.e_shoff) !=
         section_headers_size) {
       LOG(ERROR) << "Could not read section headers: " << path;
@@ -626,6 +659,7 @@ class ElfReaderImpl {
         program_headers_size) {
       LOG(ERROR) << "Could not read program headers: " << path
                  << " Continue anyway";
+      header_.e_phnum = 0;
     }
 
     // Presize the sections array for efficiency.
@@ -894,10 +928,11 @@ string ElfReader::GetBuildId() {
     const char *c_note_end = c_note + size;
     while (c_note + note_size < c_note_end) {
       const auto *id_note = reinterpret_cast<const BuildIdNoteSection*>(c_note);
-      if (size >= sizeof(*id_note) &&
+      if (c_note_end - c_note >= sizeof(*id_note) &&
           id_note->type == NT_GNU_BUILD_ID &&
           id_note->namesz == 4 &&
           id_note->descsz <= 20 &&
+          c_note_end - c_note - sizeof(*id_note) >= id_note->descsz &&
           memcmp(id_note->gnu_name, "GNU\0", 4) == 0) {
         // Pre-fill with '0' so that the build ID is always 40 chars long.
         // TODO(dehao): remove [adding once quipper is fixed (see b/21597512)
-- 
2.43.0


From 0fe89cabb50596556ec2b7cf5e2722c1face5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:08 +0000
Subject: [PATCH 49/64] fix: keep the totals and heads of hybrid profiles right

---
 symbol_map.cc | 26 ++++++++++++++++++--------
 symbol_map.h  |  6 +++---
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index d9524ee..29a432d 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1304,12 +1304,13 @@ void SymbolMap::UpdateWithRatio(double ratio) {
 // Once the copying, flattening and merging of the callees is done, it
 // copies over the pos_counts map that contains the flattened callsites from
 // 'other' to 'this'.
-void Symbol::PopulateSymbolRetainingHotInlineStacks(Symbol &other,
-                                                    const uint64_t threshold,
-                                                    SymbolMap &symMap,
-                                                    uint64_t &total,
-                                                    uint64_t &num_flattened) {
-  total_count += other.total_count;
+//
+// Returns by how much the samples of 'other' changed: those of the flattened
+// callsites are gone, those that stand for the calls in their place are new.
+int64_t Symbol::PopulateSymbolRetainingHotInlineStacks(
+    Symbol &other, const uint64_t threshold, SymbolMap &symMap,
+    uint64_t &total, uint64_t &num_flattened) {
+  int64_t total_count_change = 0;
   head_count += other.head_count;
   if (info.file_name.empty()) {
     info.file_name = other.info.file_name;
@@ -1322,8 +1323,14 @@ void Symbol::PopulateSymbolRetainingHotInlineStacks(Symbol &other,
       // Here, flatten this callsite w.r.t src symbol, get/create outline symbol
       // and merge callsite into outline symbol.
       ++num_flattened;
+      callsite_symbol.second->EstimateHeadCount();
+      total_count_change -= callsite_symbol.second->total_count;
+      total_count_change -=
+          other.pos_counts[callsite_symbol.first.location].count;
       other.FlattenCallsite(callsite_symbol.first.location,
                             callsite_symbol.second);
+      total_count_change +=
+          other.pos_counts[callsite_symbol.first.location].count;
       symMap.AddSymbolToMap(*callsite_symbol.second);
       symMap.map()
           .at(callsite_symbol.second->info.func_name)
@@ -1341,16 +1348,19 @@ void Symbol::PopulateSymbolRetainingHotInlineStacks(Symbol &other,
       }
       // This can be a direct call since there is a symbol for this callsite in
       // this dst symbol's callsites map and any changes will be merged into it.
-      ret.first->second->PopulateSymbolRetainingHotInlineStacks(
-          *callsite_symbol.second, threshold, symMap, total, num_flattened);
+      total_count_change +=
+          ret.first->second->PopulateSymbolRetainingHotInlineStacks(
+              *callsite_symbol.second, threshold, symMap, total, num_flattened);
     }
   }
+  total_count += other.total_count + total_count_change;
 
   // Do it after the above callsite traversal since that can flatten callsites
   // and those get added into the pos_count. We need to retain those in the dst
   // symbol.
   for (const auto &pos_count : other.pos_counts)
     pos_counts[pos_count.first] += pos_count.second;
+  return total_count_change;
 }
 
 void SymbolMap::AddSymbolToMap(const Symbol &symbol) {
diff --git a/symbol_map.h b/symbol_map.h
index 6613f9e..0c52a08 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -184,9 +184,9 @@ class Symbol {
 
   std::string name() const { return Name(info.func_name); }
 
-  void PopulateSymbolRetainingHotInlineStacks(Symbol &, const uint64_t,
-                                              SymbolMap &, uint64_t &,
-                                              uint64_t &);
+  int64_t PopulateSymbolRetainingHotInlineStacks(Symbol &, const uint64_t,
+                                                 SymbolMap &, uint64_t &,
+                                                 uint64_t &);
 
   // Merges profile stored in src symbol with this symbol.
   void Merge(const Symbol *src);
-- 
2.43.0


From 47ec638bd285c4dac868482b524716fb4e0f416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:08 +0000
Subject: [PATCH 50/64] fix: count the edges within initial chains when scoring
 them

---
 llvm_propeller_node_chain_builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm_propeller_node_chain_builder.cc b/llvm_propeller_node_chain_builder.cc
index 14a96ab..d945acd 100644
--- a/llvm_propeller_node_chain_builder.cc
+++ b/llvm_propeller_node_chain_builder.cc
@@ -494,6 +494,8 @@ void NodeChainBuilder::InitChainEdges() {
     });
   }
   for (auto &[chain_id, chain] : chains_) {
+    // Chains given initially may have edges between their nodes.
+    chain->SortIntraChainEdges(*node_to_bundle_mapper_);
     chain->SetScore(
         chain->ComputeScore(*node_to_bundle_mapper_, code_layout_scorer_));
   }
-- 
2.43.0


From 74822963f58ff845f9d50a5461e9aadde81c9dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:40 +0000
Subject: [PATCH 51/64] fix: do not compute with the string offsets base before
 DWARF 5

---
 util/symbolize/index_helper.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/symbolize/index_helper.cc b/util/symbolize/index_helper.cc
index aa45811..e2e58ff 100644
--- a/util/symbolize/index_helper.cc
+++ b/util/symbolize/index_helper.cc
@@ -20,8 +20,7 @@ const char* get_offset_pointer_in_str_offsets_table(uint64 str_index,
                                               uint64 str_offset_base,
                                               uint8 offset_size, 
                                               uint16 version){
-  const char* offset_ptr =
-      str_offset_buffer + str_offset_base + (str_index * offset_size);
+  const char* offset_ptr = NULL;
 
   // In DWARF5 we have to include base_address to the calculation. 
   if (version == 5)
-- 
2.43.0


From 678c4d913693791c9eee4ed8550fec537d308214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:00 +0000
Subject: [PATCH 52/64] fix: skip all bytes of indices into the table of
 addresses

---
 util/symbolize/dwarf2reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 2dc3334..4865c0e 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -817,7 +817,7 @@ const char* CompilationUnit::ProcessAttribute(
     case DW_FORM_GNU_addr_index: {
       CHECK(addr_buffer_ != NULL);
       uint64 addr_index = 0;
-      size_t len;
+      len = 0;
       switch (form) {
         case DW_FORM_addrx1: {
           addr_index = reader_->ReadOneByte(start);
@@ -825,7 +825,7 @@ const char* CompilationUnit::ProcessAttribute(
             break;
         }
         case DW_FORM_addrx2: {
-          uint64 addr_index = reader_->ReadTwoBytes(start);
+          addr_index = reader_->ReadTwoBytes(start);
           len += 2;
             break;
         }
@@ -852,7 +852,7 @@ const char* CompilationUnit::ProcessAttribute(
                                                                 reader_->AddressSize())
                           );
       ProcessAttributeUnsigned(dieoffset, attr, form, v);
-      return start + 1;
+      return start + len;
       break;  
     }
     case DW_FORM_implicit_const: {
-- 
2.43.0


From af63b2cc68bfc4710a8baf3e83ad875fe1752f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:00 +0000
Subject: [PATCH 53/64] fix: ends of functions may be indices into the table of
 addresses

---
 util/symbolize/addr2line_inlinestack.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index fc52a94..cd68571 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -46,6 +46,23 @@ bool SubprogramContains(
 
 namespace devtools_crosstool_autofdo {
 
+namespace {
+bool IsAddressForm(enum DwarfForm form) {
+  switch (form) {
+    case DW_FORM_addr:
+    case DW_FORM_addrx:
+    case DW_FORM_addrx1:
+    case DW_FORM_addrx2:
+    case DW_FORM_addrx3:
+    case DW_FORM_addrx4:
+    case DW_FORM_GNU_addr_index:
+      return true;
+    default:
+      return false;
+  }
+}
+}  // namespace
+
 void SubprogramInfo::SwapAddressRanges(AddressRangeList::RangeList *ranges) {
   address_ranges_.swap(*ranges);
 }
@@ -345,7 +362,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         break;
       case DW_AT_high_pc:
         subprogram_stack_.back()->SetSingletonRangeHigh(
-            data, form != DW_FORM_addr);
+            data, !IsAddressForm(form));
         break;
       case DW_AT_ranges: {
         CHECK_EQ(0, subprogram_stack_.back()->address_ranges()->size());
-- 
2.43.0


From 294082f31a85bdc1cc0907ca8ef22011762f0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:00 +0000
Subject: [PATCH 54/64] fix: look for .dwo files in the directory of the
 compilation

---
 util/symbolize/dwarf2reader.cc | 22 ++++++++++++++--------
 util/symbolize/dwarf2reader.h  |  6 ++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 4865c0e..fd01fbc 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -42,7 +42,7 @@ CompilationUnit::CompilationUnit(const string& path,
       line_str_buffer_(NULL), line_str_buffer_length_(0),
       str_offsets_buffer_(NULL), str_offsets_buffer_length_(0),
       addr_buffer_(NULL), addr_buffer_length_(0),
-      is_split_dwarf_(false), dwo_name_(),
+      is_split_dwarf_(false), dwo_name_(), comp_dir_(),
       skeleton_dwo_id_(0), have_checked_for_dwp_(false), dwp_path_(),
       dwp_byte_reader_(NULL), dwp_reader_(NULL), malformed_(false) {}
 
@@ -55,7 +55,7 @@ CompilationUnit::CompilationUnit(const string& path, const string& dwp_path,
       line_str_buffer_(NULL), line_str_buffer_length_(0),
       str_offsets_buffer_(NULL), str_offsets_buffer_length_(0),
       addr_buffer_(NULL), addr_buffer_length_(0),
-      is_split_dwarf_(false), dwo_name_(),
+      is_split_dwarf_(false), dwo_name_(), comp_dir_(),
       skeleton_dwo_id_(0), have_checked_for_dwp_(false), dwp_path_(dwp_path),
       dwp_byte_reader_(NULL), dwp_reader_(NULL), malformed_(false) {}
 
@@ -489,6 +489,7 @@ uint64 CompilationUnit::Start(uint64 offset) {
   malformed_ = false;
 
   dwo_name_ = NULL;
+  comp_dir_ = NULL;
   skeleton_dwo_id_ = 0;
 
   return Start();
@@ -1015,8 +1016,13 @@ void CompilationUnit::ProcessSplitDwarf() {
   }
   if (!found_in_dwp) {
     // If no .dwp file, try to open the .dwo file.
-    if (stat(dwo_name_, &statbuf) == 0) {
-      ElfReader elf(dwo_name_);
+    string dwo_path = dwo_name_;
+    if (comp_dir_ != NULL && dwo_path.compare(0, 1, "/") != 0) {
+      dwo_path = string(comp_dir_) + "/" + dwo_path;
+      if (stat(dwo_path.c_str(), &statbuf) != 0) dwo_path = dwo_name_;
+    }
+    if (stat(dwo_path.c_str(), &statbuf) == 0) {
+      ElfReader elf(dwo_path);
       int width = GetElfWidth(elf);
       if (width != 0) {
         ByteReader reader(ENDIANNESS_NATIVE);
@@ -1048,18 +1054,18 @@ void CompilationUnit::ProcessSplitDwarf() {
         }
 
         
-        CompilationUnit dwo_comp_unit(dwo_name_, sections, 0, &reader,
+        CompilationUnit dwo_comp_unit(dwo_path, sections, 0, &reader,
                                       handler_);
         dwo_comp_unit.SetSplitDwarf(addr_buffer_, addr_buffer_length_, header_.dwo_id);
         dwo_comp_unit.Start();
         if (dwo_comp_unit.malformed())
-          LOG(WARNING) << "File '" << dwo_name_ << "' has mangled "
+          LOG(WARNING) << "File '" << dwo_path << "' has mangled "
                        << ".debug_info.dwo section.";
       } else {
-        LOG(WARNING) << "File '" << dwo_name_ << "' is not an ELF file.";
+        LOG(WARNING) << "File '" << dwo_path << "' is not an ELF file.";
       }
     } else if (dwp_reader_ == NULL) {
-      LOG(WARNING) << "Cannot open file '" << dwo_name_ << "'.";
+      LOG(WARNING) << "Cannot open file '" << dwo_path << "'.";
     }
   }
 }
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 130f45e..adeb46a 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -625,6 +625,8 @@ class CompilationUnit {
                               const char* data) {
     if (attr == DW_AT_GNU_dwo_name || attr == DW_AT_dwo_name)
       dwo_name_ = data;
+    else if (attr == DW_AT_comp_dir)
+      comp_dir_ = data;
     handler_->ProcessAttributeString(offset, attr, form, data);
   }
 
@@ -707,6 +709,10 @@ class CompilationUnit {
   // The value of the DW_AT_GNU_dwo_name attribute, if any.
   const char* dwo_name_;
 
+  // The value of the DW_AT_comp_dir attribute, which the name of the .dwo file
+  // is relative to.
+  const char* comp_dir_;
+
   // If this is a split DWARF CU, the value of the DW_AT_GNU_dwo_id attribute
   // from the skeleton CU.
   uint64 skeleton_dwo_id_;
-- 
2.43.0


From f51c4d2b621edba49440bccedf74ac4b64018379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:00 +0000
Subject: [PATCH 55/64] fix: find the range lists of split units

---
 util/symbolize/addr2line_inlinestack.cc | 13 ++++++++++++-
 util/symbolize/addr2line_inlinestack.h  |  2 ++
 util/symbolize/dwarf2reader.cc          | 17 ++++++++++++-----
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index cd68571..6f9fc91 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -47,6 +47,9 @@ bool SubprogramContains(
 namespace devtools_crosstool_autofdo {
 
 namespace {
+// The size of the header of a table of range lists in 32-bit DWARF.
+constexpr uint64 kRngListsHeaderSize = 12;
+
 bool IsAddressForm(enum DwarfForm form) {
   switch (form) {
     case DW_FORM_addr:
@@ -120,6 +123,9 @@ bool InlineStackHandler::StartCompilationUnit(uint64 offset,
   CHECK(subprogram_stack_.empty());
   compilation_unit_offset_ = offset;
   compilation_unit_base_ = 0;
+  ranges_base_ = 0;
+  addr_base_ = 0;
+  str_offset_base_ = 0;
   have_two_level_line_tables_ = false;
   subprogram_added_by_cu_ = false;
   if (input_file_index_ == -1) {
@@ -142,6 +148,8 @@ bool InlineStackHandler::StartSplitCompilationUnit(uint64 offset,
   compilation_unit_offset_ = offset;
   input_file_index_ = subprograms_by_offset_maps_.size();
   subprograms_by_offset_maps_.push_back(new SubprogramsByOffsetMap);
+  // The range lists of a .dwo file start behind the header of their table.
+  if (dwarf_version_ >= 5) ranges_base_ = kRngListsHeaderSize;
   return true;
 }
 
@@ -369,6 +377,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
+          // Before DWARF 5, offsets in .dwo files are relative to the base that
+          // the skeleton unit gives.
+          if (input_file_index_ != 0 && dwarf_version_ < 5) data += ranges_base_;
           address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_);
         }
         else {
@@ -461,7 +472,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         break;
       case DW_AT_ranges: 
         CHECK(form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8);
-        FALLTHROUGH_INTENDED;
+        break;
       case DW_AT_GNU_ranges_base:
       case DW_AT_rnglists_base:
         ranges_base_ = data;     
diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index c178711..6ec0598 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -223,6 +223,8 @@ class InlineStackHandler: public Dwarf2Handler {
     line_handler_ = handler;
   }
 
+  AddressRangeList *address_range_list() const { return address_ranges_; }
+
   void set_address_range_list(AddressRangeList *address_ranges) {
     address_ranges_ = address_ranges;
   }
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index fd01fbc..f04b394 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -19,6 +19,7 @@
 #include <unistd.h>
 #include <stdint.h>
 #include <string.h>
+#include <memory>
 #include <stack>
 #include <utility>
 
@@ -1035,25 +1036,28 @@ void CompilationUnit::ProcessSplitDwarf() {
         const char *debug_ranges_data = NULL;
         size_t debug_rnglist_size = 0;
         const char *debug_rnglist_data = NULL;
+        std::unique_ptr<AddressRangeList> debug_ranges;
+        InlineStackHandler *inlinestackhandler = NULL;
+        AddressRangeList *skeleton_ranges = NULL;
         if (iter != sections.end()) {
           debug_rnglist_data = iter->second.first;
           debug_rnglist_size = iter->second.second;
-          AddressRangeList *debug_ranges = 
-                new AddressRangeList(debug_ranges_data,
+          debug_ranges =
+                std::make_unique<AddressRangeList>(debug_ranges_data,
                                       debug_ranges_size,
                                       debug_rnglist_data,
                                       debug_rnglist_size,
                                       &reader,
                                       addr_buffer_, 
                                       addr_buffer_length_);
-          InlineStackHandler *inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
+          inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
           if(!inlinestackhandler)  {
             LOG(FATAL) << "It is not possbile to process the .debug_rnglists sections in seperate .dwo files without InlineStackHandler.";
           }
-          inlinestackhandler->set_address_range_list(debug_ranges);
+          skeleton_ranges = inlinestackhandler->address_range_list();
+          inlinestackhandler->set_address_range_list(debug_ranges.get());
         }
 
-        
         CompilationUnit dwo_comp_unit(dwo_path, sections, 0, &reader,
                                       handler_);
         dwo_comp_unit.SetSplitDwarf(addr_buffer_, addr_buffer_length_, header_.dwo_id);
@@ -1061,6 +1065,9 @@ void CompilationUnit::ProcessSplitDwarf() {
         if (dwo_comp_unit.malformed())
           LOG(WARNING) << "File '" << dwo_path << "' has mangled "
                        << ".debug_info.dwo section.";
+        // What follows in the binary has ranges of its own again.
+        if (inlinestackhandler != NULL)
+          inlinestackhandler->set_address_range_list(skeleton_ranges);
       } else {
         LOG(WARNING) << "File '" << dwo_path << "' is not an ELF file.";
       }
-- 
2.43.0


From d6eef3d85fc6bcbe4771018635a009a0b7dbb8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 56/64] fix: compare summaries of different lengths

---
 profile_writer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profile_writer.cc b/profile_writer.cc
index 3b5323d..143c555 100644
--- a/profile_writer.cc
+++ b/profile_writer.cc
@@ -277,7 +277,8 @@ bool ProfileSummaryInformation::operator==(
       && num_counts_ == other.num_counts_
       && num_functions_ == other.num_functions_
       && std::equal(detailed_summaries_.begin(), detailed_summaries_.end(),
-                    other.detailed_summaries_.begin());
+                    other.detailed_summaries_.begin(),
+                    other.detailed_summaries_.end());
 }
 
 bool ProfileSummaryInformation::DetailedSummary::operator==(
-- 
2.43.0


From 09871a4c831898ecec82c7bd62df6ce2edce2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:02 +0000
Subject: [PATCH 57/64] fix: read DWARF 5 line tables with file sizes, times
 and checksums

---
 util/symbolize/dwarf2reader.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index f04b394..9cfba78 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1474,6 +1474,16 @@ bool LineInfo::ReadUnsignedForm(uint32 form, uint64* value,
     if (!AdvanceLinePtr(2, lineptr)) {
       return false;
     }
+  } else if (form == DW_FORM_data4) {
+    *value = reader_->ReadFourBytes(*lineptr);
+    if (!AdvanceLinePtr(4, lineptr)) {
+      return false;
+    }
+  } else if (form == DW_FORM_data8) {
+    *value = reader_->ReadEightBytes(*lineptr);
+    if (!AdvanceLinePtr(8, lineptr)) {
+      return false;
+    }
   } else {
     return false;
   }
@@ -1676,7 +1686,7 @@ void LineInfo::ReadHeader() {
 
     // Read the DWARF-5 filename table.
     {
-      static const uint32 kMaxTypes = 4;
+      static const uint32 kMaxTypes = 5;
       uint32 content_types[kMaxTypes];
       uint32 content_forms[kMaxTypes];
       uint32 format_count;
@@ -1707,6 +1717,22 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
+          } else if (content_types[col] == DW_LNCT_timestamp) {
+            if (!ReadUnsignedForm(content_forms[col], &mod_time, &lineptr)) {
+              malformed_ = true;
+              return;
+            }
+          } else if (content_types[col] == DW_LNCT_size) {
+            if (!ReadUnsignedForm(content_forms[col], &filelength,
+                                  &lineptr)) {
+              malformed_ = true;
+              return;
+            }
+          } else if (content_types[col] == DW_LNCT_MD5 &&
+                     content_forms[col] == DW_FORM_data16) {
+            if (!AdvanceLinePtr(16, &lineptr)) {
+              return;
+            }
           } else {
             malformed_ = true;
             return;
-- 
2.43.0


From 4e07ad42e4d79f1652a55034018407f29c5c9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 58/64] fix: read partial units

---
 util/symbolize/dwarf2reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 9cfba78..50fe9c1 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -269,6 +269,7 @@ const char* CompilationUnit::SkipAttribute(const char* start, enum DwarfForm for
     }
       break;
     case DW_FORM_strp:
+    case DW_FORM_line_strp:
     case DW_FORM_strp_sup:
     case DW_FORM_sec_offset:
         return start + reader_->OffsetSize();
@@ -392,6 +393,7 @@ void CompilationUnit::ReadHeader() {
       // Type units are skipped later, only their length is needed.
       if (header_.unit_type != DwarfUnitType::DW_UT_compile &&
           header_.unit_type != DwarfUnitType::DW_UT_type &&
+          header_.unit_type != DwarfUnitType::DW_UT_partial &&
           header_.unit_type != DwarfUnitType::DW_UT_skeleton &&
           header_.unit_type != DwarfUnitType::DW_UT_split_compile &&
           header_.unit_type != DwarfUnitType::DW_UT_split_type)
-- 
2.43.0


From ebb123f5403539690d08707ff4996705c69e68b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:45 +0000
Subject: [PATCH 59/64] fix: ignore empty entries of DWARF 2 to 4 range lists

As in DWARF 5 range lists. An empty entry at the end of a function made the
function that follows it, or the function itself, be dropped as overlapping.
---
 util/symbolize/dwarf3ranges.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/symbolize/dwarf3ranges.cc b/util/symbolize/dwarf3ranges.cc
index 48c8b85..a992984 100644
--- a/util/symbolize/dwarf3ranges.cc
+++ b/util/symbolize/dwarf3ranges.cc
@@ -54,7 +54,7 @@ void AddressRangeList::ReadDwarfRangeList(uint64 offset, uint64 base,
       base = stop;
     else if (start == 0 && stop == 0)
       break;
-    else
+    else if (start != stop)
       ranges->push_back(make_pair(start+base, stop+base));
     pos += 2*width;
   } while (true);
-- 
2.43.0


From da0f6fca7492c4fdfff6f9bff13571d37fa13173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:49 +0000
Subject: [PATCH 60/64] fix: take only the symbols of .text from kernel modules

All sections of a module start at address 0, so that functions of .init.text
took the place of those of .text or became their aliases.
---
 symbol_map.cc                | 14 ++++++++++++--
 util/symbolize/elf_reader.cc |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 29a432d..d2fb8ea 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -508,9 +508,19 @@ void SymbolMap::BuildSymbolMap() {
   SourceInfo::use_base_only_in_fs_discriminator = false;
 #endif
   SymbolReader symbol_reader(&name_alias_map_, &address_symbol_map_);
-  symbol_reader.filter = [](const char *name, uint64_t address, uint64_t size,
-                            int binding, int type, int section) {
+  // The sections of a kernel module all start at address 0. As in
+  // ReadLoadableExecSegmentInfo, only .text counts.
+  const bool text_only =
+      IsKernelModule(binary_) && elf_reader.GetSegmentInfo().empty();
+  symbol_reader.filter = [&elf_reader, text_only](
+                             const char *name, uint64_t address, uint64_t size,
+                             int binding, int type, int section) {
     if (strcmp(name, get_fs_discriminator_symbol()) == 0) return true;
+    if (text_only) {
+      const char *section_name = elf_reader.GetSectionName(section);
+      if (section_name == nullptr || strcmp(section_name, ".text") != 0)
+        return false;
+    }
 
     static const std::regex kSuffixRe(R"(\.__part\.\d+$)");
     return (size != 0 &&
diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index e5d0d56..cb0a66e 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -387,6 +387,7 @@ class ElfReaderImpl {
   // Return the name of section "shndx".  Returns NULL if the section
   // is not found.
   const char *GetSectionNameByIndex(int shndx) {
+    if (shndx < 0 || shndx >= GetNumSections()) return NULL;
     return GetSectionName(section_headers_[shndx].sh_name);
   }
 
-- 
2.43.0


From 7038ce40f453ae0e42e1fb3fdef86472b07519a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:45 +0000
Subject: [PATCH 61/64] fix: tell the sections of a kernel module apart in
 inline stacks

All sections of a module start at address 0, so that code of .text was taken
for functions of .init.text and other sections.
---
 addr2line.cc | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/addr2line.cc b/addr2line.cc
index 9c5ee37..3ac010c 100644
--- a/addr2line.cc
+++ b/addr2line.cc
@@ -49,6 +49,23 @@ llvm::object::OwningBinary<llvm::object::ObjectFile> GetOwningBinary(
   }
   return std::move(object_owning_binary_or_err.get());
 }
+
+// All sections of a kernel module start at address 0. This moves the code of
+// those other than .text out of the way.
+class KernelModuleLayout
+    : public llvm::LoadedObjectInfoHelper<KernelModuleLayout> {
+ public:
+  KernelModuleLayout() = default;
+  uint64_t getSectionLoadAddress(
+      const llvm::object::SectionRef &section) const override {
+    auto name = section.getName();
+    if (!name) {
+      llvm::consumeError(name.takeError());
+      return 0;
+    }
+    return section.isText() && *name != ".text" ? section.getIndex() << 40 : 0;
+  }
+};
 }  // namespace
 
 namespace devtools_crosstool_autofdo {
@@ -68,7 +85,14 @@ LLVMAddr2line::LLVMAddr2line(absl::string_view binary_name)
 
 bool LLVMAddr2line::Prepare() {
   if (!binary_.getBinary()) return false;
-  dwarf_info_ = llvm::DWARFContext::create(*binary_.getBinary());
+  const KernelModuleLayout layout;
+  dwarf_info_ = llvm::DWARFContext::create(
+      *binary_.getBinary(),
+      llvm::DWARFContext::ProcessDebugRelocations::Process,
+      binary_.getBinary()->isRelocatableObject() &&
+              IsKernelModule(binary_.getBinary()->getFileName())
+          ? &layout
+          : nullptr);
   for (auto &unit : dwarf_info_->compile_units()) {
     unit_map_[unit->getOffset()] = unit.get();
   }
-- 
2.43.0


From c9964c3d2171b3f17b30e61ec95d21c84749a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:32 +0000
Subject: [PATCH 62/64] fix: take only build id notes for the build id of a
 binary

The .notes section of a kernel holds GNU notes of other types as well.
---
 llvm_propeller_binary_content.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_content.cc b/llvm_propeller_binary_content.cc
index 7a28c52..db9742a 100644
--- a/llvm_propeller_binary_content.cc
+++ b/llvm_propeller_binary_content.cc
@@ -133,7 +133,8 @@ std::string ELFFileUtil<ELFT>::GetBuildId() {
     llvm::Error err = llvm::Error::success();
     for (const typename ELFT::Note &note : elf_file_->notes(shdr, err)) {
       llvm::StringRef r = note.getName();
-      if (r == kBuildIdNoteName) {
+      if (r == kBuildIdNoteName &&
+          note.getType() == llvm::ELF::NT_GNU_BUILD_ID) {
         llvm::ArrayRef<uint8_t> build_id = note.getDesc(shdr.sh_addralign);
         std::string build_id_str(build_id.size() * 2, '0');
         int k = 0;
-- 
2.43.0


From 28559fb77ad38d5e6512cfc8878c7c2f8765a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:45 +0000
Subject: [PATCH 63/64] fix: count no range that ends in another binary

The offsets of two files have nothing to do with each other.
---
 sample_reader.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index 9a5c418..1e11466 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -349,17 +349,20 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
         LOG(WARNING) << "Bogus LBR data (duplicated top entry)";
         continue;
       }
-      uint64_t begin = event.branch_stack[i].to.offset();
-      uint64_t end = event.branch_stack[prev].from.offset();
-      // The interval between two taken branches should not be too large.
-      if (end < begin || end - begin > (1 << 20)) {
-        const std::string reason =
-            (end < begin ? "(range is negative)" : "(range is too large)");
-        LOG(WARNING) << "Bogus LBR data " << reason << ": " << std::hex << begin
-                     << "->" << end << " index=" << i;
-        continue;
+      // Without a source in the binary, what was run since is not known.
+      if (MatchBinary(event.branch_stack[prev].from)) {
+        uint64_t begin = event.branch_stack[i].to.offset();
+        uint64_t end = event.branch_stack[prev].from.offset();
+        // The interval between two taken branches should not be too large.
+        if (end < begin || end - begin > (1 << 20)) {
+          const std::string reason =
+              (end < begin ? "(range is negative)" : "(range is too large)");
+          LOG(WARNING) << "Bogus LBR data " << reason << ": " << std::hex << begin
+                       << "->" << end << " index=" << i;
+          continue;
+        }
+        range_count_map_[Range(begin, end)]++;
       }
-      range_count_map_[Range(begin, end)]++;
       if (MatchBinary(event.branch_stack[i].from)) {
         branch_count_map_[Branch(event.branch_stack[i].from.offset(),
                                  event.branch_stack[i].to.offset())]++;
-- 
2.43.0


From 13ed4df23046817cbffc1c2fbb2c9459b4686225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:44 +0000
Subject: [PATCH 64/64] fix: look for no hot address in a function without
 basic blocks

---
 llvm_propeller_binary_address_mapper.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm_propeller_binary_address_mapper.cc b/llvm_propeller_binary_address_mapper.cc
index b83daad..1152345 100644
--- a/llvm_propeller_binary_address_mapper.cc
+++ b/llvm_propeller_binary_address_mapper.cc
@@ -314,6 +314,8 @@ absl::btree_set<int> BinaryAddressMapperBuilder::CalculateHotFunctions(
                             });
     if (it == bb_addr_map_.begin()) return;
     it = std::prev(it);
+    // An entry without basic blocks covers no address.
+    if (it->getBBEntries().empty()) return;
     // We know the address is bigger than or equal to the function address. Make
     // sure that it doesn't point beyond the last basic block.
     if (binary_address >= it->getFunctionAddress() +
-- 
2.43.0

