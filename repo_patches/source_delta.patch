From 9a82b4a6a486396bd5fa965b1f0aeccec9edb055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 01/16] fix: BatchProof::Unserialize forgets the positions the
 object held before

---
 src/batchproof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 18718b2..42c0926 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -67,6 +67,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     m_targets.clear();
+    m_sorted_targets.clear();
     m_proof.clear();
     m_targets.reserve(num_targets);
     m_sorted_targets.reserve(num_targets);
-- 
2.43.0


From 316483aa8e1bdde1186b8dfa81decc14ca0ecbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 02/16] fix: UndoBatch::Unserialize checks the length without
 32-bit overflow

A message of 8 bytes that claims 0x40000000 deletions passed the size check
(36 * n wraps to 0) and was then read far beyond its end. A default
constructed UndoBatch also serialized an uninitialised number of additions.
---
 include/batchproof.h | 2 +-
 src/batchproof.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/batchproof.h b/include/batchproof.h
index 37d4791..7e8415f 100644
--- a/include/batchproof.h
+++ b/include/batchproof.h
@@ -57,7 +57,7 @@ public:
 class UndoBatch
 {
 private:
-    uint64_t m_num_additions;
+    uint64_t m_num_additions{0};
     std::vector<uint64_t> m_deleted_positions;
     std::vector<std::array<uint8_t, 32>> m_deleted_hashes;
 
diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 42c0926..e789242 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -169,7 +169,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
     data_offset += 4;
 
-    if (bytes.size() != 4 + 4 + 4 * num_targets + 32 * num_targets) {
+    if (bytes.size() != 8ULL + num_targets * 4ULL + num_targets * 32ULL) {
         return false;
     }
 
-- 
2.43.0


From f0cf304a558aaa40c7d39167f309d81537617a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 03/16] fix: ComparePositionMap reports a hash the other
 accumulator does not have

The iterator was dereferenced without checking that the hash was found.
---
 src/accumulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index ea15b74..f1b7fc8 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -71,7 +71,7 @@ bool Accumulator::ComparePositionMap(Accumulator& other) const
 {
     for (auto [hash, pos] : m_posmap) {
         auto it_other = other.m_posmap.find(hash);
-        if (it_other->second != pos) {
+        if (it_other == other.m_posmap.end() || it_other->second != pos) {
             return false;
         }
     }
-- 
2.43.0


From 19d2d3988623d0fe82465b9dec96f3ef40b800cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 04/16] fix: Pollard::Prune forgets the positions of the leaves
 it prunes

The stale positions made Prove return proofs for leaves at positions they
had long left.
---
 src/pollard.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index d72444a..64e527f 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -352,6 +352,8 @@ void Pollard::Prune()
     for (NodePtr<Accumulator::Node>& root : m_roots) {
         INTERNAL_NODE(root)->Chop();
     }
+    // Nothing is remembered any more, so no leaf can be proven from here on.
+    m_posmap.clear();
     assert(m_remember.use_count() == 1);
 }
 
-- 
2.43.0


From e2cf3841c44e2db0dc7d73f01495c1b777c43e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 05/16] fix: RamForest::Undo checks the undo batch first and
 restores missing rows

Undoing a modification after a reopen that shrank the number of rows read
past the end of the row data, and an undo batch that does not fit the
forest left it half undone.
---
 src/ram_forest.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 3927eef..1ae18b4 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -379,7 +379,28 @@ bool RamForest::Undo(const UndoBatch& undo)
 {
     if (m_data.size() == 0) return true;
 
-    ForestState prev_state(m_num_leaves + undo.GetDeletedPositions().size() - undo.GetNumAdds());
+    // Check the undo batch against the forest before anything is changed, so that an undo batch
+    // that does not belong to the latest modification can not leave the forest half undone.
+    if (undo.GetNumAdds() > m_num_leaves) return false;
+    if (undo.GetDeletedPositions().size() != undo.GetDeletedHashes().size()) return false;
+
+    ForestState prev_state(m_num_leaves - undo.GetNumAdds() + undo.GetDeletedPositions().size());
+    if (!prev_state.CheckTargetsSanity(undo.GetDeletedPositions())) return false;
+
+    std::unordered_set<Hash, LeafHasher> deleted_hashes;
+    for (const Hash& hash : undo.GetDeletedHashes()) {
+        // The deleted hashes have to be unique.
+        if (!deleted_hashes.insert(hash).second) return false;
+
+        // A deleted hash can only be in the forest if it was added back by the modification.
+        auto it = m_posmap.find(hash);
+        if (it != m_posmap.end() && it->second < m_num_leaves - undo.GetNumAdds()) return false;
+    }
+
+    // The forest might have had more rows before the modification.
+    while (m_data.size() <= prev_state.NumRows()) {
+        m_data.push_back(std::vector<Hash>());
+    }
 
     auto undo_swaps = prev_state.UndoTransform(undo.GetDeletedPositions());
 
-- 
2.43.0


From dbf2c942eafd0fa2ce52fd2a397db6993360e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 06/16] fix: RamForest::Commit replaces the file as a whole and
 reports failures

Commit rewrote the file in place without truncating it, so a crash or a
write error while saving left a mix of two forests, and it reported
success whether or not anything had been written.
---
 include/ram_forest.h | 12 +++++++++---
 src/ram_forest.cpp   | 39 ++++++++++++++++++++++++++-------------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/include/ram_forest.h b/include/ram_forest.h
index 6833d42..24ea5d4 100644
--- a/include/ram_forest.h
+++ b/include/ram_forest.h
@@ -1,8 +1,8 @@
 #ifndef UTREEXO_RAMFOREST_H
 #define UTREEXO_RAMFOREST_H
 
-#include <fstream>
 #include <optional>
+#include <string>
 
 #include "accumulator.h"
 
@@ -23,7 +23,6 @@ private:
 
     // Path to the file in which the forest is stored.
     std::string m_file_path;
-    std::fstream m_file;
 
     bool Restore();
 
@@ -50,6 +49,9 @@ private:
 public:
     RamForest(uint64_t num_leaves);
     RamForest(const std::string& file);
+    // There can only be one forest per file.
+    RamForest(const RamForest&) = delete;
+    RamForest& operator=(const RamForest&) = delete;
     ~RamForest();
 
     bool Verify(const BatchProof& proof, const std::vector<Hash>& target_hashes) override;
@@ -61,7 +63,11 @@ public:
 
     bool Undo(const UndoBatch& undo);
 
-    /** Save the forest to file. */
+    /**
+     * Save the forest to file.
+     * Return false if it could not be saved, in which case the file still holds the forest as it
+     * was last saved. A forest that was not constructed from a file can not be saved.
+     */
     bool Commit();
 
     Hash GetLeaf(uint64_t pos) const;
diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 1ae18b4..ae824e0 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -7,6 +7,8 @@
 #include "state.h"
 
 #include <algorithm>
+#include <cstdio>
+#include <fstream>
 #include <iostream>
 #include <unordered_set>
 
@@ -103,33 +105,31 @@ RamForest::RamForest(const std::string& file) : Accumulator(0)
 
     if (static_cast<bool>(std::fstream(file))) {
         // We can restore the forest from an existing file.
-        m_file = std::fstream(file,
-                              std::fstream::in | std::fstream::out | std::fstream::binary);
         Restore();
     } else {
         m_num_leaves = 0;
-        m_file = std::fstream(file,
-                              std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::trunc);
         Commit();
     }
 }
 
 RamForest::~RamForest()
 {
-    if (m_file.good()) {
+    if (m_file_path.empty()) return;
+
+    try {
         Commit();
-        m_file.flush();
-        m_file.close();
+    } catch (...) {
+        // A destructor can not report this, the file still holds the last forest that was saved.
     }
 }
 
 bool RamForest::Restore()
 {
+    std::ifstream file(m_file_path, std::ifstream::binary);
     char uint64_buf[8];
-    m_file.seekg(0);
 
     // restore number of leaves
-    m_file.read(reinterpret_cast<char*>(uint64_buf), 8);
+    file.read(reinterpret_cast<char*>(uint64_buf), 8);
     m_num_leaves = ReadBE64(reinterpret_cast<const uint8_t*>(uint64_buf));
 
     ForestState state(m_num_leaves);
@@ -141,7 +141,7 @@ bool RamForest::Restore()
         pos = state.RowOffset(row);
         for (uint64_t i = 0; i < num_hashes; ++i) {
             Hash hash;
-            m_file.read(reinterpret_cast<char*>(hash.data()), 32);
+            file.read(reinterpret_cast<char*>(hash.data()), 32);
             m_data[row].push_back(hash);
 
             if (num_hashes == m_num_leaves) {
@@ -163,12 +163,19 @@ bool RamForest::Restore()
 
 bool RamForest::Commit()
 {
+    // A forest that only lives in memory has nowhere to be saved to.
+    if (m_file_path.empty()) return false;
+
+    // Write a new file and only replace the existing one once the new one is complete, so that a
+    // crash or a write error always leaves a forest that can be restored.
+    const std::string tmp_path = m_file_path + ".tmp";
+    std::ofstream file(tmp_path, std::ofstream::binary | std::ofstream::trunc);
+
     char uint64_buf[8];
-    m_file.seekg(0);
 
     // commit number of leaves
     WriteBE64(reinterpret_cast<uint8_t*>(uint64_buf), m_num_leaves);
-    m_file.write(reinterpret_cast<char*>(uint64_buf), 8);
+    file.write(reinterpret_cast<char*>(uint64_buf), 8);
 
     // commit forest hashes
     ForestState state(m_num_leaves);
@@ -176,11 +183,17 @@ bool RamForest::Commit()
     for (uint8_t i = 0; i <= state.NumRows(); ++i) {
         assert(num_hashes <= m_data[i].size());
         for (int j = 0; j < num_hashes; ++j) {
-            m_file.write(reinterpret_cast<const char*>(m_data[i][j].data()), 32);
+            file.write(reinterpret_cast<const char*>(m_data[i][j].data()), 32);
         }
         num_hashes >>= 1;
     }
 
+    file.close();
+    if (!file || std::rename(tmp_path.c_str(), m_file_path.c_str()) != 0) {
+        std::remove(tmp_path.c_str());
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From f3604da278cb54be4b30284b6d3d1bd3ab24f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 07/16] fix: RamForest refuses a file it can not restore
 instead of making up a forest

A file that was truncated, unreadable or not a forest at all was restored
as whatever the failed reads left behind and then written over the file
when the forest was destroyed.
---
 include/ram_forest.h |  4 ++++
 src/ram_forest.cpp   | 31 ++++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/ram_forest.h b/include/ram_forest.h
index 24ea5d4..69fdd14 100644
--- a/include/ram_forest.h
+++ b/include/ram_forest.h
@@ -48,6 +48,10 @@ private:
 
 public:
     RamForest(uint64_t num_leaves);
+    /**
+     * Restore the forest from a file or create the file if it does not exist.
+     * Throws if the file can not be restored or created.
+     */
     RamForest(const std::string& file);
     // There can only be one forest per file.
     RamForest(const RamForest&) = delete;
diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index ae824e0..353cdfa 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -8,8 +8,10 @@
 
 #include <algorithm>
 #include <cstdio>
+#include <filesystem>
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 #include <unordered_set>
 
 namespace utreexo {
@@ -103,12 +105,17 @@ RamForest::RamForest(const std::string& file) : Accumulator(0)
     this->m_data.push_back(std::vector<Hash>());
     m_file_path = file;
 
-    if (static_cast<bool>(std::fstream(file))) {
+    // Throws if it can not be determined whether or not the file exists.
+    if (std::filesystem::exists(file)) {
         // We can restore the forest from an existing file.
-        Restore();
+        if (!Restore()) {
+            throw std::runtime_error("RamForest: failed to restore the forest from " + file);
+        }
     } else {
         m_num_leaves = 0;
-        Commit();
+        if (!Commit()) {
+            throw std::runtime_error("RamForest: failed to create " + file);
+        }
     }
 }
 
@@ -128,10 +135,24 @@ bool RamForest::Restore()
     std::ifstream file(m_file_path, std::ifstream::binary);
     char uint64_buf[8];
 
+    file.seekg(0, std::ifstream::end);
+    const std::streamoff file_size = file.tellg();
+    file.seekg(0);
+
     // restore number of leaves
-    file.read(reinterpret_cast<char*>(uint64_buf), 8);
+    if (!file.read(reinterpret_cast<char*>(uint64_buf), 8) || file_size < 8) return false;
     m_num_leaves = ReadBE64(reinterpret_cast<const uint8_t*>(uint64_buf));
 
+    // The file has to be large enough for the hashes of all rows.
+    // (There are less than two hashes per leaf, so the sum below can not overflow.)
+    const uint64_t max_hashes = static_cast<uint64_t>(file_size - 8) / 32;
+    if (m_num_leaves > max_hashes) return false;
+    uint64_t required_hashes = 0;
+    for (uint64_t row_hashes = m_num_leaves; row_hashes > 0; row_hashes >>= 1) {
+        required_hashes += row_hashes;
+    }
+    if (required_hashes > max_hashes) return false;
+
     ForestState state(m_num_leaves);
     // restore forest hashes
     uint64_t num_hashes = m_num_leaves;
@@ -141,7 +162,7 @@ bool RamForest::Restore()
         pos = state.RowOffset(row);
         for (uint64_t i = 0; i < num_hashes; ++i) {
             Hash hash;
-            file.read(reinterpret_cast<char*>(hash.data()), 32);
+            if (!file.read(reinterpret_cast<char*>(hash.data()), 32)) return false;
             m_data[row].push_back(hash);
 
             if (num_hashes == m_num_leaves) {
-- 
2.43.0


From f6cbac3c187c3c2b45b157d306207b5569b0d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 08/16] fix: never save a forest whose modification was
 interrupted by an exception

If an allocation failed in the middle of a modification or an undo, the
partially modified forest was saved over the last good one as soon as the
forest was destroyed.
---
 include/accumulator.h | 18 ++++++++++++++++++
 include/ram_forest.h  |  3 ++-
 src/accumulator.cpp   |  2 ++
 src/ram_forest.cpp    | 11 +++++++++--
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/accumulator.h b/include/accumulator.h
index 83a53d5..3294276 100644
--- a/include/accumulator.h
+++ b/include/accumulator.h
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <cassert>
+#include <exception>
 #include <memory>
 #include <optional>
 #include <stdint.h>
@@ -89,6 +90,23 @@ protected:
     // of all the leaves.
     std::unordered_map<Hash, uint64_t, LeafHasher> m_posmap;
 
+    // Set if an exception interrupted a modification, after which the accumulator might be in a
+    // state that is neither the one before nor the one after the modification.
+    bool m_interrupted{false};
+
+    /* Sets m_interrupted if it is destroyed by an exception. */
+    class ModifyGuard
+    {
+    private:
+        bool& m_interrupted;
+        const int m_num_exceptions;
+
+    public:
+        ModifyGuard(bool& interrupted)
+            : m_interrupted(interrupted), m_num_exceptions(std::uncaught_exceptions()) {}
+        ~ModifyGuard() { m_interrupted |= std::uncaught_exceptions() > m_num_exceptions; }
+    };
+
     void UpdatePositionMapForRange(uint64_t from, uint64_t to, uint64_t range);
     void UpdatePositionMapForSubtreeSwap(uint64_t from, uint64_t to);
 
diff --git a/include/ram_forest.h b/include/ram_forest.h
index 69fdd14..5c7de2e 100644
--- a/include/ram_forest.h
+++ b/include/ram_forest.h
@@ -70,7 +70,8 @@ public:
     /**
      * Save the forest to file.
      * Return false if it could not be saved, in which case the file still holds the forest as it
-     * was last saved. A forest that was not constructed from a file can not be saved.
+     * was last saved. A forest that was not constructed from a file can not be saved and neither
+     * can one that is only partially modified, because an exception interrupted a modification.
      */
     bool Commit();
 
diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index f1b7fc8..6e090a5 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -23,6 +23,8 @@ Accumulator::~Accumulator() {}
 
 bool Accumulator::Modify(const std::vector<Leaf>& leaves, const std::vector<uint64_t>& targets)
 {
+    ModifyGuard guard(m_interrupted);
+
     if (!Remove(targets)) return false;
     if (!Add(leaves)) return false;
 
diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 353cdfa..ac57daf 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -184,8 +184,9 @@ bool RamForest::Restore()
 
 bool RamForest::Commit()
 {
-    // A forest that only lives in memory has nowhere to be saved to.
-    if (m_file_path.empty()) return false;
+    // A forest that only lives in memory has nowhere to be saved to and
+    // a forest that is only partially modified must not replace the one in the file.
+    if (m_file_path.empty() || m_interrupted) return false;
 
     // Write a new file and only replace the existing one once the new one is complete, so that a
     // crash or a write error always leaves a forest that can be restored.
@@ -356,6 +357,8 @@ bool RamForest::Verify(const BatchProof& proof, const std::vector<Hash>& target_
 
 bool RamForest::Add(const std::vector<Leaf>& leaves)
 {
+    ModifyGuard guard(m_interrupted);
+
     // Preallocate data with the required size.
     ForestState next_state(m_num_leaves + leaves.size());
     for (uint8_t row = 0; row <= next_state.NumRows(); ++row) {
@@ -378,6 +381,8 @@ bool RamForest::Modify(UndoBatch& undo,
                        const std::vector<Leaf>& leaves,
                        const std::vector<uint64_t>& targets)
 {
+    ModifyGuard guard(m_interrupted);
+
     if (!RamForest::Remove(targets)) return false;
     if (!BuildUndoBatch(undo, leaves.size(), targets)) return false;
     if (!RamForest::Add(leaves)) return false;
@@ -413,6 +418,8 @@ bool RamForest::Undo(const UndoBatch& undo)
 {
     if (m_data.size() == 0) return true;
 
+    ModifyGuard guard(m_interrupted);
+
     // Check the undo batch against the forest before anything is changed, so that an undo batch
     // that does not belong to the latest modification can not leave the forest half undone.
     if (undo.GetNumAdds() > m_num_leaves) return false;
-- 
2.43.0


From 59d75e489cf1c61f0235c6ec66ccf0f3a7e6fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 09/16] fix: a proof that fails to verify does not make the
 pollard remember leaves

Targets were marked as remembered while the proof was still being checked
and the marks on nodes that were already cached stayed behind.
---
 src/pollard.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 64e527f..84ae3a7 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -601,8 +601,6 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
                     proof_node->m_node->m_hash = *target_hash;
                 }
 
-                proof_node->m_sibling->m_nieces[0] = m_remember;
-
                 ++target_hash;
                 continue;
             }
@@ -703,6 +701,11 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
     }
 
     // All targets are now remembered.
+    // This can only be done now that the whole proof is known to be valid.
+    for (const NodePtr<Pollard::Node>& leaf : proof_tree) {
+        if (leaf->IsTargetOrAncestor()) leaf->m_sibling->m_nieces[0] = m_remember;
+    }
+
     for (int i = 0; i < target_hashes.size(); i++) {
         m_posmap[target_hashes[i]] = proof.GetSortedTargets()[i];
     }
-- 
2.43.0


From 293b2fdbd55ec1e9f50869616b3649e4cf9534e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 10/16] fix: an exception in Pollard::Verify leaves the pollard
 as it was

If an allocation failed while a proof was being verified the empty nodes
created for it stayed in the pollard and were later used as if cached.
---
 src/pollard.cpp | 71 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 84ae3a7..de593dc 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -475,26 +475,28 @@ bool Pollard::CreateProofTree(std::vector<NodePtr<Pollard::Node>>& proof_tree_ou
                 // in the proof tree.
                 NodePtr<Pollard::Node> left_child = nullptr;
                 NodePtr<Pollard::Node> right_child = nullptr;
-                bool recover_left = false, recover_right = false;
+                bool recover_left = !node->m_sibling->m_nieces[0];
+                bool recover_right = !node->m_sibling->m_nieces[1];
 
-                // Initialise the children of this computed node.
-                // If the children dont exist in the pollard we need create and
-                // insert them.
-                InitChildrenOfComputed(node, left_child, right_child,
-                                       recover_left, recover_right);
-
-                // Remember which nodes were inserted for recovery purposes.
+                // Remember which nodes will be inserted for recovery purposes.
+                // (This has to happen before they are, in case inserting them is interrupted.)
                 if (recover_left && recover_right) {
-                    // Both children were newly inserted into the pollard.
+                    // Both children will be newly inserted into the pollard.
                     recovery.emplace_back(node, RECOVERY_CHOP_BOTH);
                 } else if (recover_left) {
-                    // Only the left child was inserted.
+                    // Only the left child will be inserted.
                     recovery.emplace_back(node, RECOVERY_CHOP_LEFT);
                 } else if (recover_right) {
-                    // Only the right child was inserted.
+                    // Only the right child will be inserted.
                     recovery.emplace_back(node, RECOVERY_CHOP_RIGHT);
                 }
 
+                // Initialise the children of this computed node.
+                // If the children dont exist in the pollard we need create and
+                // insert them.
+                InitChildrenOfComputed(node, left_child, right_child,
+                                       recover_left, recover_right);
+
                 // Prepend the children to next row of the proof tree.
                 next_row.push_front(right_child);
                 next_row.push_front(left_child);
@@ -660,15 +662,11 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
     using IntersectionNode = std::pair<NodePtr<Pollard::Node>, int>;
     std::vector<IntersectionNode> recovery_tree;
 
-    // Populate the proof tree from top to bottom.
-    // This adds new empty nodes to the pollard that will either hold
-    // proof hashes or hashes that were computed during verification.
-    bool create_ok = CreateProofTree(proof_tree, recovery_tree, proof);
+    // The target hashes that were added to the position map.
+    std::vector<const Hash*> new_targets;
 
-    // Verify the proof tree from bottom to top.
-    bool verify_ok = create_ok && VerifyProofTree(proof_tree, target_hashes, proof.GetHashes());
-    if (!verify_ok) {
-        // The proof was invalid and we have to revert the changes that were made to the pollard.
+    auto revert = [&]() {
+        // We have to revert the changes that were made to the pollard.
         // This is where we use the recovery tree to chop of the newly populated branches.
         // TODO: the recovery tree currently holds every node of a new branch. In theory we only
         // need the top most node to chop of the entire branch.
@@ -697,7 +695,36 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
         recovery_tree.clear();
         proof_tree.clear();
 
-        return false;
+        for (const Hash* hash : new_targets) {
+            m_posmap.erase(*hash);
+        }
+    };
+
+    try {
+        // Populate the proof tree from top to bottom.
+        // This adds new empty nodes to the pollard that will either hold
+        // proof hashes or hashes that were computed during verification.
+        bool create_ok = CreateProofTree(proof_tree, recovery_tree, proof);
+
+        // Verify the proof tree from bottom to top.
+        bool verify_ok = create_ok && VerifyProofTree(proof_tree, target_hashes, proof.GetHashes());
+        if (!verify_ok) {
+            // The proof was invalid.
+            revert();
+            return false;
+        }
+
+        // The positions of the targets are now known.
+        new_targets.reserve(target_hashes.size());
+        for (int i = 0; i < target_hashes.size(); i++) {
+            auto [it, is_new] = m_posmap.emplace(target_hashes[i], proof.GetSortedTargets()[i]);
+            it->second = proof.GetSortedTargets()[i];
+            if (is_new) new_targets.push_back(&target_hashes[i]);
+        }
+    } catch (...) {
+        // Verification could not be completed. (e.g.: out of memory)
+        revert();
+        throw;
     }
 
     // All targets are now remembered.
@@ -706,10 +733,6 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
         if (leaf->IsTargetOrAncestor()) leaf->m_sibling->m_nieces[0] = m_remember;
     }
 
-    for (int i = 0; i < target_hashes.size(); i++) {
-        m_posmap[target_hashes[i]] = proof.GetSortedTargets()[i];
-    }
-
     // TODO: in theory the proof tree could be used during deletion as well.
     // it has references to all nodes that get swaped around. Using the proof
     // tree could make deletion more efficient since we would not have to traverse
-- 
2.43.0


From 9cd0b2b03b2bad40e2331af3b258ecaaf60861f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 11/16] fix: a pollard keeps remembered leaves when it rehashes
 their parent

Rehashing pruned the remembered leaf and only kept its sibling. Its
position was then no longer updated when a later removal moved it, so it
could not be proven any more or got a proof for a wrong position.
---
 src/pollard.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index de593dc..b76c7f6 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -759,6 +759,15 @@ void Pollard::Node::ReHash()
     }
 
     Accumulator::ParentHash(m_node->m_hash, m_sibling->m_nieces[0]->m_hash, m_sibling->m_nieces[1]->m_hash);
+
+    // If the children are leaves and one of them is remembered then both have to be kept.
+    // The remembered leaf itself is needed to keep track of its position and its sibling to prove it.
+    bool is_leaf_parent = ForestState(m_num_leaves).DetectRow(m_position) == 1;
+    if (is_leaf_parent &&
+        (!m_sibling->m_nieces[0]->DeadEnd() || !m_sibling->m_nieces[1]->DeadEnd())) {
+        return;
+    }
+
     m_sibling->Prune();
 }
 
-- 
2.43.0


From 42ab717a809d0f3d6143660b8627eb2ffcd62355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 12/16] fix: RamForest::Verify verifies the proof

Only the existence of the target hashes was checked, so a proof with wrong
positions or hashes, or for another number of targets, was accepted.
---
 src/ram_forest.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index ac57daf..9c5a408 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -344,12 +344,27 @@ void RamForest::FinalizeRemove(uint64_t next_num_leaves)
 
 bool RamForest::Verify(const BatchProof& proof, const std::vector<Hash>& target_hashes)
 {
-    // TODO: verify the actual proof. a bitcoin bridge node would like to validate proofs to ensure
-    // that he does not give invalid proofs to anyone.
-    // For now just check that the target hashes exist.
-    for (const Hash& hash : target_hashes) {
-        auto it = m_posmap.find(hash);
+    // The number of targets specified in the proof must match the number of provided target hashes.
+    if (target_hashes.size() != proof.GetTargets().size()) return false;
+    if (!proof.CheckSanity(m_num_leaves)) return false;
+
+    // Check that the target hashes exist at the positions given by the proof. The target hashes
+    // either have the same order as the targets or are sorted by their position in the forest.
+    bool ok = true, ok_sorted = true;
+    for (uint64_t i = 0; i < target_hashes.size(); ++i) {
+        auto it = m_posmap.find(target_hashes[i]);
         if (it == m_posmap.end()) return false;
+
+        ok = ok && it->second == proof.GetTargets()[i];
+        ok_sorted = ok_sorted && it->second == proof.GetSortedTargets()[i];
+    }
+    if (!ok && !ok_sorted) return false;
+
+    // Check that the proof hashes are the ones from the forest.
+    auto proof_positions = ForestState(m_num_leaves).ProofPositions(proof.GetSortedTargets());
+    if (proof.GetHashes().size() != proof_positions.first.size()) return false;
+    for (uint64_t i = 0; i < proof_positions.first.size(); ++i) {
+        if (Read(proof_positions.first[i]) != proof.GetHashes()[i]) return false;
     }
 
     return true;
-- 
2.43.0


From 99fba17f8985a774618ebca650f8a6071eceeb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 13/16] fix: root positions in forests of more than 2^62 leaves

With 63 rows the mask was shifted by 64 bits, which is undefined, and on
x86-64 gave wrong positions: pollards of such forests rejected genuine
proofs or indexed out of range.
---
 src/state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 7ef7d3d..9ce18d3 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -266,8 +266,8 @@ bool ForestState::HasRoot(uint8_t row) const
 uint64_t _rootPosition(uint8_t row, uint64_t num_leaves, uint8_t rows)
 {
     uint64_t mask = (2ULL << rows) - 1;
-    uint64_t before = num_leaves & (mask << (row + 1));
-    uint64_t shifted = (before >> row) | (mask << (rows + 1 - row));
+    uint64_t before = num_leaves & (mask << row << 1);
+    uint64_t shifted = (before >> row) | (mask << (rows - row) << 1);
     return shifted & mask;
 }
 
-- 
2.43.0


From f073d31233f887f29a7e67525ba57323bb98c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 14/16] fix: a pollard updates the positions in a swapped
 subtree without visiting every leaf

A block whose deletions move a subtree makes the pollard update the
positions of the leaves it remembers in there. It did so by reading every
position of the range, which for a subtree of 2^40 leaves takes forever: a
pollard that remembers one leaf hangs on a block others apply at once.
Only visit the nodes that are cached.
---
 include/pollard.h |  5 +++++
 src/pollard.cpp   | 38 +++++++++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/include/pollard.h b/include/pollard.h
index cd40576..da8e60e 100644
--- a/include/pollard.h
+++ b/include/pollard.h
@@ -28,6 +28,11 @@ private:
 
     std::optional<const Hash> Read(uint64_t pos) const override;
     std::vector<Hash> ReadLeafRange(uint64_t pos, uint64_t range) const override;
+    /* Collect the cached hashes in the interval [pos, pos+range[ from the subtree that spans the leaves from start. */
+    void ReadLeafRange(std::vector<Hash>& hashes,
+                       const NodePtr<Pollard::InternalNode>& node, const NodePtr<Pollard::InternalNode>& sibling,
+                       uint64_t start, uint8_t row,
+                       uint64_t pos, uint64_t range) const;
     NodePtr<Accumulator::Node> SwapSubTrees(uint64_t from, uint64_t to) override;
     NodePtr<Accumulator::Node> MergeRoot(uint64_t parent_pos, Hash parent_hash) override;
     NodePtr<Accumulator::Node> NewLeaf(const Leaf& hash) override;
diff --git a/src/pollard.cpp b/src/pollard.cpp
index b76c7f6..38e7a1a 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -159,18 +159,42 @@ std::optional<const Hash> Pollard::Read(uint64_t pos) const
 
 std::vector<Hash> Pollard::ReadLeafRange(uint64_t pos, uint64_t range) const
 {
-    // TODO: implement efficient way of reading these hashes from the range,
-    // without trying to read every position.
+    // Only visit the cached nodes above the range, since it might hold far more positions than cached leaves.
     std::vector<Hash> hashes;
-    for (uint64_t i = pos; i < pos + range; ++i) {
-        std::optional<const Hash> hash = Read(i);
-        if (hash.has_value()) {
-            hashes.push_back(Read(i).value());
-        }
+    uint64_t start = 0;
+    uint64_t tree = 0;
+    for (uint8_t row = 64; row-- > 0;) {
+        if (((m_num_leaves >> row) & 1) == 0) continue;
+
+        // Roots act as their own sibling.
+        NodePtr<InternalNode> root = INTERNAL_NODE(m_roots[tree]);
+        ReadLeafRange(hashes, root, root, start, row, pos, range);
+        start += 1ULL << row;
+        ++tree;
     }
     return hashes;
 }
 
+void Pollard::ReadLeafRange(std::vector<Hash>& hashes,
+                            const NodePtr<InternalNode>& node, const NodePtr<InternalNode>& sibling,
+                            uint64_t start, uint8_t row,
+                            uint64_t pos, uint64_t range) const
+{
+    // Skip subtrees that do not intersect with the range.
+    if (start >= pos + range || start + (1ULL << row) <= pos) return;
+
+    if (row == 0) {
+        if (node) hashes.push_back(node->m_hash);
+        return;
+    }
+
+    // The children of the node are the nieces of its sibling.
+    if (!sibling) return;
+    const uint64_t half = 1ULL << (row - 1);
+    ReadLeafRange(hashes, sibling->m_nieces[0], sibling->m_nieces[1], start, row - 1, pos, range);
+    ReadLeafRange(hashes, sibling->m_nieces[1], sibling->m_nieces[0], start + half, row - 1, pos, range);
+}
+
 Pollard::InternalSiblings Pollard::ReadSiblings(uint64_t pos, NodePtr<Accumulator::Node>& rehash_path, bool record_path) const
 {
     const ForestState current_state(m_num_leaves);
-- 
2.43.0


From eb9ba3a68d1d74b1e26dfb670e9cc0f66a9aecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:52 +0000
Subject: [PATCH 15/16] fix: a missing proof hash must not match a cached null
 hash

A pollard that holds a hash of zeros consumed a proof hash past the end of the
proof and rejected a genuine proof that leaves the cached hash out.
---
 src/pollard.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 38e7a1a..0d7c464 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -540,7 +540,8 @@ bool Pollard::CreateProofTree(std::vector<NodePtr<Pollard::Node>>& proof_tree_ou
                     null_hash.fill(0);
                     const Hash& hash = proof_hash < proof.GetHashes().crend() ? *proof_hash : null_hash;
                     // If provided proof hash matches the cached hash, we consume the hash.
-                    consume = node->m_node->m_hash == hash;
+                    // (The cached hash could be the null hash, so there has to be one to consume.)
+                    consume = proof_hash < proof.GetHashes().crend() && node->m_node->m_hash == hash;
                 } else {
                     // This proof was not cached.
                     // We populate with the provided proof hash.
-- 
2.43.0


From 2bcf7d1641e560cc3b4ecc4e3acc9405acbbcdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:25 +0000
Subject: [PATCH 16/16] fix: offsets into messages of more than 2 GiB

The offset into the bytes was an int, so that decoding or encoding a proof or
undo data of 2 GiB or more ended in a failed assertion or far outside of the
buffer.
---
 src/batchproof.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index e789242..399d6a4 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -32,7 +32,7 @@ void BatchProof::Serialize(std::vector<uint8_t>& bytes) const
     // Proof hashes:           32 bytes each
     bytes.resize(4 + 4 + m_targets.size() * 4 + m_proof.size() * 32);
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     WriteBE32(bytes.data(), uint32_t(m_targets.size()));
     data_offset += 4;
     WriteBE32(bytes.data() + data_offset, uint32_t(m_proof.size()));
@@ -56,7 +56,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
         return false;
     }
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     uint32_t num_targets = ReadBE32(bytes.data());
     data_offset += 4;
     uint32_t num_hashes = ReadBE32(bytes.data() + data_offset);
@@ -139,7 +139,7 @@ void UndoBatch::Serialize(std::vector<uint8_t>& bytes) const
     // del hashes: 32bytes * num dels
     bytes.resize(4 + 4 + 4 * m_deleted_positions.size() + 32 * m_deleted_hashes.size());
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     WriteBE32(bytes.data(), uint32_t(m_num_additions));
     data_offset += 4;
     WriteBE32(bytes.data() + data_offset, uint32_t(m_deleted_positions.size()));
@@ -163,7 +163,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
         return false;
     }
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     m_num_additions = static_cast<uint64_t>(ReadBE32(bytes.data()));
     data_offset += 4;
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
-- 
2.43.0

