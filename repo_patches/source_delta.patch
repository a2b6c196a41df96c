From c228f89000c7d2748e99c6a4c4855ac6b53c204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 01/41] fix: read the TTL of a std::string packaged value as
 the binary integer it is

GetValueTTL(const std::string&) parsed the 8 binary bytes as decimal text, unlike PackageValue and the string_view overload.
---
 src/mvcc/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index fbf7074..e87fecb 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -373,7 +373,7 @@ int64_t Codec::GetValueTTL(const std::string& pkg_value) {
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
 
   auto ttl_str = pkg_value.substr(pkg_value.size() - 9, pkg_value.size() - 1);
-  return Helper::StringToInt64(ttl_str);
+  return SerialHelper::ReadLong(ttl_str);
 }
 
 int64_t Codec::GetValueTTL(const std::string_view& pkg_value) {
-- 
2.43.0


From 09049bff8b647b45f999562a8d8c13f9402dda72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 02/41] fix: accept a TTL value with an empty payload

A kPutTTL value with an empty payload is exactly 9 bytes (ttl + flag); reading it aborted the process.
---
 src/mvcc/codec.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index e87fecb..c523f66 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -367,7 +367,7 @@ ValueFlag Codec::GetValueFlag(const std::string_view& pkg_value) {
 }
 
 int64_t Codec::GetValueTTL(const std::string& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
@@ -377,7 +377,7 @@ int64_t Codec::GetValueTTL(const std::string& pkg_value) {
 }
 
 int64_t Codec::GetValueTTL(const std::string_view& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
-- 
2.43.0


From ee22e8db94e6384803a4d5bee6796f869687c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 03/41] fix: DocumentCodec::TruncateKeyForTs accepts every key
 that carries a timestamp

The string_view overload aborted on any key shorter than 88 bytes.
---
 src/document/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document/codec.cc b/src/document/codec.cc
index 0f604a6..c911d58 100644
--- a/src/document/codec.cc
+++ b/src/document/codec.cc
@@ -271,7 +271,7 @@ int64_t DocumentCodec::TruncateKeyForTs(const std::string& encode_key_with_ts) {
 }
 
 int64_t DocumentCodec::TruncateKeyForTs(const std::string_view& encode_key_with_ts) {
-  CHECK(encode_key_with_ts.size() >= 88) << fmt::format("Key({}) is invalid.", Helper::StringToHex(encode_key_with_ts));
+  CHECK(encode_key_with_ts.size() >= 8) << fmt::format("Key({}) is invalid.", Helper::StringToHex(encode_key_with_ts));
 
   auto ts_str = encode_key_with_ts.substr(encode_key_with_ts.size() - 8, encode_key_with_ts.size());
 
-- 
2.43.0


From b1bd14b1e96c057d26f629c6f52cfe97a72096fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 04/41] fix: refuse a negative tso count, it moved the logical
 clock backwards

---
 src/coordinator/tso_control.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 729645f..5b99542 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -137,7 +137,7 @@ int TsoControl::SyncTimestamp(const pb::meta::TsoTimestamp& current_timestamp, i
 void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoResponse* response) {
   int64_t count = request->count();
   response->set_op_type(request->op_type());
-  if (count == 0) {
+  if (count <= 0) {
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
     response->mutable_error()->set_errmsg("tso count should be positive");
     return;
-- 
2.43.0


From 6fc0b1b9f021d0f69eae9b011baaa9ad1afbfd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:05 +0000
Subject: [PATCH 05/41] fix: a new tso leader serves only after its timestamp
 synchronisation

---
 src/coordinator/tso_control.cc | 10 ++++++++--
 src/coordinator/tso_control.h  |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 5b99542..a4d5503 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -375,7 +375,11 @@ void TsoControl::GetServerLocation(pb::common::Location& raft_location, pb::comm
 
 bool TsoControl::IsLeader() { return leader_term_.load(butil::memory_order_acquire) > 0; }
 
-void TsoControl::SetLeaderTerm(int64_t term) { leader_term_.store(term, butil::memory_order_release); }
+void TsoControl::SetLeaderTerm(int64_t term) {
+  // a new leader must not serve from the replicated timestamp before OnLeaderStart has moved it forward
+  is_healty_ = false;
+  leader_term_.store(term, butil::memory_order_release);
+}
 
 void TsoControl::OnLeaderStart(int64_t term) {
   DINGO_LOG(INFO) << "OnLeaderStart_TSO, term=" << term;
@@ -390,13 +394,15 @@ void TsoControl::OnLeaderStart(int64_t term) {
     current.set_physical(last_save + kUpdateTimestampGuardMs);
   }
   last_save = current.physical() + kSaveIntervalMs;
-  auto func = [this, last_save, current]() {
+  auto func = [this, term, last_save, current]() {
     LOG(INFO) << "leader_start current(phy:" << current.physical() << ",log:" << current.logical()
               << ") save:" << last_save;
     int ret = SyncTimestamp(current, last_save);
     if (ret < 0) {
       LOG(INFO) << "sync timestamp failed";
       is_healty_ = false;
+    } else if (leader_term_.load(butil::memory_order_acquire) == term) {
+      is_healty_ = true;
     }
     LOG(INFO) << "sync timestamp ok";
     tso_update_timer_.start();
diff --git a/src/coordinator/tso_control.h b/src/coordinator/tso_control.h
index 27a4415..f16feec 100644
--- a/src/coordinator/tso_control.h
+++ b/src/coordinator/tso_control.h
@@ -17,6 +17,7 @@
 
 #include <braft/repeated_timer_task.h>
 
+#include <atomic>
 #include <cstdint>
 #include <map>
 #include <memory>
@@ -178,7 +179,7 @@ class TsoControl : public MetaControl {
   TsoTimer tso_update_timer_;
   TsoObj tso_obj_;
   bthread_mutex_t tso_mutex_;  // for tso_obj_
-  bool is_healty_ = true;
+  std::atomic<bool> is_healty_ = false;
 
   // node is leader or not
   butil::atomic<int64_t> leader_term_;
-- 
2.43.0


From 8492eae4a58d1ab5f9227e54b6eff04121b34d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 06/41] fix: compute the width of an auto increment range in 64
 bits

---
 src/coordinator/auto_increment_control.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index e0550f3..db1c3b0 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -403,7 +403,7 @@ int64_t AutoIncrementControl::GetGenerateEndId(int64_t start_id, uint32_t count,
   }
 
   int64_t real_start_id = GetRealStartId(start_id, increment, offset);
-  return real_start_id + count * increment;
+  return real_start_id + static_cast<int64_t>(count) * increment;
 }
 
 int64_t AutoIncrementControl::GetRealStartId(int64_t start_id, uint32_t auto_increment_increment,
-- 
2.43.0


From 7ac38fe391ca6b9835d6bcb94e01ded26de67092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:28 +0000
Subject: [PATCH 07/41] fix: a repeated create does not reset a live auto
 increment counter

---
 src/coordinator/auto_increment_control.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index db1c3b0..3e67812 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -345,6 +345,11 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
     if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
       DINGO_LOG(INFO) << "create auto increment, table id: " << table_id
                       << ", start id: " << auto_increment.increment().start_id();
+      if (auto_increment_map_.seek(table_id) != nullptr) {
+        // a second create passed its check before the first one was applied, ranges may be handed out already
+        DINGO_LOG(WARNING) << "for create, auto increment is exist, table id: " << table_id;
+        continue;
+      }
       auto_increment_map_[table_id] = auto_increment.increment().start_id();
     } else if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
-- 
2.43.0


From a5d61e6056cd43c9c484a17f8ec526bffdc353f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 08/41] fix: a version put with ignore_value keeps the stored
 value

---
 src/coordinator/kv_control_kv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 0530faa..93d591b 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -471,8 +471,8 @@ butil::Status KvControl::KvPut(const pb::common::KeyValue &key_value_in, int64_t
   kv_index_meta_increment->set_event_type(pb::coordinator_internal::KvIndexEventType::KV_INDEX_EVENT_TYPE_PUT);
   kv_index_meta_increment->set_ignore_lease(ignore_lease);
   kv_index_meta_increment->set_lease_id(lease_grant_id);
+  kv_index_meta_increment->set_ignore_value(ignore_value);
   if (!ignore_value) {
-    kv_index_meta_increment->set_ignore_value(ignore_value);
     kv_index_meta_increment->set_value(key_value_in.value());
   }
   if (!ignore_lease) {
-- 
2.43.0


From 11f3bae8ce86d27c4872bc7a7c15265fdca51628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 09/41] fix: a range delete detaches every deleted key from its
 lease

---
 src/coordinator/kv_control_kv.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 93d591b..5f24ac1 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -531,9 +531,7 @@ butil::Status KvControl::KvDeleteRange(const std::string &key, const std::string
     }
 
     // prepare for lease remove
-    std::set<std::string> keys;
-    keys.insert(kv_to_delete.kv().key());
-    keys_to_remove_lease.insert_or_assign(kv_to_delete.lease(), keys);
+    keys_to_remove_lease[kv_to_delete.lease()].insert(kv_to_delete.kv().key());
 
     if (need_lease_remove_keys) {
       DINGO_LOG(INFO) << "KvDelete will remove lease for key: " << kv_to_delete.kv().key() << "("
-- 
2.43.0


From 128c1cb186ee0f939a33d54a0923b2b471acab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 10/41] fix: the compaction task no longer skips the key that
 follows a full batch

---
 src/coordinator/kv_control_kv.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 5f24ac1..b657ab0 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -916,9 +916,8 @@ void KvControl::CompactionTask() {
   // do compaction for each key
   std::vector<std::string> keys_to_compact;
   for (const auto &key : keys) {
-    if (keys_to_compact.size() < 50) {
-      keys_to_compact.push_back(key);
-    } else {
+    keys_to_compact.push_back(key);
+    if (keys_to_compact.size() >= 50) {
       auto ret = KvCompact(keys_to_compact, compact_revision);
       if (!ret.ok()) {
         DINGO_LOG(ERROR) << "KvCompact failed, error: " << ret.error_str() << ", keys size: " << keys_to_compact.size();
-- 
2.43.0


From aa2da02c4fb3cec7101e7a3d21346391c09c80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 11/41] fix: report a failed write or erase of a version
 revision

---
 src/coordinator/kv_control_kv.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index b657ab0..99c1f02 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -170,13 +170,23 @@ butil::Status KvControl::PutRawKvRev(const pb::coordinator_internal::RevisionInt
                   << " kv_rev.id: " << Helper::StringToHex(kv_rev.id())
                   << ", revision_string: " << Helper::StringToHex(RevisionToString(revision));
 
-  kv_rev_meta_->Put(RevisionToString(revision), kv_rev);
+  auto ret = kv_rev_meta_->Put(RevisionToString(revision), kv_rev);
+  if (!ret.ok()) {
+    DINGO_LOG(ERROR) << "PutRawKvRev failed, revision:[" << revision.ShortDebugString() << "], errcode"
+                     << ret.error_code() << ", error: " << ret.error_str();
+    return ret;
+  }
 
   return butil::Status::OK();
 }
 
 butil::Status KvControl::DeleteRawKvRev(const pb::coordinator_internal::RevisionInternal &revision) {
-  kv_rev_meta_->Erase(RevisionToString(revision));
+  auto ret = kv_rev_meta_->Erase(RevisionToString(revision));
+  if (!ret.ok()) {
+    DINGO_LOG(ERROR) << "DeleteRawKvRev failed, revision:[" << revision.ShortDebugString() << "], errcode"
+                     << ret.error_code() << ", error: " << ret.error_str();
+    return ret;
+  }
 
   return butil::Status::OK();
 }
-- 
2.43.0


From ead727ab2b7841cff3f2f5a61d19c73864e087ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 12/41] fix: a version delete stores its revision before the
 key index refers to it

---
 src/coordinator/kv_control_kv.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 99c1f02..724b99d 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -848,12 +848,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
 
   // do real write to state machine
   // CAUTION: When deleting kv, we must do PutRawKvRev before put RawKvIndex
-  ret = PutRawKvIndex(key, kv_index);
-  if (!ret.ok()) {
-    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
-                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
-  }
-
   ret = PutRawKvRev(op_revision, kv_rev);
   if (!ret.ok()) {
     DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvRev failed, revision: " << op_revision.ShortDebugString()
@@ -862,6 +856,13 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
     return ret;
   }
 
+  ret = PutRawKvIndex(key, kv_index);
+  if (!ret.ok()) {
+    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
+                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
+    return ret;
+  }
+
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvDeleteApply success, key: " << key << "(" << Helper::StringToHex(key)
       << "), revision: " << op_revision.ShortDebugString();
-- 
2.43.0


From 9ef13549227555cc4abda0de4a01c52e3a9604d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 13/41] fix: a version put whose key index cannot be stored
 reports the failure

---
 src/coordinator/kv_control_kv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 724b99d..6bf3f73 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -718,6 +718,7 @@ butil::Status KvControl::KvPutApply(const std::string &key,
   if (!ret.ok()) {
     DINGO_LOG(ERROR) << "KvPutApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
                      << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
+    return ret;
   }
 
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
-- 
2.43.0


From 68267a16107b8c0f7dbe5c2fc3860d5b89ff4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 14/41] fix: a watch event carries the previous version count
 of the key

---
 src/coordinator/kv_control_kv.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 6bf3f73..ee3e51f 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -627,17 +627,17 @@ butil::Status KvControl::KvPutApply(const std::string &key,
       // auto &latest_generation = *kv_index.mutable_generations()->rbegin();
       auto *latest_generation = kv_index.mutable_generations(kv_index.generations_size() - 1);
       if (latest_generation->has_create_revision()) {
+        // only in this situation, the prev_kv is meaningful
+        prev_kv.set_create_revision(latest_generation->create_revision().main());
+        prev_kv.set_mod_revision(kv_index.mod_revision().main());
+        prev_kv.set_version(latest_generation->verison());
+
         *(latest_generation->add_revisions()) = op_revision;
         latest_generation->set_verison(latest_generation->verison() + 1);
 
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
             << "KvPutApply latest_generation add revsion: " << latest_generation->ShortDebugString() << ", key: " << key
             << "(" << Helper::StringToHex(key) << ")";
-
-        // only in this situation, the prev_kv is meaningful
-        prev_kv.set_create_revision(latest_generation->create_revision().main());
-        prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
       } else {
         latest_generation->mutable_create_revision()->set_main(op_revision.main());
         latest_generation->mutable_create_revision()->set_sub(op_revision.sub());
@@ -792,6 +792,11 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
       // auto &latest_generation = *kv_index.mutable_generations()->rbegin();
       auto *latest_generation = kv_index.mutable_generations(kv_index.generations_size() - 1);
       if (latest_generation->has_create_revision()) {
+        // only in this situation, the prev_kv is meaningful
+        prev_kv.set_create_revision(latest_generation->create_revision().main());
+        prev_kv.set_mod_revision(kv_index.mod_revision().main());
+        prev_kv.set_version(latest_generation->verison());
+
         // add a the delete revision to latest generation
         *(latest_generation->add_revisions()) = op_revision;
         latest_generation->set_verison(latest_generation->verison() + 1);
@@ -801,11 +806,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
             << "KvDeleteApply kv_index add null generation[1]: " << generation->ShortDebugString() << ", key: " << key
             << "(" << Helper::StringToHex(key) << ")";
-
-        // only in this situation, the prev_kv is meaningful
-        prev_kv.set_create_revision(latest_generation->create_revision().main());
-        prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
       } else {
         // a null generation means delete
         // so we do not need to add a new generation
-- 
2.43.0


From 407a1a904bf89e00d1c61912ffe45d9921027355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 15/41] fix: a count-only version range reports the number of
 keys

---
 src/coordinator/kv_control_kv.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index ee3e51f..49c7499 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -14,6 +14,7 @@
 
 #include <sys/types.h>
 
+#include <algorithm>
 #include <atomic>
 #include <cstdint>
 #include <string>
@@ -296,7 +297,7 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
     kv.push_back(kv_temp);
   }
 
-  return_count = kv.size();
+  return_count = count_only ? std::min<int64_t>(limit_count, limit) : static_cast<int64_t>(kv.size());
 
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvRange finish, key: " << key << "(" << Helper::StringToHex(key) << "), range_end: " << range_end << "("
-- 
2.43.0


From 3d75fee617153d62ecfdce0afb286e3fe09415a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 16/41] fix: a finished watch is removed from the closure map

---
 src/coordinator/kv_control_watch.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordinator/kv_control_watch.cc b/src/coordinator/kv_control_watch.cc
index 95a2171..359abd6 100644
--- a/src/coordinator/kv_control_watch.cc
+++ b/src/coordinator/kv_control_watch.cc
@@ -163,6 +163,7 @@ butil::Status KvControl::RemoveOneTimeWatchWithLock(uint64_t closure_id) {
                   << ", done->Run() finish, cost: " << butil::gettimeofday_ms() - start_ts << " ms";
 
   auto watch_key = defer_done.GetWatchKey();
+  one_time_watch_closure_map_.erase(it_defer_done);
   if (watch_key.empty()) {
     DINGO_LOG(ERROR) << "RemoveOneTimeWatch watch_key is empty, closure_id:" << closure_id
                      << ", remove from one_time_watch_closure_map_";
-- 
2.43.0


From e0abd839cec5fe6099a2fcb4c7ae4138bc624034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 17/41] fix: version compaction keeps the revisions when the
 key index cannot be updated

---
 src/coordinator/kv_control_kv.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 49c7499..3652a3a 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -1093,12 +1093,17 @@ butil::Status KvControl::KvCompactApply(const std::string &key,
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
         << "KvCompactApply new_kv_index has no generations, delete it, key: " << key << "(" << Helper::StringToHex(key)
         << ")";
-    DeleteRawKvIndex(key);
+    ret = DeleteRawKvIndex(key);
   } else {
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
         << "KvCompactApply new_kv_index has generations, put it, key: " << key << "(" << Helper::StringToHex(key)
         << "), new_kv_index: " << new_kv_index.ShortDebugString();
-    PutRawKvIndex(key, new_kv_index);
+    ret = PutRawKvIndex(key, new_kv_index);
+  }
+  if (!ret.ok()) {
+    DINGO_LOG(ERROR) << "KvCompactApply update kv_index failed, key: " << key << "(" << Helper::StringToHex(key)
+                     << "), error: " << ret.error_str();
+    return ret;
   }
 
   // delete revisions in kv_rev
-- 
2.43.0


From 47cc7b98e29951f44ce517d5abce92910b05a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:50 +0000
Subject: [PATCH 18/41] fix: an expired lease is revoked again when its
 revocation could not be submitted

---
 src/coordinator/kv_control_lease.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index 5492594..12f7c96 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -346,6 +346,8 @@ void KvControl::LeaseTask() {
       auto ret = SubmitMetaIncrementSync(meta_increment);
       if (!ret.ok()) {
         DINGO_LOG(ERROR) << "SubmitMetaIncrementSync failed, status: " << ret;
+        // the leases are still alive in the state machine, rebuild lease_to_key_map_ so that they are revoked again
+        lease_to_key_map_init_term_.store(0, butil::memory_order_release);
       }
     }
   }
-- 
2.43.0


From 07c14b2fccead211721f7990f4bf21147685847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:23 +0000
Subject: [PATCH 19/41] fix: latch the same keys in index and document prewrite
 as every other transaction request

---
 src/server/document_service.cc | 2 +-
 src/server/index_service.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/document_service.cc b/src/server/document_service.cc
index e58d4cf..5058cd8 100644
--- a/src/server/document_service.cc
+++ b/src/server/document_service.cc
@@ -1673,7 +1673,7 @@ void DoTxnPrewriteDocument(StoragePtr storage, google::protobuf::RpcController*
   // check latches
   std::vector<std::string> keys_for_lock;
   for (const auto& mutation : request->mutations()) {
-    keys_for_lock.push_back(std::to_string(mutation.document().id()));
+    keys_for_lock.push_back(mutation.key());
   }
 
   LatchContext latch_ctx(region, keys_for_lock);
diff --git a/src/server/index_service.cc b/src/server/index_service.cc
index baf2773..02eb5ef 100644
--- a/src/server/index_service.cc
+++ b/src/server/index_service.cc
@@ -3003,7 +3003,7 @@ void DoTxnPrewriteVector(StoragePtr storage, google::protobuf::RpcController* co
   // check latches
   std::vector<std::string> keys_for_lock;
   for (const auto& mutation : request->mutations()) {
-    keys_for_lock.push_back(std::to_string(mutation.vector().id()));
+    keys_for_lock.push_back(mutation.key());
   }
 
   LatchContext latch_ctx(region, keys_for_lock);
-- 
2.43.0


From cedbd20e5534146acf78db89cf46e3fde3a3843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:35 +0000
Subject: [PATCH 20/41] fix: release in-memory lock entries after index and
 document prewrite

---
 src/server/document_service.cc | 1 +
 src/server/index_service.cc    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/server/document_service.cc b/src/server/document_service.cc
index 5058cd8..08ebe2a 100644
--- a/src/server/document_service.cc
+++ b/src/server/document_service.cc
@@ -1680,6 +1680,7 @@ void DoTxnPrewriteDocument(StoragePtr storage, google::protobuf::RpcController*
   ServiceHelper::LatchesAcquire(latch_ctx, true);
   DEFER(ServiceHelper::LatchesRelease(latch_ctx));
 
+  DEFER(region->UnlockKeys(keys_for_lock));
   auto ctx = std::make_shared<Context>(cntl, is_sync ? nullptr : done_guard.release(), request, response);
   ctx->SetRegionId(request->context().region_id());
   ctx->SetTracker(tracker);
diff --git a/src/server/index_service.cc b/src/server/index_service.cc
index 02eb5ef..4ae33c5 100644
--- a/src/server/index_service.cc
+++ b/src/server/index_service.cc
@@ -3010,6 +3010,7 @@ void DoTxnPrewriteVector(StoragePtr storage, google::protobuf::RpcController* co
   ServiceHelper::LatchesAcquire(latch_ctx, true);
   DEFER(ServiceHelper::LatchesRelease(latch_ctx));
 
+  DEFER(region->UnlockKeys(keys_for_lock));
   auto ctx = std::make_shared<Context>(cntl, is_sync ? nullptr : done_guard.release(), request, response);
   ctx->SetRegionId(request->context().region_id());
   ctx->SetTracker(tracker);
-- 
2.43.0


From ebd9b239ba2a1d64c1560501319bb9d3e1054c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:38 +0000
Subject: [PATCH 21/41] fix: refuse compare-and-set while the cluster is
 read-only

---
 src/server/store_service.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/store_service.cc b/src/server/store_service.cc
index d0c43a4..a934758 100644
--- a/src/server/store_service.cc
+++ b/src/server/store_service.cc
@@ -914,6 +914,11 @@ static butil::Status ValidateKvCompareAndSetRequest(const dingodb::pb::store::Kv
     return status;
   }
 
+  status = ServiceHelper::ValidateClusterReadOnly();
+  if (!status.ok()) {
+    return status;
+  }
+
   return butil::Status();
 }
 
@@ -1021,6 +1026,11 @@ static butil::Status ValidateKvBatchCompareAndSetRequest(const dingodb::pb::stor
     return status;
   }
 
+  status = ServiceHelper::ValidateClusterReadOnly();
+  if (!status.ok()) {
+    return status;
+  }
+
   return butil::Status();
 }
 
-- 
2.43.0


From acfdde79792ca978d5a0a4007deb69a1a7991f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:20 +0000
Subject: [PATCH 22/41] fix: apply of a replicated range deletion must not
 touch a request context that is absent on followers

---
 src/handler/raft_apply_handler_txn.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/handler/raft_apply_handler_txn.cc b/src/handler/raft_apply_handler_txn.cc
index 44c497f..a8be7f0 100644
--- a/src/handler/raft_apply_handler_txn.cc
+++ b/src/handler/raft_apply_handler_txn.cc
@@ -263,9 +263,6 @@ void TxnHandler::HandleTxnDeleteRangeRequest(std::shared_ptr<Context> ctx, store
       << fmt::format("[txn][region({})] HandleTxnDeleteRange, term: {} apply_log_id: {}", region->Id(), term_id, log_id)
       << ", request: " << request.ShortDebugString();
 
-  auto *response = dynamic_cast<pb::store::TxnDeleteRangeResponse *>(ctx->Response());
-  auto *error = response->mutable_error();
-
   pb::common::Range range = mvcc::Codec::EncodeRange(request.start_key(), request.end_key());
 
   std::vector<pb::common::Range> data_ranges;
-- 
2.43.0


From 941f7c19dac8f96920a00523087dc4710367e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:20 +0000
Subject: [PATCH 23/41] fix: do not dereference a missing region or task while
 reporting that it is missing

---
 src/common/runnable.cc          |  2 +-
 src/engine/txn_engine_helper.cc | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/common/runnable.cc b/src/common/runnable.cc
index 47276d8..0698f2c 100644
--- a/src/common/runnable.cc
+++ b/src/common/runnable.cc
@@ -101,7 +101,7 @@ void Worker::Destroy() {
 
 bool Worker::Execute(TaskRunnablePtr task) {
   if (BAIDU_UNLIKELY(task == nullptr)) {
-    DINGO_LOG(ERROR) << fmt::format("[execqueue][type({})] task is nullptr.", task->Type());
+    DINGO_LOG(ERROR) << "[execqueue] task is nullptr.";
     return false;
   }
 
diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index c8de756..9ea84c0 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1979,7 +1979,7 @@ butil::Status TxnEngineHelper::DoUpdateLock(std::shared_ptr<Engine> raft_engine,
 
   auto region = Server::GetInstance().GetRegion(ctx->RegionId());
   if (region == nullptr) {
-    DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_detail) << fmt::format("[txn][region({})] UpdateLock", region->Id())
+    DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_detail) << fmt::format("[txn][region({})] UpdateLock", ctx->RegionId())
                                                           << ", region is not found, region_id: " << ctx->RegionId();
 
     return butil::Status(pb::error::Errno::EREGION_NOT_FOUND, "region is not found");
@@ -3684,7 +3684,7 @@ butil::Status TxnEngineHelper::CheckTxnStatus(RawEnginePtr raw_engine, std::shar
 
   auto region = Server::GetInstance().GetRegion(ctx->RegionId());
   if (region == nullptr) {
-    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] CheckTxnStatus", region->Id())
+    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] CheckTxnStatus", ctx->RegionId())
                      << ", region is not found, region_id: " << ctx->RegionId();
     return butil::Status(pb::error::Errno::EREGION_NOT_FOUND, "region is not found");
   }
@@ -3933,7 +3933,7 @@ butil::Status TxnEngineHelper::BatchRollback(RawEnginePtr raw_engine, std::share
 
   auto region = Server::GetInstance().GetRegion(ctx->RegionId());
   if (region == nullptr) {
-    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchRollback", region->Id())
+    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchRollback", ctx->RegionId())
                      << ", region is not found, region_id: " << ctx->RegionId();
     return butil::Status(pb::error::Errno::EREGION_NOT_FOUND, "region is not found");
   }
@@ -4447,7 +4447,7 @@ butil::Status TxnEngineHelper::ResolveLock(RawEnginePtr raw_engine, std::shared_
 
   auto region = Server::GetInstance().GetRegion(ctx->RegionId());
   if (region == nullptr) {
-    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] ResolveLock", region->Id())
+    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] ResolveLock", ctx->RegionId())
                      << ", region is not found, region_id: " << ctx->RegionId();
     return butil::Status(pb::error::Errno::EREGION_NOT_FOUND, "region is not found");
   }
@@ -4622,7 +4622,7 @@ butil::Status TxnEngineHelper::HeartBeat(RawEnginePtr raw_engine, std::shared_pt
 
   auto region = Server::GetInstance().GetRegion(ctx->RegionId());
   if (region == nullptr) {
-    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] HeartBeat", region->Id())
+    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] HeartBeat", ctx->RegionId())
                      << ", region is not found, region_id: " << ctx->RegionId();
     return butil::Status(pb::error::Errno::EREGION_NOT_FOUND, "region is not found");
   }
@@ -4730,7 +4730,7 @@ butil::Status TxnEngineHelper::DeleteRange(RawEnginePtr /*raw_engine*/, std::sha
 
   auto region = Server::GetInstance().GetRegion(ctx->RegionId());
   if (region == nullptr) {
-    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] DeleteRange", region->Id())
+    DINGO_LOG(ERROR) << fmt::format("[txn][region({})] DeleteRange", ctx->RegionId())
                      << ", region is not found, region_id: " << ctx->RegionId();
     return butil::Status(pb::error::Errno::EREGION_NOT_FOUND, "region is not found");
   }
@@ -4772,7 +4772,7 @@ butil::Status TxnEngineHelper::Gc(RawEnginePtr raw_engine, std::shared_ptr<Engin
 
   store::RegionPtr region = Server::GetInstance().GetRegion(ctx->RegionId());
   if (region == nullptr) {
-    DINGO_LOG(ERROR) << fmt::format("[txn_gc][region({})] Gc", region->Id())
+    DINGO_LOG(ERROR) << fmt::format("[txn_gc][region({})] Gc", ctx->RegionId())
                      << ", region is not found, region_id: " << ctx->RegionId();
     return butil::Status(pb::error::Errno::EREGION_NOT_FOUND, "region is not found");
   }
-- 
2.43.0


From d4311bec5b01c6a9c2216f357588dfb3f6bcbfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 24/41] fix: apply the deletions of a document batch that adds
 no document

---
 src/handler/raft_apply_handler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 044a0cb..b4d6a9d 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -2158,7 +2158,7 @@ int DocumentBatchAddHandler::Handle(std::shared_ptr<Context> ctx, store::RegionP
           document_with_ids.push_back(document_with_id);
         }
         if (document_with_ids.empty()) {
-          return 0;
+          goto _HANDLE_DOCUMENT_DELETE;
         }
         auto start_time = Helper::TimestampNs();
         auto status = request.is_update() ? document_index_wrapper->Upsert(document_with_ids)
@@ -2183,6 +2183,7 @@ int DocumentBatchAddHandler::Handle(std::shared_ptr<Context> ctx, store::RegionP
                                         document_index_id, e.what());
       }
 
+    _HANDLE_DOCUMENT_DELETE:
       // delete document
       try {
         auto start_time = Helper::TimestampNs();
-- 
2.43.0


From 16fb375a39df64b8382ac0d05944116648314488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 25/41] fix: apply the deletions of a vector batch to its
 document index also when the batch adds documents

---
 src/handler/raft_apply_handler.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index b4d6a9d..71f8f19 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -1833,11 +1833,14 @@ int VectorBatchAddHandler::Handle(std::shared_ptr<Context> ctx, store::RegionPtr
       int64_t document_index_id = document_index_wrapper->Id();
       is_ready = document_index_wrapper->IsReady();
 
+      // Check if the log_id is greater than the ApplyLogIndex of the document index, once for the whole entry: adding
+      // the documents advances the ApplyLogIndex.
+      bool need_apply = log_id > document_index_wrapper->ApplyLogId() ||
+                        region->GetStoreEngineType() == pb::common::STORE_ENG_MONO_STORE;
+
       // add
       if (is_ready && !document_with_ids.empty()) {
-        // Check if the log_id is greater than the ApplyLogIndex of the vector index
-        if (log_id > document_index_wrapper->ApplyLogId() ||
-            region->GetStoreEngineType() == pb::common::STORE_ENG_MONO_STORE) {
+        if (need_apply) {
           try {
             auto start_time = Helper::TimestampNs();
             auto status = request.is_update() ? document_index_wrapper->Upsert(document_with_ids)
@@ -1867,8 +1870,7 @@ int VectorBatchAddHandler::Handle(std::shared_ptr<Context> ctx, store::RegionPtr
 
       // delete
       if (is_ready && !request.delete_vector_ids().empty()) {
-        if (log_id > document_index_wrapper->ApplyLogId() ||
-            region->GetStoreEngineType() == pb::common::STORE_ENG_MONO_STORE) {
+        if (need_apply) {
           try {
             auto start_time = Helper::TimestampNs();
             auto status = document_index_wrapper->Delete(Helper::PbRepeatedToVector(request.delete_vector_ids()));
-- 
2.43.0


From ebdbc44bfb79cec5ce8735d072fde6e4666bc3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:51 +0000
Subject: [PATCH 26/41] fix: stop a restore when writing one of its batches
 fails

---
 src/engine/txn_engine_helper.cc | 45 +++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 9ea84c0..2cdefd1 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -7068,6 +7068,9 @@ butil::Status TxnEngineHelper::RestoreTxn(std::shared_ptr<Context> ctx, store::R
               pb::common::RegionType_Name(region->Type()), ret.error_str());
           return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
         }
+        if (!ret.ok()) {
+          return ret;
+        }
         txn_raft_request.Clear();
         cf_put_delete = txn_raft_request.mutable_multi_cf_put_and_delete();
         vector_add = cf_put_delete->mutable_vector_add();
@@ -7100,6 +7103,9 @@ butil::Status TxnEngineHelper::RestoreTxn(std::shared_ptr<Context> ctx, store::R
               pb::common::RegionType_Name(region->Type()), ret.error_str());
           return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
         }
+        if (!ret.ok()) {
+          return ret;
+        }
         txn_raft_request.Clear();
         cf_put_delete = txn_raft_request.mutable_multi_cf_put_and_delete();
         data_puts = cf_put_delete->add_puts_with_cf();
@@ -7129,6 +7135,9 @@ butil::Status TxnEngineHelper::RestoreTxn(std::shared_ptr<Context> ctx, store::R
               pb::common::RegionType_Name(region->Type()), ret.error_str());
           return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
         }
+        if (!ret.ok()) {
+          return ret;
+        }
         txn_raft_request.Clear();
         cf_put_delete = txn_raft_request.mutable_multi_cf_put_and_delete();
         write_puts = cf_put_delete->add_puts_with_cf();
@@ -7185,6 +7194,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnStore(std::shared_ptr<Context> ctx,
                                         region->Id(), pb::common::RegionType_Name(region->Type()), ret.error_str());
         return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
       }
+      if (!ret.ok()) {
+        return ret;
+      }
       total_size = 0;
       total_count = 0;
       send_kvs.clear();
@@ -7261,6 +7273,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnDocument(std::shared_ptr<Context> ct
                          << ", write raft engine failed, status: " << ret.error_str();
         return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
       }
+      if (!ret.ok()) {
+        return ret;
+      }
       documents.clear();
       delete_document_ids.clear();
       send_kv_default.clear();
@@ -7546,6 +7561,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
             pb::common::RegionType_Name(region->Type()), ret.error_str());
         return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
       }
+      if (!ret.ok()) {
+        return ret;
+      }
       send_vector_with_ids.clear();
       total_size = 0;
       total_count = 0;
@@ -7560,6 +7578,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
           pb::common::RegionType_Name(region->Type()), ret.error_str());
       return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
     }
+    if (!ret.ok()) {
+      return ret;
+    }
     send_vector_with_ids.clear();
     total_size = 0;
     total_count = 0;
@@ -7578,6 +7599,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
             pb::common::RegionType_Name(region->Type()), ret.error_str());
         return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
       }
+      if (!ret.ok()) {
+        return ret;
+      }
       send_kv_default.clear();
       total_size = 0;
       total_count = 0;
@@ -7592,6 +7616,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
           pb::common::RegionType_Name(region->Type()), ret.error_str());
       return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
     }
+    if (!ret.ok()) {
+      return ret;
+    }
     send_kv_default.clear();
     total_size = 0;
     total_count = 0;
@@ -7610,6 +7637,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
             pb::common::RegionType_Name(region->Type()), ret.error_str());
         return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
       }
+      if (!ret.ok()) {
+        return ret;
+      }
       send_kv_scalar.clear();
       total_size = 0;
       total_count = 0;
@@ -7624,6 +7654,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
           pb::common::RegionType_Name(region->Type()), ret.error_str());
       return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
     }
+    if (!ret.ok()) {
+      return ret;
+    }
     send_kv_scalar.clear();
     total_size = 0;
     total_count = 0;
@@ -7642,6 +7675,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
             pb::common::RegionType_Name(region->Type()), ret.error_str());
         return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
       }
+      if (!ret.ok()) {
+        return ret;
+      }
       send_kv_table.clear();
       total_size = 0;
       total_count = 0;
@@ -7655,6 +7691,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
                                       region->Id(), pb::common::RegionType_Name(region->Type()), ret.error_str());
       return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
     }
+    if (!ret.ok()) {
+      return ret;
+    }
     send_kv_table.clear();
     total_size = 0;
     total_count = 0;
@@ -7673,6 +7712,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
             pb::common::RegionType_Name(region->Type()), ret.error_str());
         return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
       }
+      if (!ret.ok()) {
+        return ret;
+      }
       send_kv_scalar_speed_up.clear();
       total_size = 0;
       total_count = 0;
@@ -7686,6 +7728,9 @@ butil::Status TxnEngineHelper::RestoreNonTxnIndex(std::shared_ptr<Context> ctx,
           pb::common::RegionType_Name(region->Type()), ret.error_str());
       return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, ret.error_str());
     }
+    if (!ret.ok()) {
+      return ret;
+    }
     send_kv_scalar_speed_up.clear();
     total_size = 0;
     total_count = 0;
-- 
2.43.0


From e46ea3bfb0005db57f05a22b40cd857b43ec7051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:24 +0000
Subject: [PATCH 27/41] fix: take the stream set's mutex before reading its
 size

---
 src/common/stream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/stream.cc b/src/common/stream.cc
index c758c6c..86b32cd 100644
--- a/src/common/stream.cc
+++ b/src/common/stream.cc
@@ -72,11 +72,11 @@ StreamPtr StreamSet::GetStream(std::string stream_id) {
 }
 
 std::vector<StreamPtr> StreamSet::GetAllStreams() {
+  BAIDU_SCOPED_LOCK(mutex_);
+
   std::vector<StreamPtr> streams;
   streams.reserve(stream_set_.size());
 
-  BAIDU_SCOPED_LOCK(mutex_);
-
   for (auto& [_, stream] : stream_set_) {
     streams.push_back(stream);
   }
-- 
2.43.0


From 433c119052ae12ffc18ca5abd046fdc6b289271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:34 +0000
Subject: [PATCH 28/41] fix: check for watches under the watch map's mutex when
 a revision is applied

---
 src/coordinator/kv_control_kv.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 3652a3a..a2bc19e 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -20,6 +20,7 @@
 #include <string>
 #include <vector>
 
+#include "butil/scoped_lock.h"
 #include "butil/status.h"
 #include "common/helper.h"
 #include "common/logging.h"
@@ -727,9 +728,15 @@ butil::Status KvControl::KvPutApply(const std::string &key,
       << "), kv_index: " << kv_index.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
+  // the mutex orders this check with OneTimeWatch: a watch that has read the key before this revision is in the map now
+  bool has_watch = false;
+  {
+    BAIDU_SCOPED_LOCK(one_time_watch_map_mutex_);
+    has_watch = !one_time_watch_map_.empty();
+  }
+  if (has_watch) {
     DINGO_LOG(INFO) << "KvPutApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
+                    << Helper::StringToHex(key) << ")";
 
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
@@ -870,9 +877,15 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
       << "), revision: " << op_revision.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
+  // the mutex orders this check with OneTimeWatch: a watch that has read the key before this revision is in the map now
+  bool has_watch = false;
+  {
+    BAIDU_SCOPED_LOCK(one_time_watch_map_mutex_);
+    has_watch = !one_time_watch_map_.empty();
+  }
+  if (has_watch) {
     DINGO_LOG(INFO) << "KvDeleteApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
+                    << Helper::StringToHex(key) << ")";
 
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
-- 
2.43.0


From 0644d0bd494424f16a03027bf0190b8ec58ba5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:07 +0000
Subject: [PATCH 29/41] fix: a restore request fails when its data could not be
 written

---
 src/engine/txn_engine_helper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 2cdefd1..8ed1025 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -7803,7 +7803,7 @@ butil::Status TxnEngineHelper::DoReadSstFileForTxn(std::shared_ptr<Context> ctx,
   }
   if (!kv_puts_data.empty() || !kv_puts_write.empty()) {
     butil_status = RestoreTxn(ctx, region, raft_engine, kv_puts_data, kv_puts_write);
-    if (BAIDU_UNLIKELY(!status.ok())) {
+    if (BAIDU_UNLIKELY(!butil_status.ok())) {
       DINGO_LOG(ERROR) << fmt::format(
           "[restoredata][region({})][region_type({})] RestoreTxn failed, status "
           "code: {}, "
@@ -7879,7 +7879,7 @@ butil::Status TxnEngineHelper::DoReadSstFileForNonTxn(
   // vector index must handle kv_default, kv_scalar, kv_table, and kv_scalar_speed_up simultaneously.
   if (!kv_default.empty() || !kv_scalar.empty() || !kv_table.empty() || !kv_scalar_speed_up.empty()) {
     butil_status = RestoreNonTxn(ctx, region, raft_engine, kv_default, kv_scalar, kv_table, kv_scalar_speed_up);
-    if (BAIDU_UNLIKELY(!status.ok())) {
+    if (BAIDU_UNLIKELY(!butil_status.ok())) {
       DINGO_LOG(ERROR) << fmt::format(
           "[restoredata] RestoreNontxn failed,  status code: {}, "
           "message: {}",
-- 
2.43.0


From cdc78ae2df4e43121adae11559abc54359374b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:07 +0000
Subject: [PATCH 30/41] fix: a backup fails when the checksum of a data file
 cannot be computed

---
 src/engine/txn_engine_helper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 8ed1025..be68be5 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -6821,6 +6821,10 @@ butil::Status TxnEngineHelper::DoWriteSstFile(store::RegionPtr region, int64_t i
   int64_t data_file_size = sst.GetSize();
   std::string data_file_hash_code;
   status = Helper::CalSha1CodeWithFileEx(data_file_path, data_file_hash_code);
+  if (!status.ok()) {
+    DINGO_LOG(ERROR) << status.error_cstr();
+    return status;
+  }
 
   pb::common::BackupDataFileValueSstMeta *sst_meta = sst_meta_group->add_backup_data_file_value_sst_metas();
   sst_meta->set_cf(cf);
-- 
2.43.0


From 84218ea4f6937ae08c11c77873332c2a93cb38cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:07 +0000
Subject: [PATCH 31/41] fix: a backup stops when its SQL meta regions cannot be
 reserved

---
 src/br/backup_meta.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/br/backup_meta.cc b/src/br/backup_meta.cc
index 7c5c088..8701038 100644
--- a/src/br/backup_meta.cc
+++ b/src/br/backup_meta.cc
@@ -112,6 +112,10 @@ butil::Status BackupMeta::Run(std::shared_ptr<dingodb::pb::common::RegionMap> re
     std::vector<int64_t> region_list;
     backup_sql_meta_->GetSqlMetaRegionList(region_list);
     status = backup_sql_meta_->ReserveSqlMeta(region_list);
+    if (!status.ok()) {
+      DINGO_LOG(ERROR) << Utils::FormatStatusError(status);
+      return status;
+    }
 
     status = backup_sql_meta_->Filter();
     if (!status.ok()) {
-- 
2.43.0


From a2134a1cb9103aebfdcd3cd6dfaf4bf804be2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:22 +0000
Subject: [PATCH 32/41] fix: waiting for restored regions reports those that
 never became normal

---
 src/br/restore_region_meta_manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/br/restore_region_meta_manager.cc b/src/br/restore_region_meta_manager.cc
index 8dfab53..aff2846 100644
--- a/src/br/restore_region_meta_manager.cc
+++ b/src/br/restore_region_meta_manager.cc
@@ -286,7 +286,8 @@ butil::Status RestoreRegionMetaManager::WaitForRegionFinish() {
     std::string s =
         fmt::format("Waiting for region to be in normal state,  retry_count:{}",
                     retry_count < FLAGS_restore_wait_for_region_normal_max_retry ? retry_count + 1 : retry_count);
-    status = butil::Status(dingodb::pb::error::EINTERNAL, s);
+    DINGO_LOG(ERROR) << s;
+    return butil::Status(dingodb::pb::error::EINTERNAL, s);
   }
 
   std::string s =
-- 
2.43.0


From 88444df0a98554d72514401b65a71a20d17ca7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:47 +0000
Subject: [PATCH 33/41] fix: adding a deleted region reports when its record
 could not be submitted

---
 src/coordinator/coordinator_control_coor.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/coordinator/coordinator_control_coor.cc b/src/coordinator/coordinator_control_coor.cc
index 1301507..bb84b56 100644
--- a/src/coordinator/coordinator_control_coor.cc
+++ b/src/coordinator/coordinator_control_coor.cc
@@ -1100,9 +1100,7 @@ butil::Status CoordinatorControl::AddDeletedRegionMap(int64_t region_id, bool fo
   deleted_region_increment_region->mutable_definition()->set_name("MANUAL_ADD");
   deleted_region_increment_region->set_deleted_timestamp(butil::gettimeofday_ms());
 
-  SubmitMetaIncrementSync(meta_increment);
-
-  return butil::Status::OK();
+  return SubmitMetaIncrementSync(meta_increment);
 }
 
 butil::Status CoordinatorControl::CleanDeletedRegionMap(int64_t region_id) {
-- 
2.43.0


From 4aa9c28f8d95ec7039deec0fb3665a3f97127e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:09 +0000
Subject: [PATCH 34/41] fix: persist both store operation lists when a region
 command moves between stores

The MODIFY branch of CoordinatorControl::ApplyMetaIncrement updated
store_operation_map_ (memory only) without queueing the new values for the
meta store, unlike CREATE and DELETE, so a restarted or snapshot-restored
coordinator still had the command under the old store.
---
 src/coordinator/coordinator_control_fsm.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index f4368a5..5e3f298 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -2303,6 +2303,10 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
                              << ", new_store_operation_in_map=" << new_store_operation_in_map.ShortDebugString();
           }
 
+          // meta_write_kv
+          meta_write_to_kv.push_back(store_operation_meta_->TransformToKvValue(old_store_operation_residual));
+          meta_write_to_kv.push_back(store_operation_meta_->TransformToKvValue(new_store_operation_in_map));
+
           // update region_cmd's store_id
           region_cmd_internal.mutable_region_cmd()->set_store_id(new_store_id);
           auto ret1 = region_cmd_meta_->Put(region_cmd_id, region_cmd_internal);
-- 
2.43.0


From b915b97fbaf4878909f57037e698aea408391616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:41 +0000
Subject: [PATCH 35/41] fix: report an error that ends an engine scan or count
 early

---
 src/engine/rocks_raw_engine.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/engine/rocks_raw_engine.cc b/src/engine/rocks_raw_engine.cc
index 2e26d5d..e095579 100644
--- a/src/engine/rocks_raw_engine.cc
+++ b/src/engine/rocks_raw_engine.cc
@@ -391,7 +391,12 @@ butil::Status Reader::KvScan(ColumnFamilyPtr column_family, std::shared_ptr<ding
 
     kvs.emplace_back(std::move(kv));
   }
+  rocksdb::Status s = it->status();
   delete it;
+  if (!s.ok()) {
+    DINGO_LOG(ERROR) << fmt::format("[rocksdb] scan failed, error: {}", s.ToString());
+    return butil::Status(pb::error::EINTERNAL, "Internal scan error");
+  }
 
   return butil::Status();
 }
@@ -432,7 +437,12 @@ butil::Status Reader::KvCount(ColumnFamilyPtr column_family, dingodb::SnapshotPt
   for (it->Seek(start_key), count = 0; it->Valid() && it->key().ToStringView() < end_key_view; it->Next()) {
     ++count;
   }
+  rocksdb::Status s = it->status();
   delete it;
+  if (!s.ok()) {
+    DINGO_LOG(ERROR) << fmt::format("[rocksdb] count failed, error: {}", s.ToString());
+    return butil::Status(pb::error::EINTERNAL, "Internal count error");
+  }
 
   return butil::Status();
 }
-- 
2.43.0


From 7e964a9c30d46d45defd687e98354f4883a2871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:52 +0000
Subject: [PATCH 36/41] fix: a latch queue keeps the requests of a key that
 hashes to zero

---
 src/common/latch.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/common/latch.cc b/src/common/latch.cc
index fb2dca1..f07574a 100644
--- a/src/common/latch.cc
+++ b/src/common/latch.cc
@@ -58,9 +58,6 @@ void Latch::WaitForWake(uint64_t key_hash, uint64_t cid) { waiting.push_back(std
 void Latch::PushPreemptive(uint64_t key_hash, uint64_t cid) { waiting.push_front(std::make_pair(key_hash, cid)); }
 
 void Latch::MaybeShrink() {
-  waiting.erase(std::remove_if(waiting.begin(), waiting.end(), [](const auto& item) { return item.first == 0; }),
-                waiting.end());
-
   if (waiting.size() > kWaitingListMaxCapacity && waiting.size() < kWaitingListShrinkSize) {
     waiting.shrink_to_fit();
   }
-- 
2.43.0


From 48decac13a0d0568b1440e303ebbde0c55d51ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:53 +0000
Subject: [PATCH 37/41] fix: a stopped worker set refuses tasks it would never
 run

---
 src/common/runnable.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/common/runnable.cc b/src/common/runnable.cc
index 0698f2c..1e8057f 100644
--- a/src/common/runnable.cc
+++ b/src/common/runnable.cc
@@ -407,6 +407,12 @@ bool SimpleWorkerSet::Execute(TaskRunnablePtr task) {
 
   } else {
     bthread_mutex_lock(&mutex_);
+    if (is_stop) {
+      bthread_mutex_unlock(&mutex_);
+      DecPendingTaskCount();
+      DINGO_LOG(WARNING) << "[execqueue] worker set is stopped.";
+      return false;
+    }
     tasks_.push(task);
     bthread_mutex_unlock(&mutex_);
     bthread_cond_signal(&cond_);
@@ -545,6 +551,12 @@ bool PriorWorkerSet::Execute(TaskRunnablePtr task) {
 
   } else {
     bthread_mutex_lock(&mutex_);
+    if (is_stop) {
+      bthread_mutex_unlock(&mutex_);
+      DecPendingTaskCount();
+      DINGO_LOG(WARNING) << "[execqueue] worker set is stopped.";
+      return false;
+    }
     tasks_.push(task);
     bthread_mutex_unlock(&mutex_);
     bthread_cond_signal(&cond_);
-- 
2.43.0


From da26c27e2836706282e3fa8481aa5c9a3185c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:53 +0000
Subject: [PATCH 38/41] fix: a failed data read is not taken for an empty value

---
 src/engine/txn_engine_helper.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index be68be5..481ce5d 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -190,6 +190,11 @@ butil::Status TxnReader::GetDataValue(const std::string &key, std::string &value
         << "[txn]GetDataValue key: " << Helper::StringToHex(key) << " key is not exist";
     return butil::Status(pb::error::Errno::EKEY_NOT_FOUND, "key is not exist");
   }
+  if (!ret.ok()) {
+    DINGO_LOG(ERROR) << "[txn]GetDataValue read data failed, key: " << Helper::StringToHex(key)
+                     << ", status: " << ret.error_str();
+    return ret;
+  }
 
   if (value.empty()) {
     // value is empty, the key is not locked
-- 
2.43.0


From 576277b897f4cde2a0e5e86c03ed0e055992349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:53 +0000
Subject: [PATCH 39/41] fix: raising the timestamp floor never lowers it again

---
 src/mvcc/ts_provider.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mvcc/ts_provider.h b/src/mvcc/ts_provider.h
index 45a3b56..4cefa64 100644
--- a/src/mvcc/ts_provider.h
+++ b/src/mvcc/ts_provider.h
@@ -109,8 +109,10 @@ class BatchTsList {
   void Flush();
 
   void SetMinValidTs(int64_t min_valid_ts) {
-    if (min_valid_ts > min_valid_ts_.load(std::memory_order_acquire)) {
-      min_valid_ts_.store(min_valid_ts, std::memory_order_release);
+    int64_t current = min_valid_ts_.load(std::memory_order_acquire);
+    while (min_valid_ts > current &&
+           !min_valid_ts_.compare_exchange_weak(current, min_valid_ts, std::memory_order_release,
+                                                std::memory_order_acquire)) {
     }
   }
 
-- 
2.43.0


From 8d1b9eee6145df99eec9259a0822b84e53baf854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:58 +0000
Subject: [PATCH 40/41] fix: clear the document column when the data of a
 transactional document region is deleted

---
 src/common/helper.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/helper.cc b/src/common/helper.cc
index 414b71c..8526e3b 100644
--- a/src/common/helper.cc
+++ b/src/common/helper.cc
@@ -1010,6 +1010,9 @@ void Helper::GetColumnFamilyNames(const std::string& key, std::vector<std::strin
       txn_cf_names.push_back(Constant::kTxnDataCF);
       txn_cf_names.push_back(Constant::kTxnLockCF);
       txn_cf_names.push_back(Constant::kTxnWriteCF);
+      if (GetRole() == pb::common::ClusterRole::DOCUMENT) {
+        raw_cf_names.push_back(Constant::kStoreDataCF);
+      }
       return;
     } else {
       raw_cf_names.push_back(Constant::kStoreDataCF);
-- 
2.43.0


From 9e44a33a306de2f17c818321fb206fd47e8123ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:23 +0000
Subject: [PATCH 41/41] fix: a lock scan stream continues after the last lock
 it reported

---
 src/engine/txn_engine_helper.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 481ce5d..ac1a7d4 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1214,6 +1214,8 @@ butil::Status TxnEngineHelper::ScanLockInfo(StreamPtr stream, RawEnginePtr engin
           "max_scan_memory_size: {}.",
           stream->StreamId(), has_more, lock_infos.size(), limit, FLAGS_stream_message_max_limit_size, bytes,
           FLAGS_stream_message_max_bytes);
+      // the next page of this stream continues after the last reported lock
+      iter->Next();
       break;
     }
 
-- 
2.43.0

