From e8c174fd6cd212603bc86df138d95b434d085c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 01/45] fix: report failed reads and writes in ReadFile and
 WriteFile

ReadFile returned success with zero bytes in place of what could not be read, and
WriteFile returned true although writing or closing the file had failed.
---
 src/maidsafe/common/utils.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index dd98c7d..1567558 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -314,7 +314,10 @@ boost::expected<std::vector<byte>, common_error> ReadFile(const fs::path& file_p
       return file_content;
 
     std::ifstream file_in(file_path.c_str(), std::ios::in | std::ios::binary);
-    file_in.read(reinterpret_cast<char*>(&file_content[0]), file_size);
+    if (!file_in.read(reinterpret_cast<char*>(&file_content[0]), file_size)) {
+      LOG(kError) << "Failed to read file " << file_path;
+      return boost::make_unexpected(MakeError(CommonErrors::filesystem_io_error));
+    }
     file_in.close();
     return file_content;
   }
@@ -338,6 +341,10 @@ bool WriteFile(const boost::filesystem::path& file_path, const std::vector<byte>
     }
     file_out.write(reinterpret_cast<const char*>(content.data()), content.size());
     file_out.close();
+    if (!file_out) {
+      LOG(kError) << "Failed to write file " << file_path;
+      return false;
+    }
   } catch (const std::exception& e) {
     LOG(kError) << "Failed to write file " << file_path << ": " << boost::diagnostic_information(e);
     return false;
-- 
2.43.0


From 84eced23da7a0860efab9706b36304f53eeb71c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 02/45] fix: DataBuffer accounting, cancellation and shutdown

- Deleting by predicate removes the files and gives their space back.
- A store to disk identifies its own index entry by an id, so one which was
  cancelled while space became free neither writes its file nor leaves an
  entry behind, and an element replaced in memory is not marked as being on
  disk.
- Lowering a limit below what a waiting store needs no longer underflows.
- The limits are compared while both stores are locked.
- Whatever stops the buffer (also a failed eviction) wakes everybody: nobody
  misses the notification, waits for the worker while holding the mutex it
  needs, or returns from StoreOnDisk holding the disk mutex.
- Store reports that the old value could not be deleted or that the buffer has
  stopped.
- Eviction skips entries which are still being stored.
---
 include/maidsafe/common/data_buffer.h |  21 ++--
 src/maidsafe/common/data_buffer.cc    | 159 ++++++++++++++------------
 2 files changed, 98 insertions(+), 82 deletions(-)

diff --git a/include/maidsafe/common/data_buffer.h b/include/maidsafe/common/data_buffer.h
index bcac0bc..9f505f2 100644
--- a/include/maidsafe/common/data_buffer.h
+++ b/include/maidsafe/common/data_buffer.h
@@ -25,7 +25,6 @@
 #include <deque>
 #include <functional>
 #include <future>
-#include <map>
 #include <mutex>
 #include <string>
 
@@ -103,7 +102,7 @@ class DataBuffer {
     std::condition_variable cond_var;
   };
 
-  enum class StoringState { kNotStarted, kStarted, kCancelled, kCompleted };
+  enum class StoringState { kNotStarted, kStarted, kCompleted };
 
   struct MemoryElement {
     MemoryElement(KeyType key_in, NonEmptyString value_in)
@@ -118,8 +117,16 @@ class DataBuffer {
   using MemoryIndex = std::deque<MemoryElement>;
 
   struct DiskElement {
-    explicit DiskElement(KeyType key_in) : key(std::move(key_in)), state(StoringState::kStarted) {}
+    DiskElement(KeyType key_in, uint64_t id_in, const NonEmptyString* value_in)
+        : key(std::move(key_in)),
+          id(id_in),
+          value(value_in),
+          state(StoringState::kStarted) {}
     KeyType key;
+    // Identifies the call to 'StoreOnDisk' which added this element.
+    uint64_t id;
+    // Only valid while state is kStarted.
+    const NonEmptyString* value;
     StoringState state;
   };
   using DiskIndex = std::deque<DiskElement>;
@@ -131,7 +138,7 @@ class DataBuffer {
                             std::unique_lock<std::mutex>& memory_store_lock);
   void StoreOnDisk(const KeyType& key, const NonEmptyString& value,
                    std::unique_lock<std::mutex>&& disk_store_lock);
-  void WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
+  void WaitForSpaceOnDisk(uint64_t id, uint64_t required_space,
                           std::unique_lock<std::mutex>& disk_store_lock, bool& cancelled);
   void DeleteFromMemory(const KeyType& key, StoringState& also_on_disk);
   void DeleteFromDisk(const KeyType& key);
@@ -139,7 +146,7 @@ class DataBuffer {
 
   void CopyQueueToDisk();
   void CheckWorkerIsStillRunning();
-  void StopRunning();
+  void StopRunning(std::unique_lock<std::mutex>& disk_store_lock);
   boost::filesystem::path GetFilename(const KeyType& key) const;
 
   template <typename T>
@@ -152,7 +159,7 @@ class DataBuffer {
   MemoryIndex::iterator FindMemoryRemovalCandidate(
       uint64_t required_space, std::unique_lock<std::mutex>& memory_store_lock);
 
-  DiskIndex::iterator FindStartedToStoreOnDisk(const KeyType& key);
+  DiskIndex::iterator FindStartedToStoreOnDisk(uint64_t id);
   DiskIndex::iterator FindOldestOnDisk();
 
   DiskIndex::iterator FindAndThrowIfCancelled(const KeyType& key);
@@ -164,7 +171,7 @@ class DataBuffer {
   const PopFunctor kPopFunctor_;
   const boost::filesystem::path kDiskBuffer_;
   const bool kShouldRemoveRoot_;
-  std::map<KeyType, const NonEmptyString*> elements_being_moved_to_disk_{};
+  uint64_t next_disk_element_id_{0};
   std::atomic<bool> running_{true};
   std::mutex worker_mutex_{};
   std::future<void> worker_{};
diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5d1ccd1..a0f5c21 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -115,7 +115,10 @@ DataBuffer::~DataBuffer() {
 void DataBuffer::Store(const KeyType& key, const NonEmptyString& value) {
   try {
     Delete(key);
-  } catch (const std::exception&) {
+  } catch (const maidsafe_error& error) {
+    // Any other failure would leave the old value in place.
+    if (error.code() != make_error_code(CommonErrors::no_such_element))
+      throw;
     LOG(kVerbose) << "Storing " << DebugKeyName(key) << " with value " << value;
   }
 
@@ -123,6 +126,8 @@ void DataBuffer::Store(const KeyType& key, const NonEmptyString& value) {
   auto disk_store_lock(StoreInMemory(key, value));
   if (disk_store_lock)
     StoreOnDisk(key, value, std::move(disk_store_lock));
+  // If the worker has stopped, the value may not have been stored.
+  CheckWorkerIsStillRunning();
 }
 
 std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
@@ -135,14 +140,12 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
 
     WaitForSpaceInMemory(required_space, memory_store_lock);
 
-    if (!running_) {
-      {
-        std::lock_guard<std::mutex> worker_lock(worker_mutex_);
-        if (worker_.valid())
-          worker_.get();
-      }
+    // The worker may still need the memory store's mutex to finish, so don't wait for it here.
+    if (!running_)
       return std::move(std::unique_lock<std::mutex>());
-    }
+    // The limit may have been lowered while waiting.
+    if (required_space > memory_store_.max)
+      return std::move(std::unique_lock<std::mutex>(disk_store_.mutex));
 
     memory_store_.current.data += required_space;
     memory_store_.index.emplace_back(key, value);
@@ -153,7 +156,7 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
 
 void DataBuffer::WaitForSpaceInMemory(uint64_t required_space,
                                       std::unique_lock<std::mutex>& memory_store_lock) {
-  while (!HasSpace(memory_store_, required_space)) {
+  while (required_space <= memory_store_.max && !HasSpace(memory_store_, required_space)) {
     auto itr(FindMemoryRemovalCandidate(required_space, memory_store_lock));
     if (!running_)
       return;
@@ -171,23 +174,31 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   if (value.string().size() > disk_store_.max) {
     LOG(kError) << "Cannot store " << DebugKeyName(key) << " since its " << value.string().size()
                 << " bytes exceeds max of " << disk_store_.max << " bytes.";
-    StopRunning();
+    StopRunning(disk_store_lock);
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
-  disk_store_.index.emplace_back(key);
+  const uint64_t id(next_disk_element_id_++);
+  disk_store_.index.emplace_back(key, id, &value);
 
   bool cancelled(false);
-  WaitForSpaceOnDisk(key, &value, disk_store_lock, cancelled);
+  try {
+    WaitForSpaceOnDisk(id, value.string().size(), disk_store_lock, cancelled);
+  } catch (const std::exception&) {
+    LOG(kError) << "Failed to make space on disk for " << DebugKeyName(key);
+    StopRunning(disk_store_lock);
+    throw;
+  }
+  // Callers lock the memory store's mutex next, so mustn't be left holding the lock.
   if (!running_)
-    return;
+    return disk_store_lock.unlock();
 
   if (!cancelled) {
     if (!WriteFile(GetFilename(key), value.string())) {
       LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
-      StopRunning();
+      StopRunning(disk_store_lock);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
     }
-    auto itr(FindStartedToStoreOnDisk(key));
+    auto itr(FindStartedToStoreOnDisk(id));
     if (itr != disk_store_.index.end())
       (*itr).state = StoringState::kCompleted;
 
@@ -197,41 +208,35 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   disk_store_.cond_var.notify_all();
 }
 
-void DataBuffer::WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
+void DataBuffer::WaitForSpaceOnDisk(uint64_t id, uint64_t required_space,
                                     std::unique_lock<std::mutex>& disk_store_lock,
                                     bool& cancelled) {
-  while (!HasSpace(disk_store_, value->string().size()) && running_) {
-    auto itr(Find(disk_store_, key));
-    if (itr == disk_store_.index.end()) {
+  while (running_) {
+    if (FindStartedToStoreOnDisk(id) == disk_store_.index.end()) {
       cancelled = true;
       return;
     }
 
-    if ((*itr).state == StoringState::kCancelled) {
-      disk_store_.index.erase(itr);
-      cancelled = true;
+    if (HasSpace(disk_store_, required_space))
       return;
-    }
 
-    if (kPopFunctor_) {
+    // The limit may have been lowered while waiting.
+    if (required_space > disk_store_.max)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
+
+    auto itr(disk_store_.index.end());
+    if (kPopFunctor_)
       itr = FindOldestOnDisk();
-      assert((*itr).state != StoringState::kStarted);
-      if ((*itr).state == StoringState::kCompleted) {
-        KeyType oldest_key(itr->key);
-        NonEmptyString oldest_value;
-        RemoveFile(oldest_key, &oldest_value);
-        disk_store_.index.erase(itr);
-        kPopFunctor_(oldest_key, oldest_value);
-      }
+    if (itr != disk_store_.index.end()) {
+      KeyType oldest_key(itr->key);
+      NonEmptyString oldest_value;
+      RemoveFile(oldest_key, &oldest_value);
+      disk_store_.index.erase(itr);
+      kPopFunctor_(oldest_key, oldest_value);
     } else {
-      // Rely on client of this class to call Delete until enough space becomes available.  Make the
-      // current value available for 'Get' (avoid 'Get' permanent blocking) by adding to
-      // 'elements_being_moved_to_disk_'.
-      if (running_) {
-        elements_being_moved_to_disk_[key] = value;
-        disk_store_.cond_var.wait(disk_store_lock);
-        elements_being_moved_to_disk_.erase(key);
-      }
+      // Rely on client of this class to call Delete until enough space becomes available.
+      // Meanwhile 'Get' uses the value held by the disk element.
+      disk_store_.cond_var.wait(disk_store_lock);
     }
   }
 }
@@ -247,14 +252,9 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
   std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
   auto itr(FindAndThrowIfCancelled(key));
   if ((*itr).state == StoringState::kStarted) {
-    auto temp_itr(elements_being_moved_to_disk_.find(key));
-    if (temp_itr != std::end(elements_being_moved_to_disk_))
-      return *temp_itr->second;
-    disk_store_.cond_var.wait(disk_store_lock, [this, &key]() -> bool {
-      auto itr(Find(disk_store_, key));
-      return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted);
-    });
-    itr = FindAndThrowIfCancelled(key);
+    // The storing call is either waiting for space or has failed.
+    CheckWorkerIsStillRunning();
+    return *(*itr).value;
   }
   auto result(ReadFile(GetFilename(key)));
   if (result)
@@ -293,13 +293,16 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
       memory_store_.cond_var.notify_all();
   }
   std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-  auto before_size(disk_store_.index.size());
-  disk_store_.index.erase(
-      std::remove_if(std::begin(disk_store_.index), std::end(disk_store_.index),
-                     [&](const DiskElement& item) { return predicate(item.key); }),
-      std::end(disk_store_.index));
-  if (disk_store_.index.size() != before_size)
-    disk_store_.cond_var.notify_all();
+  for (auto itr(disk_store_.index.begin()); itr != disk_store_.index.end();) {
+    if (predicate(itr->key)) {
+      if (itr->state == StoringState::kCompleted)
+        RemoveFile(itr->key, nullptr);
+      itr = disk_store_.index.erase(itr);
+      disk_store_.cond_var.notify_all();
+    } else {
+      ++itr;
+    }
+  }
 }
 
 void DataBuffer::DeleteFromMemory(const KeyType& key, StoringState& also_on_disk) {
@@ -330,12 +333,10 @@ void DataBuffer::DeleteFromDisk(const KeyType& key) {
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
     }
 
-    if ((*itr).state == StoringState::kStarted) {
-      (*itr).state = StoringState::kCancelled;
-    } else if ((*itr).state == StoringState::kCompleted) {
+    // If storing has started, removing the element cancels it.
+    if ((*itr).state == StoringState::kCompleted)
       RemoveFile(itr->key, nullptr);
-      disk_store_.index.erase(itr);
-    }
+    disk_store_.index.erase(itr);
   }
   disk_store_.cond_var.notify_all();
 }
@@ -387,7 +388,8 @@ void DataBuffer::CopyQueueToDisk() {
       StoreOnDisk(key, value, std::move(disk_store_lock));
       memory_store_lock.lock();
       itr = Find(memory_store_, key);
-      if (itr != memory_store_.index.end())
+      // The element may meanwhile have been replaced by one which isn't on disk yet.
+      if (itr != memory_store_.index.end() && (*itr).also_on_disk == StoringState::kStarted)
         (*itr).also_on_disk = StoringState::kCompleted;
     }
     memory_store_.cond_var.notify_all();
@@ -407,10 +409,14 @@ void DataBuffer::CheckWorkerIsStillRunning() {
   }
 }
 
-void DataBuffer::StopRunning() {
+void DataBuffer::StopRunning(std::unique_lock<std::mutex>& disk_store_lock) {
   running_ = false;
-  memory_store_.cond_var.notify_all();
   disk_store_.cond_var.notify_all();
+  // The memory store's mutex must not be locked while holding that of the disk store.  Locking it
+  // ensures that nobody is between checking 'running_' and starting to wait.
+  disk_store_lock.unlock();
+  { std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex); }
+  memory_store_.cond_var.notify_all();
 }
 
 fs::path DataBuffer::GetFilename(const KeyType& key) const {
@@ -420,6 +426,7 @@ fs::path DataBuffer::GetFilename(const KeyType& key) const {
 void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
   {
     std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
     if (max_memory_usage > disk_store_.max) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
@@ -430,24 +437,21 @@ void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
 }
 
 void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
-  bool increased(false);
   {
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
     std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
     if (memory_store_.max > max_disk_usage) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
     }
-    increased = (max_disk_usage > disk_store_.max);
     disk_store_.max = max_disk_usage;
   }
-  if (increased)
-    disk_store_.cond_var.notify_all();
+  disk_store_.cond_var.notify_all();
 }
 
 template <typename T>
 bool DataBuffer::HasSpace(const T& store, uint64_t required_space) const {
-  assert(store.max >= required_space);
-  return store.current <= store.max - required_space;
+  return required_space <= store.max && store.current <= store.max - required_space;
 }
 
 template <typename T>
@@ -472,23 +476,28 @@ DataBuffer::MemoryIndex::iterator DataBuffer::FindMemoryRemovalCandidate(
                        [](const MemoryElement& key_value) {
       return key_value.also_on_disk == StoringState::kCompleted;
     });
-    return itr != memory_store_.index.end() || HasSpace(memory_store_, required_space) || !running_;
+    return itr != memory_store_.index.end() || required_space > memory_store_.max ||
+           HasSpace(memory_store_, required_space) || !running_;
   });
   return itr;
 }
 
-DataBuffer::DiskIndex::iterator DataBuffer::FindStartedToStoreOnDisk(const KeyType& key) {
+DataBuffer::DiskIndex::iterator DataBuffer::FindStartedToStoreOnDisk(uint64_t id) {
   return std::find_if(disk_store_.index.begin(), disk_store_.index.end(),
-                      [&key](const DiskElement& entry) {
-    return entry.state == StoringState::kStarted && entry.key == key;
+                      [id](const DiskElement& entry) {
+    return entry.state == StoringState::kStarted && entry.id == id;
   });
 }
 
-DataBuffer::DiskIndex::iterator DataBuffer::FindOldestOnDisk() { return disk_store_.index.begin(); }
+DataBuffer::DiskIndex::iterator DataBuffer::FindOldestOnDisk() {
+  return std::find_if(
+      disk_store_.index.begin(), disk_store_.index.end(),
+      [](const DiskElement& entry) { return entry.state == StoringState::kCompleted; });
+}
 
 DataBuffer::DiskIndex::iterator DataBuffer::FindAndThrowIfCancelled(const KeyType& key) {
   auto itr(Find(disk_store_, key));
-  if (itr == disk_store_.index.end() || (*itr).state == StoringState::kCancelled) {
+  if (itr == disk_store_.index.end()) {
     LOG(kWarning) << DebugKeyName(key) << " is not in the disk index or is cancelled.";
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
   }
-- 
2.43.0


From 3a1f7c04b336abe8c80b7a1b72791f26b2210ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 03/45] fix: keep LruCache consistent when adding runs out of
 memory or capacity is zero

---
 .../maidsafe/common/containers/lru_cache.h    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/maidsafe/common/containers/lru_cache.h b/include/maidsafe/common/containers/lru_cache.h
index 92fed95..8a63154 100644
--- a/include/maidsafe/common/containers/lru_cache.h
+++ b/include/maidsafe/common/containers/lru_cache.h
@@ -98,7 +98,7 @@ class LruCacheBase {
   using Storage = typename StorageType<KeyType, T>::type;
 
   typename KeyOrder<KeyType>::iterator PrepareToAdd(const KeyType& key) {
-    if (storage_.find(key) != storage_.end())
+    if (capacity_ == 0 || storage_.find(key) != storage_.end())
       return std::end(key_order_);
     // Check if we should evict any entries because of size
     if (storage_.size() == capacity_)
@@ -173,8 +173,13 @@ class LruCache : public detail::LruCacheBase<KeyType, ValueType> {
     if (it == std::end(this->key_order_))
       return;
     // Create the key-value entry, linked to the usage record.
-    this->storage_.insert(std::make_pair(
-        std::move(key), std::make_tuple(it, std::chrono::steady_clock::now(), std::move(value))));
+    try {
+      this->storage_.insert(std::make_pair(
+          std::move(key), std::make_tuple(it, std::chrono::steady_clock::now(), std::move(value))));
+    } catch (...) {
+      this->key_order_.erase(it);
+      throw;
+    }
   }
 
   void Delete(const KeyType& key) {
@@ -210,8 +215,13 @@ class LruCache<KeyType, void> : public detail::LruCacheBase<KeyType, void> {
     if (it == std::end(this->key_order_))
       return;
     // Create the key entry, linked to the usage record.
-    this->storage_.insert(
-        std::make_pair(std::move(key), std::make_tuple(it, std::chrono::steady_clock::now())));
+    try {
+      this->storage_.insert(
+          std::make_pair(std::move(key), std::make_tuple(it, std::chrono::steady_clock::now())));
+    } catch (...) {
+      this->key_order_.erase(it);
+      throw;
+    }
   }
 };
 
-- 
2.43.0


From eea4dc8f2d48e72cbb28f3d9aee584550815cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:27 +0000
Subject: [PATCH 04/45] fix: don't use the result of a failed or truncated
 readlink as executable path

---
 src/maidsafe/common/config.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/config.cc b/src/maidsafe/common/config.cc
index 640d45b..fda2242 100644
--- a/src/maidsafe/common/config.cc
+++ b/src/maidsafe/common/config.cc
@@ -72,8 +72,9 @@ void SetThisExecutablePath(const char* const argv[]) {
 #endif
 #ifdef __linux__
     char buffer[PATH_MAX];
-    size_t len = 0;
-    if ((len = readlink("/proc/self/exe", buffer, sizeof(buffer))) > 0) {
+    // If the buffer is filled completely, the path may have been truncated.
+    const ssize_t len(readlink("/proc/self/exe", buffer, sizeof(buffer)));
+    if (len > 0 && static_cast<size_t>(len) < sizeof(buffer)) {
       buffer[len] = 0;
       path = buffer;
     }
-- 
2.43.0


From 501cef5d2b25d913d9e5545c3e197eaa7ce70d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 05/45] fix: stop Menu::Run when the input has ended or failed

---
 src/maidsafe/common/menu.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index c531e8e..7b866bf 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -60,6 +60,9 @@ int Menu::Run() {
           current_item_ = current_item_->Child(result - 1);
         }
       } catch (const std::exception&) {
+        // Don't ask for ever if there is no more input.
+        if (!std::cin)
+          throw;
         TLOG(kYellow) << "Invalid choice\n";
         continue;
       }
-- 
2.43.0


From 849a5ca14ba2e05926f6fd4a82fb0ecd64ccc861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 06/45] fix: don't dereference the missing parent of an empty
 menu

---
 src/maidsafe/common/menu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index 7b866bf..1de1182 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -46,7 +46,7 @@ int Menu::Run() {
       if (clear_cli) {
         cli_.Clear();
         clear_cli = false;
-        if (current_item_->HasNoChildren())
+        if (current_item_->HasNoChildren() && current_item_->kParent_)
           current_item_ = current_item_->kParent_;
         ShowOptions();
       }
-- 
2.43.0


From d23cd7ee28e9f585512c1f96a88497de89cdab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:46 +0000
Subject: [PATCH 07/45] fix: leave the terminal alone if its settings can't be
 read

---
 src/maidsafe/common/cli.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/cli.cc b/src/maidsafe/common/cli.cc
index aa0cc9e..409a638 100644
--- a/src/maidsafe/common/cli.cc
+++ b/src/maidsafe/common/cli.cc
@@ -49,7 +49,8 @@ void CLI::Echo(bool enable) const {
   SetConsoleMode(hStdin, mode);
 #else
   struct termios tty;
-  tcgetattr(STDIN_FILENO, &tty);
+  if (tcgetattr(STDIN_FILENO, &tty) != 0)  // e.g. stdin is not a terminal
+    return;
   if (!enable)
     tty.c_lflag &= ~ECHO;
   else
-- 
2.43.0


From 2efda85936c6edef2b1aaf555b44936c602bec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:12 +0000
Subject: [PATCH 08/45] fix: keep StructuredDataVersions intact in swap and
 when merging into an empty one

The end iterators which orphans have as parent weren't reset after a swap (a comparison was used
rather than an assignment), and ApplySerialised dereferenced the missing root of an empty tree.
---
 src/maidsafe/common/data_types/structured_data_versions.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 4b3c0a2..2f671b5 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -291,6 +291,8 @@ void StructuredDataVersions::ApplySerialised(const serialised_type& serialised_d
 
 void StructuredDataVersions::ApplyBranch(VersionName parent, VersionsItr itr,
                                          StructuredDataVersions& new_versions) const {
+  if (itr == std::end(versions_))  // There's no root.
+    return;
   for (;;) {
     new_versions.Put(parent, itr->first);
     if (itr->second->children.empty())
@@ -757,11 +759,11 @@ void swap(StructuredDataVersions& lhs, StructuredDataVersions& rhs) MAIDSAFE_NOE
   swap(lhs.orphans_, rhs.orphans_);
   for (const auto& lhs_orphans : lhs.orphans_) {
     for (auto lhs_orphan : lhs_orphans.second)
-      lhs_orphan->second->parent == std::end(lhs.versions_);
+      lhs_orphan->second->parent = std::end(lhs.versions_);
   }
   for (const auto& rhs_orphans : rhs.orphans_) {
     for (auto rhs_orphan : rhs_orphans.second)
-      rhs_orphan->second->parent == std::end(rhs.versions_);
+      rhs_orphan->second->parent = std::end(rhs.versions_);
   }
 }
 
-- 
2.43.0


From 94cfff565cef19984a1f8f2722bba8509f975157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:53 +0000
Subject: [PATCH 09/45] fix: refuse all circular chains in
 StructuredDataVersions::Put

A version added under itself, or under an orphan which waits for it, was accepted.
---
 src/maidsafe/common/data_types/structured_data_versions.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 2f671b5..9e2c795 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -313,6 +313,9 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   if (!new_version.id.IsInitialised())
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
 
+  if (old_version == new_version)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+
   if (NewVersionPreExists(old_version, new_version))
     return boost::none;
 
@@ -429,11 +432,11 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
   return std::async([this, itr, &version]() {
     VersionsItr versions_itr(itr);
     while (versions_itr != std::end(versions_)) {
+      if (versions_itr->first == version)
+        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       auto child_itr(std::begin(versions_itr->second->children));
       if (child_itr == std::end(versions_itr->second->children))
         return;
-      if ((*child_itr)->first == version)
-        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       std::vector<std::future<void>> check_futures;
       while (++child_itr != std::end(versions_itr->second->children))
         check_futures.emplace_back(CheckVersionNotInBranch(*child_itr, version));
-- 
2.43.0


From c9b203c11080b67da1024f19a2ab6bc93b74807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:33 +0000
Subject: [PATCH 10/45] fix: apply the limits of StructuredDataVersions as
 documented

At the branch limit, adding a root dereferenced its missing parent, a version which un-orphans the
existing root was refused or erased that root, and the root was replaced by the orphan with the
lowest absent parent rather than by the lowest orphan.
---
 .../common/data_types/structured_data_versions.h    |  3 +--
 .../common/data_types/structured_data_versions.cc   | 13 ++++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/maidsafe/common/data_types/structured_data_versions.h b/include/maidsafe/common/data_types/structured_data_versions.h
index 6458091..0ef790a 100644
--- a/include/maidsafe/common/data_types/structured_data_versions.h
+++ b/include/maidsafe/common/data_types/structured_data_versions.h
@@ -244,8 +244,7 @@ class StructuredDataVersions {
   void CheckForUnorphaning(Version& version, bool& unorphans_existing_root,
                            size_t& unorphan_count) const;
   std::future<void> CheckVersionNotInBranch(VersionsItr itr, const VersionName& version) const;
-  void CheckBranchCount(const Version& version, bool is_orphan, size_t unorphaned_count,
-                        bool& erase_existing_root) const;
+  void CheckBranchCount(const Version& version, bool is_orphan, bool& erase_existing_root) const;
   boost::optional<VersionName> Insert(const Version& version, bool is_root, bool is_orphan,
                                       const VersionName& old_version, bool unorphans_existing_root,
                                       size_t unorphan_count, bool erase_existing_root);
diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 9e2c795..ce71a13 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -351,7 +351,10 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   }
 
   // Handle case where we're about to exceed 'max_branches_'.
-  CheckBranchCount(version, is_orphan, unorphan_count, erase_existing_root);
+  if (AtBranchesLimit() && is_root && version.second->children.empty())
+    // As above - this new version would be 'root_' and a tip of tree, only to be immediately erased.
+    return boost::make_optional(new_version);
+  CheckBranchCount(version, is_orphan, erase_existing_root);
 
   // Finally, safe to now add details
   return Insert(version, is_root, is_orphan, old_version, unorphans_existing_root, unorphan_count,
@@ -448,9 +451,8 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
 }
 
 void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_orphan,
-                                              size_t unorphaned_count,
                                               bool& erase_existing_root) const {
-  if (AtBranchesLimit() && unorphaned_count == 0) {
+  if (AtBranchesLimit() && version.second->children.empty()) {
     if (is_orphan || !version.second->parent->second->children.empty()) {
       // We're going to exceed limit - see if deleting 'root_' helps
       bool root_is_tip_of_tree(root_.second != std::end(versions_) &&
@@ -563,8 +565,13 @@ void StructuredDataVersions::ReplaceRoot() {
 
 void StructuredDataVersions::ReplaceRootFromOrphans() {
   assert(!orphans_.empty());
+  // The orphans are keyed by their absent parent, so look for the one with the lowest VersionName.
   OrphanItr orphan_itr(
       std::make_pair(std::begin(orphans_), std::begin(std::begin(orphans_)->second)));
+  for (auto itr(std::begin(orphans_)); itr != std::end(orphans_); ++itr) {
+    if ((*std::begin(itr->second))->first < (*orphan_itr.second)->first)
+      orphan_itr = std::make_pair(itr, std::begin(itr->second));
+  }
   versions_.erase(root_.second);
   root_.first = orphan_itr.first->first;
   root_.second = *orphan_itr.second;
-- 
2.43.0


From 2e950b8e3d2385c3bb1c92f77ab9d4a6cb6ee9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:56 +0000
Subject: [PATCH 11/45] fix: don't let a parsed fork count leak into later
 snapshots of StructuredDataVersions

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index ce71a13..b09bc60 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -235,6 +235,7 @@ StructuredDataVersions::VersionsItr StructuredDataVersions::HandleFirstVersionIn
 }
 
 StructuredDataVersions::VersionsItr StructuredDataVersions::CheckedInsert(VersionName&& version) {
+  version.forking_child_count = boost::none;  // Only used during serialisation/parsing.
   auto result(versions_.insert(std::make_pair(std::move(version), std::make_shared<Details>())));
   if (!result.second)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
-- 
2.43.0


From c1b3b102d1cb1755d4a38751365ca4e8d6cf4128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:01 +0000
Subject: [PATCH 12/45] fix: don't terminate if memory runs out while making an
 error message

message() returns a string, whose allocation can fail.
---
 src/maidsafe/common/error_categories.cc | 20 ++++++++++----------
 src/maidsafe/common/error_categories.h  | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/maidsafe/common/error_categories.cc b/src/maidsafe/common/error_categories.cc
index 3a82c13..7351fe6 100644
--- a/src/maidsafe/common/error_categories.cc
+++ b/src/maidsafe/common/error_categories.cc
@@ -27,7 +27,7 @@ namespace detail {
 
 const char* CommonCategory::name() const MAIDSAFE_NOEXCEPT { return "MaidSafe Common"; }
 
-std::string CommonCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string CommonCategory::message(int error_value) const {
   switch (static_cast<CommonErrors>(error_value)) {
     case CommonErrors::success:
       return "Success";
@@ -117,7 +117,7 @@ std::error_condition CommonCategory::default_error_condition(int error_value) co
 
 const char* AsymmCategory::name() const MAIDSAFE_NOEXCEPT { return "MaidSafe Asymmetric Crypto"; }
 
-std::string AsymmCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string AsymmCategory::message(int error_value) const {
   switch (static_cast<AsymmErrors>(error_value)) {
     case AsymmErrors::keys_generation_error:
       return "Error generating key pair";
@@ -164,7 +164,7 @@ std::error_condition AsymmCategory::default_error_condition(int error_value) con
 
 const char* PassportCategory::name() const MAIDSAFE_NOEXCEPT { return "MaidSafe Identity Ring"; }
 
-std::string PassportCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string PassportCategory::message(int error_value) const {
   switch (static_cast<PassportErrors>(error_value)) {
     case PassportErrors::id_already_exists:
       return "ID already exists in the passport";
@@ -183,7 +183,7 @@ std::error_condition PassportCategory::default_error_condition(int error_value)
 
 const char* EncryptCategory::name() const MAIDSAFE_NOEXCEPT { return "MaidSafe Encryption"; }
 
-std::string EncryptCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string EncryptCategory::message(int error_value) const {
   switch (static_cast<EncryptErrors>(error_value)) {
     case EncryptErrors::bad_sequence:
       return "Bad sequence";
@@ -220,7 +220,7 @@ std::error_condition EncryptCategory::default_error_condition(int error_value) c
 
 const char* RoutingCategory::name() const MAIDSAFE_NOEXCEPT { return "MaidSafe Routing"; }
 
-std::string RoutingCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string RoutingCategory::message(int error_value) const {
   switch (static_cast<RoutingErrors>(error_value)) {
     case RoutingErrors::timed_out:
       return "Timed out";
@@ -247,7 +247,7 @@ std::error_condition RoutingCategory::default_error_condition(int error_value) c
 
 const char* NfsCategory::name() const MAIDSAFE_NOEXCEPT { return "MaidSafe Network Filesystem"; }
 
-std::string NfsCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string NfsCategory::message(int error_value) const {
   switch (static_cast<NfsErrors>(error_value)) {
     case NfsErrors::failed_to_get_data:
       return "Routing failed to return requested data";
@@ -269,7 +269,7 @@ std::error_condition NfsCategory::default_error_condition(int error_value) const
 
 const char* DriveCategory::name() const MAIDSAFE_NOEXCEPT { return "MaidSafe Drive"; }
 
-std::string DriveCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string DriveCategory::message(int error_value) const {
   switch (static_cast<DriveErrors>(error_value)) {
     case DriveErrors::no_drive_letter_available:
       return "There are no available drive letters left";
@@ -302,7 +302,7 @@ std::error_condition DriveCategory::default_error_condition(int error_value) con
 
 const char* VaultCategory::name() const MAIDSAFE_NOEXCEPT { return "MaidSafe Vault"; }
 
-std::string VaultCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string VaultCategory::message(int error_value) const {
   switch (static_cast<VaultErrors>(error_value)) {
     case VaultErrors::failed_to_join_network:
       return "Failed to join network";
@@ -347,7 +347,7 @@ std::error_condition VaultCategory::default_error_condition(int error_value) con
 
 const char* VaultManagerCategory::name() const MAIDSAFE_NOEXCEPT { return "MaidSafe VaultManager"; }
 
-std::string VaultManagerCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string VaultManagerCategory::message(int error_value) const {
   switch (static_cast<VaultManagerErrors>(error_value)) {
     case VaultManagerErrors::connection_not_found:
       return "IPC connection not found";
@@ -392,7 +392,7 @@ std::error_condition VaultManagerCategory::default_error_condition(int error_val
 
 const char* ApiCategory::name() const MAIDSAFE_NOEXCEPT { return "Client"; }
 
-std::string ApiCategory::message(int error_value) const MAIDSAFE_NOEXCEPT {
+std::string ApiCategory::message(int error_value) const {
   switch (static_cast<ApiErrors>(error_value)) {
     case ApiErrors::kPasswordFailure:
       return "Failed to validate password";
diff --git a/src/maidsafe/common/error_categories.h b/src/maidsafe/common/error_categories.h
index 221ab44..031b950 100644
--- a/src/maidsafe/common/error_categories.h
+++ b/src/maidsafe/common/error_categories.h
@@ -31,70 +31,70 @@ namespace detail {
 class CommonCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
 class AsymmCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
 class PassportCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
 class EncryptCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
 class RoutingCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
 class NfsCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
 class DriveCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
 class VaultCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
 class VaultManagerCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
 class ApiCategory : public std::error_category {
  public:
   virtual const char* name() const MAIDSAFE_NOEXCEPT;
-  virtual std::string message(int error_value) const MAIDSAFE_NOEXCEPT;
+  virtual std::string message(int error_value) const;
   virtual std::error_condition default_error_condition(int error_value) const MAIDSAFE_NOEXCEPT;
 };
 
-- 
2.43.0


From cb8baaa06153f594c000c634eec3ac2c1d1a445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:43 +0000
Subject: [PATCH 13/45] fix: strong exception guarantee for
 StructuredDataVersions' Put and DeleteBranchUntilFork

Memory running out part way left versions without parent or tip behind.  Changes are now undone, or
made only when nothing can fail any more.
---
 .../data_types/structured_data_versions.h     |   5 +-
 .../data_types/structured_data_versions.cc    | 118 ++++++++++++------
 2 files changed, 80 insertions(+), 43 deletions(-)

diff --git a/include/maidsafe/common/data_types/structured_data_versions.h b/include/maidsafe/common/data_types/structured_data_versions.h
index 0ef790a..0c4ac00 100644
--- a/include/maidsafe/common/data_types/structured_data_versions.h
+++ b/include/maidsafe/common/data_types/structured_data_versions.h
@@ -252,16 +252,17 @@ class StructuredDataVersions {
   void UnorphanRoot(VersionsItr parent, bool is_root_or_orphan, const VersionName& old_version);
   void Unorphan(VersionsItr parent);
   void ReplaceRoot();
-  void ReplaceRootFromOrphans();
+  void ReplaceRootFromOrphans(VersionName absent_parent_name);
   void ReplaceRootFromChildren();
   SortedVersionsItrs::const_iterator FindBranchTip(const VersionName& name) const;
+  OrphanItr FindLowestOrphan();
   OrphanItr FindOrphan(const VersionName& name);
   OrphanConstItr FindOrphan(const VersionName& name) const;
   void InsertOrphan(const VersionName& absent_parent_name, VersionsItr orphan);
   void EraseOrphan(OrphanItr orphan_itr);
   void CheckBranchTipIterator(const VersionName& name,
                               SortedVersionsItrs::const_iterator branch_tip_itr) const;
-  void EraseFrontOfBranch(VersionsItr front_of_branch);
+  void EraseFrontOfBranch(VersionsItr front_of_branch, VersionName replacement_root_parent);
   bool AtVersionsLimit() const;
   bool AtBranchesLimit() const;
   void CheckedInsert(SortedVersionsItrs& container, VersionsItr element) const;
diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index b09bc60..6c7ac5c 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -19,6 +19,7 @@
 #include "maidsafe/common/data_types/structured_data_versions.h"
 
 #include <algorithm>
+#include <iterator>
 #include <limits>
 #include <tuple>
 
@@ -471,37 +472,55 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Ins
     bool unorphans_existing_root, size_t unorphan_count, bool erase_existing_root) {
   assert(!((is_root || unorphans_existing_root) && erase_existing_root));
 
+  // Allocations below can fail, so keep what's needed to undo all changes made by then.
+  auto previous_root(root_);
+  auto previous_tips_of_trees(tips_of_trees_);
+  auto previous_orphans(orphans_);
+
   auto inserted_itr(versions_.insert(version).first);
-  if (unorphan_count)
-    Unorphan(inserted_itr);
+  boost::optional<VersionName> removed_version;
+  try {
+    if (unorphan_count)
+      Unorphan(inserted_itr);
 
-  if (!is_root && !is_orphan)
-    SetVersionAsChildOfItsParent(inserted_itr);
+    if (!is_root && !is_orphan)
+      SetVersionAsChildOfItsParent(inserted_itr);
 
-  if (is_orphan && !unorphans_existing_root)
-    InsertOrphan(old_version, inserted_itr);
+    if (is_orphan && !unorphans_existing_root)
+      InsertOrphan(old_version, inserted_itr);
 
-  if (is_root && root_.first.id.IsInitialised() && !unorphans_existing_root) {
-    // The new root is replacing a temporary old root which would have been an orphan had the real
-    // root existed at that time.  Move the old root to 'orphans_'.
-    InsertOrphan(root_.first, root_.second);
-  }
+    if (is_root && root_.first.id.IsInitialised() && !unorphans_existing_root) {
+      // The new root is replacing a temporary old root which would have been an orphan had the real
+      // root existed at that time.  Move the old root to 'orphans_'.
+      InsertOrphan(root_.first, root_.second);
+    }
 
-  boost::optional<VersionName> removed_version;
-  if (is_root) {
-    if (unorphans_existing_root)
-      UnorphanRoot(inserted_itr, true, old_version);
-    else
-      root_ = std::make_pair(old_version, inserted_itr);
-  } else if (unorphans_existing_root) {
-    UnorphanRoot(inserted_itr, is_orphan, old_version);
-  } else if (erase_existing_root) {
-    removed_version = root_.second->first;
-    ReplaceRoot();
-  }
+    if (version.second->children.empty())
+      CheckedInsert(tips_of_trees_, inserted_itr);
 
-  if (version.second->children.empty())
-    CheckedInsert(tips_of_trees_, inserted_itr);
+    if (is_root) {
+      if (unorphans_existing_root)
+        UnorphanRoot(inserted_itr, true, old_version);
+      else
+        root_ = std::make_pair(old_version, inserted_itr);
+    } else if (unorphans_existing_root) {
+      UnorphanRoot(inserted_itr, is_orphan, old_version);
+    } else if (erase_existing_root) {
+      removed_version = root_.second->first;
+      ReplaceRoot();
+    }
+  } catch (...) {
+    using std::swap;
+    swap(root_, previous_root);
+    swap(tips_of_trees_, previous_tips_of_trees);
+    swap(orphans_, previous_orphans);
+    for (auto child : inserted_itr->second->children)
+      child->second->parent = std::end(versions_);
+    if (inserted_itr->second->parent != std::end(versions_))
+      inserted_itr->second->parent->second->children.erase(inserted_itr);
+    versions_.erase(inserted_itr);
+    throw;
+  }
 
   assert(versions_.size() <= max_versions_ && tips_of_trees_.size() <= max_branches_);
   return removed_version;
@@ -559,12 +578,12 @@ void StructuredDataVersions::ReplaceRoot() {
     tips_of_trees_.erase(tip_of_tree_itr);
 
   if (root_.second->second->children.empty())
-    ReplaceRootFromOrphans();
+    ReplaceRootFromOrphans(FindLowestOrphan().first->first);
   else
     ReplaceRootFromChildren();
 }
 
-void StructuredDataVersions::ReplaceRootFromOrphans() {
+StructuredDataVersions::OrphanItr StructuredDataVersions::FindLowestOrphan() {
   assert(!orphans_.empty());
   // The orphans are keyed by their absent parent, so look for the one with the lowest VersionName.
   OrphanItr orphan_itr(
@@ -573,26 +592,31 @@ void StructuredDataVersions::ReplaceRootFromOrphans() {
     if ((*std::begin(itr->second))->first < (*orphan_itr.second)->first)
       orphan_itr = std::make_pair(itr, std::begin(itr->second));
   }
+  return orphan_itr;
+}
+
+void StructuredDataVersions::ReplaceRootFromOrphans(VersionName absent_parent_name) {
+  OrphanItr orphan_itr(FindLowestOrphan());
+  assert(orphan_itr.first->first == absent_parent_name);
   versions_.erase(root_.second);
-  root_.first = orphan_itr.first->first;
+  swap(root_.first, absent_parent_name);
   root_.second = *orphan_itr.second;
   EraseOrphan(orphan_itr);
 }
 
 void StructuredDataVersions::ReplaceRootFromChildren() {
   // Create orphans and find replacement from current root's children.
-  auto child_itr(std::begin(root_.second->second->children));
-  auto current_root_name(root_.second->first);
-  auto replacement_root(std::make_pair(current_root_name, *child_itr));
-  replacement_root.second->second->parent = std::end(versions_);
-
-  while (++child_itr != std::end(root_.second->second->children)) {
-    (*child_itr)->second->parent = std::end(versions_);
-    InsertOrphan(current_root_name, *child_itr);
-  }
+  const auto& children(root_.second->second->children);
+  auto replacement_root(std::make_pair(root_.second->first, *std::begin(children)));
+  for (auto child_itr(std::next(std::begin(children))); child_itr != std::end(children);
+       ++child_itr)
+    InsertOrphan(replacement_root.first, *child_itr);
+
+  for (auto child : children)
+    child->second->parent = std::end(versions_);
 
   versions_.erase(root_.second);
-  root_ = replacement_root;
+  root_ = std::move(replacement_root);
 }
 
 StructuredDataVersions::SortedVersionsItrs::const_iterator StructuredDataVersions::FindBranchTip(
@@ -686,12 +710,23 @@ void StructuredDataVersions::DeleteBranchUntilFork(const VersionName& branch_tip
   auto branch_tip_itr(FindBranchTip(branch_tip));
   CheckBranchTipIterator(branch_tip, branch_tip_itr);
   auto itr(*branch_tip_itr);
+
+  // If this is going to erase the root, copy the name of the replacement root's parent now since
+  // that's all which can fail.
+  auto front_of_branch(itr);
+  while (front_of_branch->second->parent != std::end(versions_) &&
+         front_of_branch->second->parent->second->children.size() == 1U)
+    front_of_branch = front_of_branch->second->parent;
+  VersionName replacement_root_parent;
+  if (front_of_branch == root_.second && !orphans_.empty())
+    replacement_root_parent = FindLowestOrphan().first->first;
+
   tips_of_trees_.erase(branch_tip_itr);
 
   for (;;) {
     auto parent_itr = itr->second->parent;
     if (parent_itr == std::end(versions_))  // Found root or orphan.
-      return EraseFrontOfBranch(itr);
+      return EraseFrontOfBranch(itr, std::move(replacement_root_parent));
     auto parents_child_itr(std::find_if(
         std::begin(parent_itr->second->children), std::end(parent_itr->second->children),
         [itr](VersionsItr child_itr) { return itr->first == child_itr->first; }));
@@ -705,14 +740,15 @@ void StructuredDataVersions::DeleteBranchUntilFork(const VersionName& branch_tip
   }
 }
 
-void StructuredDataVersions::EraseFrontOfBranch(VersionsItr front_of_branch) {
+void StructuredDataVersions::EraseFrontOfBranch(VersionsItr front_of_branch,
+                                                VersionName replacement_root_parent) {
   if (root_.second == front_of_branch) {  // Front of branch is 'root_'.
     if (orphans_.empty()) {
       versions_.erase(front_of_branch);
       root_ = std::make_pair(VersionName(), std::end(versions_));
       assert(versions_.empty() && tips_of_trees_.empty());
     } else {
-      ReplaceRootFromOrphans();
+      ReplaceRootFromOrphans(std::move(replacement_root_parent));
     }
   } else {  // Front of branch is an orphan.
     EraseOrphan(FindOrphan(front_of_branch->first));
-- 
2.43.0


From 7bb910a8017eb7f6d127428b6b032740e50ab9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:58 +0000
Subject: [PATCH 14/45] fix: don't allocate memory for more elements than the
 serialised data can hold

A damaged size made parsing a few bytes ask for any amount of memory.
---
 .../common/serialisation/binary_archive.h     | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/maidsafe/common/serialisation/binary_archive.h b/include/maidsafe/common/serialisation/binary_archive.h
index b64ae40..c10ba73 100644
--- a/include/maidsafe/common/serialisation/binary_archive.h
+++ b/include/maidsafe/common/serialisation/binary_archive.h
@@ -67,6 +67,12 @@ class BinaryInputArchive : public cereal::InputArchive<BinaryInputArchive> {
                               " bytes from input stream! Read " + std::to_string(readSize));
   }
 
+  // Number of bytes which haven't been read yet.
+  std::size_t bytesLeft() const {
+    auto const left = itsStream.rdbuf()->in_avail();
+    return left > 0 ? static_cast<std::size_t>(left) : 0;
+  }
+
  private:
   InputVectorStream& itsStream;
 };
@@ -94,11 +100,20 @@ inline CEREAL_ARCHIVE_RESTRICT(BinaryInputArchive, BinaryOutputArchive)
   ar(t.value);
 }
 
-// Serializing SizeTags to binary
-template <class Archive, class T>
-inline CEREAL_ARCHIVE_RESTRICT(BinaryInputArchive, BinaryOutputArchive)
-    CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, cereal::SizeTag<T>& t) {
+// Saving SizeTags to binary
+template <class T>
+inline void CEREAL_SAVE_FUNCTION_NAME(BinaryOutputArchive& ar, cereal::SizeTag<T> const& t) {
+  ar(t.size);
+}
+
+// Loading SizeTags from binary.  The size of a container is used to allocate its elements before
+// these are read, so don't trust one which is larger than the number of bytes still to be read.
+template <class T>
+inline void CEREAL_LOAD_FUNCTION_NAME(BinaryInputArchive& ar, cereal::SizeTag<T>& t) {
   ar(t.size);
+  if (t.size > ar.bytesLeft())
+    throw cereal::Exception("Size of container exceeds the remaining " +
+                            std::to_string(ar.bytesLeft()) + " bytes of input stream!");
 }
 
 // Saving binary data
-- 
2.43.0


From 1704cb5ca9c955f9576a6df1c050a6f18df97d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:15 +0000
Subject: [PATCH 15/45] fix: refuse a serialised branch without versions

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 6c7ac5c..de70616 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -181,6 +181,8 @@ void StructuredDataVersions::BranchFromCereal(
 
   // Handle first version in branch
   auto& serialised_branch(serialised_versions.branches[serialised_branch_index]);
+  if (serialised_branch.names.empty())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
   auto forking_child_count(serialised_branch.names.front().forking_child_count);
   auto itr(HandleFirstVersionInBranchFromCereal(parent_itr, serialised_branch));
 
-- 
2.43.0


From 73366a47e692dfc4820b605472144383f2d91373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 16/45] fix: refuse a serialised flyweight which refers to no
 value

---
 .../maidsafe/common/serialisation/types/boost_flyweight.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/maidsafe/common/serialisation/types/boost_flyweight.h b/include/maidsafe/common/serialisation/types/boost_flyweight.h
index d611b71..284b345 100644
--- a/include/maidsafe/common/serialisation/types/boost_flyweight.h
+++ b/include/maidsafe/common/serialisation/types/boost_flyweight.h
@@ -19,8 +19,8 @@
 #ifndef MAIDSAFE_COMMON_SERIALISATION_TYPES_BOOST_FLYWEIGHT_H_
 #define MAIDSAFE_COMMON_SERIALISATION_TYPES_BOOST_FLYWEIGHT_H_
 
-#include <cassert>
 #include <memory>
+#include <string>
 
 #ifdef _MSC_VER
 #pragma warning(push)
@@ -69,7 +69,9 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& archive, boost::flyweight<Type, Params..
     ptr = std::static_pointer_cast<Helper>(archive.getSharedPointer(id));
   }
 
-  assert(ptr != nullptr);
+  if (!ptr)
+    throw Exception("Error while trying to deserialize a flyweight. No value has id " +
+                    std::to_string(id));
   flyweight = ptr->value;
 }
 
-- 
2.43.0


From 167529e622bdc238c0f75ca59f38c56402c5a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:52 +0000
Subject: [PATCH 17/45] fix: print each log message to the console as a whole

---
 src/maidsafe/common/log.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 4567ba9..ca7c5d1 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -97,7 +97,8 @@ WORD GetColourAttribute(Colour colour) {
   }
 }
 
-void ColouredPrint(Colour colour, const std::string& text) {
+// Prints 'text' in 'colour' followed by 'plain_text' without another thread's output in between.
+void ColouredPrint(Colour colour, const std::string& text, const std::string& plain_text = "") {
   CONSOLE_SCREEN_BUFFER_INFO console_info_before;
   const HANDLE kConsoleHandle(GetStdHandle(STD_OUTPUT_HANDLE));
   std::lock_guard<maidsafe::detail::Spinlock> lock(g_console_mutex());
@@ -112,6 +113,7 @@ void ColouredPrint(Colour colour, const std::string& text) {
   } else {
     printf("%s", text.c_str());
   }
+  printf("%s", plain_text.c_str());
   fflush(stdout);
 }
 
@@ -132,7 +134,8 @@ const char* GetAnsiColourCode(Colour colour) {
   }
 }
 
-void ColouredPrint(Colour colour, const std::string& text) {
+// Prints 'text' in 'colour' followed by 'plain_text' without another thread's output in between.
+void ColouredPrint(Colour colour, const std::string& text, const std::string& plain_text = "") {
   // On non-Windows platforms, we rely on the TERM variable.
   std::lock_guard<maidsafe::detail::Spinlock> lock(g_console_mutex());
   auto env_ptr = std::getenv("TERM");
@@ -147,6 +150,7 @@ void ColouredPrint(Colour colour, const std::string& text) {
   printf("%s", text.c_str());
   if (kUseColour)
     printf("\033[m");
+  printf("%s", plain_text.c_str());
   fflush(stdout);
 }
 
@@ -265,10 +269,9 @@ void SendToConsole(ColourMode colour_mode, Colour colour, int level,
   if (colour_mode == ColourMode::kFullLine) {
     ColouredPrint(colour, coloured_log_entry + plain_log_entry);
   } else if (colour_mode == ColourMode::kPartialLine) {
-    ColouredPrint(colour, coloured_log_entry);
-    printf("%s", plain_log_entry.c_str());
+    ColouredPrint(colour, coloured_log_entry, plain_log_entry);
   } else {
-    printf("%s%s", coloured_log_entry.c_str(), plain_log_entry.c_str());
+    ColouredPrint(Colour::kDefaultColour, coloured_log_entry, plain_log_entry);
   }
   static_cast<void>(level);
 #endif
-- 
2.43.0


From 39f1b8fa9d6885a749054d252552e3d95b58298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 18/45] fix: check a file's signature only if it has the key's
 size

---
 src/maidsafe/common/rsa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/rsa.cc b/src/maidsafe/common/rsa.cc
index a414648..edb5699 100644
--- a/src/maidsafe/common/rsa.cc
+++ b/src/maidsafe/common/rsa.cc
@@ -199,8 +199,10 @@ bool CheckFileSignature(const boost::filesystem::path& filename, const Signature
 
   CryptoPP::RSASS<CryptoPP::PSS, CryptoPP::SHA512>::Verifier verifier(public_key);
   try {
+    if (signature.size() != verifier.SignatureLength())
+      return false;
     auto verifier_filter = new CryptoPP::VerifierFilter(verifier);
-    verifier_filter->Put(signature.data(), verifier.SignatureLength());
+    verifier_filter->Put(signature.data(), signature.size());
     CryptoPP::FileSource file_source(filename.c_str(), true, verifier_filter);
     return verifier_filter->GetLastResult();
   } catch (const CryptoPP::Exception& e) {
-- 
2.43.0


From ae58f96fcb60cff11140814c28223c19c5a9ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 19/45] fix: read the random number generator's seed under its
 mutex

---
 src/maidsafe/common/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 1567558..f3f2e8e 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -167,7 +167,10 @@ std::mutex& random_number_generator_mutex() {
 
 #ifdef TESTING
 
-uint32_t random_number_generator_seed() { return rng_seed(); }
+uint32_t random_number_generator_seed() {
+  std::lock_guard<std::mutex> lock(random_number_generator_mutex());
+  return rng_seed();
+}
 
 void set_random_number_generator_seed(uint32_t seed) {
   std::lock_guard<std::mutex> lock(random_number_generator_mutex());
-- 
2.43.0


From cf02896e56f366e43c73d6f8eeb09f70170cd85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 20/45] fix: don't divide by zero if random data of any size is
 asked for

---
 src/maidsafe/common/utils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index f3f2e8e..10c6baa 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -260,13 +260,13 @@ uint32_t RandomUint32() { return RandomInt<uint32_t>(); }
 std::string RandomString(size_t size) { return GetRandomString<std::string>(size); }
 
 std::string RandomString(uint32_t min, uint32_t max) {
-  return GetRandomString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::string>(RandomUint32() % (uint64_t{max} - min + 1) + min);
 }
 
 std::vector<byte> RandomBytes(size_t size) { return GetRandomString<std::vector<byte>>(size); }
 
 std::vector<byte> RandomBytes(uint32_t min, uint32_t max) {
-  return GetRandomString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::vector<byte>>(RandomUint32() % (uint64_t{max} - min + 1) + min);
 }
 
 std::string RandomAlphaNumericString(size_t size) {
@@ -274,7 +274,7 @@ std::string RandomAlphaNumericString(size_t size) {
 }
 
 std::string RandomAlphaNumericString(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::string>(RandomUint32() % (uint64_t{max} - min + 1) + min);
 }
 
 std::vector<byte> RandomAlphaNumericBytes(size_t size) {
@@ -282,7 +282,7 @@ std::vector<byte> RandomAlphaNumericBytes(size_t size) {
 }
 
 std::vector<byte> RandomAlphaNumericBytes(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::vector<byte>>(RandomUint32() % (uint64_t{max} - min + 1) + min);
 }
 
 std::string WstringToString(const std::wstring& input) {
-- 
2.43.0


From a248c63143cb51368a303a35843dc81abe1a5b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:39 +0000
Subject: [PATCH 21/45] fix: leave no page locked and no memory allocated if
 locking runs out of memory

---
 .../authentication/detail/safe_allocators.h   | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/maidsafe/common/authentication/detail/safe_allocators.h b/include/maidsafe/common/authentication/detail/safe_allocators.h
index bd87808..1f41dee 100644
--- a/include/maidsafe/common/authentication/detail/safe_allocators.h
+++ b/include/maidsafe/common/authentication/detail/safe_allocators.h
@@ -72,14 +72,27 @@ class LockedPageManagerBase {
     const size_t base_address = reinterpret_cast<size_t>(p);
     const size_t start_page = base_address & page_mask_;
     const size_t end_page = (base_address + size - 1) & page_mask_;
-    for (size_t page = start_page; page <= end_page; page += page_size_) {
-      Histogram::iterator it = histogram_.find(page);
-      if (it == histogram_.end()) {  // Newly locked page
-        locker_.Lock(reinterpret_cast<void*>(page), page_size_);
-        histogram_.insert(std::make_pair(page, 1));
-      } else {  // Page was already locked; increase counter
-        it->second += 1;
+    size_t page = start_page;
+    try {
+      for (; page <= end_page; page += page_size_) {
+        Histogram::iterator it = histogram_.find(page);
+        if (it == histogram_.end()) {  // Newly locked page
+          histogram_.insert(std::make_pair(page, 1));
+          locker_.Lock(reinterpret_cast<void*>(page), page_size_);
+        } else {  // Page was already locked; increase counter
+          it->second += 1;
+        }
+      }
+    } catch (...) {
+      while (page != start_page) {  // Undo what was done for the preceding pages
+        page -= page_size_;
+        Histogram::iterator it = histogram_.find(page);
+        if ((it->second -= 1) == 0) {
+          locker_.Unlock(reinterpret_cast<void*>(page), page_size_);
+          histogram_.erase(it);
+        }
       }
+      throw;
     }
   }
 
@@ -194,8 +207,14 @@ struct safe_allocator : public std::allocator<T> {
   pointer allocate(size_type count, const void* hint = 0) {
     pointer ptr;
     ptr = std::allocator<value_type>::allocate(count, hint);
-    if (ptr)
-      LockedPageManager::instance.LockRange(ptr, sizeof(value_type) * count);
+    if (ptr) {
+      try {
+        LockedPageManager::instance.LockRange(ptr, sizeof(value_type) * count);
+      } catch (...) {
+        std::allocator<value_type>::deallocate(ptr, count);
+        throw;
+      }
+    }
     return ptr;
   }
 
-- 
2.43.0


From 0c8a35698506a1486beca87560086afc3b12f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:55 +0000
Subject: [PATCH 22/45] fix: don't leave a PIN's clear text in released memory

---
 .../common/authentication/detail/secure_string.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/maidsafe/common/authentication/detail/secure_string.h b/include/maidsafe/common/authentication/detail/secure_string.h
index 0283e19..bb68f73 100644
--- a/include/maidsafe/common/authentication/detail/secure_string.h
+++ b/include/maidsafe/common/authentication/detail/secure_string.h
@@ -19,9 +19,12 @@
 #ifndef MAIDSAFE_COMMON_AUTHENTICATION_DETAIL_SECURE_STRING_H_
 #define MAIDSAFE_COMMON_AUTHENTICATION_DETAIL_SECURE_STRING_H_
 
-#include <string>
-#include <map>
+#include <cerrno>
+#include <cstdlib>
 #include <functional>
+#include <map>
+#include <stdexcept>
+#include <string>
 
 #include "boost/regex.hpp"
 
@@ -257,7 +260,14 @@ typename SecureString::size_type SecureInputString<Predicate, Size, Tag>::Value(
   if (!IsFinalised())
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::symmetric_encryption_error));
   SafeString decrypted_string(secure_string_.string());
-  return std::stoul(std::string(decrypted_string.begin(), decrypted_string.end()));
+  char* end(nullptr);
+  errno = 0;
+  size_type value(std::strtoul(decrypted_string.c_str(), &end, 10));
+  if (end == decrypted_string.c_str())
+    throw std::invalid_argument("stoul");
+  if (errno == ERANGE)
+    throw std::out_of_range("stoul");
+  return value;
 }
 
 template <typename Predicate, SecureString::size_type Size, typename Tag>
-- 
2.43.0


From e576eb348ea3f6bfd8888efb50ed7f9d44160f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:50 +0000
Subject: [PATCH 23/45] fix: change nothing if editing or finalising a secure
 string fails

---
 .../authentication/detail/secure_string.h     | 66 +++++++++++--------
 .../authentication/detail/secure_string.cc    |  4 +-
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/include/maidsafe/common/authentication/detail/secure_string.h b/include/maidsafe/common/authentication/detail/secure_string.h
index bb68f73..e10acd3 100644
--- a/include/maidsafe/common/authentication/detail/secure_string.h
+++ b/include/maidsafe/common/authentication/detail/secure_string.h
@@ -123,7 +123,12 @@ class SecureInputString {
   SafeString string() const;
 
  private:
-  void Reset();
+  typedef std::map<size_type, SafeString> EncryptedChars;
+
+  // The encrypted characters, also of a finalised string.
+  EncryptedChars Characters() const;
+  // Replaces the characters; the string isn't finalised any more.
+  void Reset(EncryptedChars& encrypted_chars);
   template <typename StringType>
   SafeString Encrypt(const StringType& decrypted_chars) const;
   SafeString Encrypt(const char& decrypted_char) const;
@@ -131,7 +136,7 @@ class SecureInputString {
   bool ValidateEncryptedChars(const boost::regex& regex) const;
   bool ValidateSecureString(const boost::regex& regex) const;
 
-  std::map<size_type, SafeString> encrypted_chars_;
+  EncryptedChars encrypted_chars_;
   SafeString phrase_;
   SecureString secure_string_;
   bool finalised_;
@@ -164,48 +169,44 @@ template <typename Predicate, SecureString::size_type Size, typename Tag>
 template <typename StringType>
 void SecureInputString<Predicate, Size, Tag>::Insert(size_type position,
                                                      const StringType& decrypted_chars) {
-  if (IsFinalised())
-    Reset();
+  EncryptedChars all_chars(Characters());
   SafeString encrypted_chars(Encrypt(decrypted_chars));
-  auto it(encrypted_chars_.find(position));
-  if (it == encrypted_chars_.end()) {
-    encrypted_chars_.insert(std::make_pair(position, encrypted_chars));
-    return;
-  }
-  while (it != encrypted_chars_.end()) {
+  auto it(all_chars.find(position));
+  while (it != all_chars.end()) {
     auto old_encrypted_chars = it->second;
-    it = encrypted_chars_.erase(it);
-    encrypted_chars_.insert(it, std::make_pair(position, encrypted_chars));
+    it = all_chars.erase(it);
+    all_chars.insert(it, std::make_pair(position, encrypted_chars));
     encrypted_chars = old_encrypted_chars;
     position += 1;
   }
-  encrypted_chars_.insert(std::make_pair(position, encrypted_chars));
+  all_chars.insert(std::make_pair(position, encrypted_chars));
+  Reset(all_chars);
 }
 
 template <typename Predicate, SecureString::size_type Size, typename Tag>
 void SecureInputString<Predicate, Size, Tag>::Remove(size_type position, size_type length) {
-  if (IsFinalised())
-    Reset();
-  auto it(encrypted_chars_.find(position));
-  if (it == encrypted_chars_.end() || length == 0)
+  EncryptedChars all_chars(Characters());
+  auto it(all_chars.find(position));
+  if (it == all_chars.end() || length == 0)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
   while (length != 0) {
-    it = encrypted_chars_.erase(it);
-    if ((length -= 1 != 0) && it == encrypted_chars_.end())
+    it = all_chars.erase(it);
+    if ((length -= 1 != 0) && it == all_chars.end())
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
   }
-  while (it != encrypted_chars_.end()) {
+  while (it != all_chars.end()) {
     auto encrypted_char = it->second;
-    it = encrypted_chars_.erase(it);
-    encrypted_chars_.insert(it, std::make_pair(position, encrypted_char));
+    it = all_chars.erase(it);
+    all_chars.insert(it, std::make_pair(position, encrypted_char));
     position += 1;
   }
+  Reset(all_chars);
 }
 
 template <typename Predicate, SecureString::size_type Size, typename Tag>
 void SecureInputString<Predicate, Size, Tag>::Clear() {
-  encrypted_chars_.clear();
   secure_string_.Clear();
+  encrypted_chars_.clear();
   finalised_ = false;
 }
 
@@ -217,6 +218,7 @@ void SecureInputString<Predicate, Size, Tag>::Finalise() {
     LOG(kError) << "SecureInputString::Finalise() outside_of_bounds";
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::outside_of_bounds));
   }
+  secure_string_.Clear();  // An earlier attempt may have failed halfway
   uint32_t index(0);
   for (auto& encrypted_char : encrypted_chars_) {
     if (encrypted_char.first != index) {
@@ -278,15 +280,25 @@ SafeString SecureInputString<Predicate, Size, Tag>::string() const {
 }
 
 template <typename Predicate, SecureString::size_type Size, typename Tag>
-void SecureInputString<Predicate, Size, Tag>::Reset() {
+typename SecureInputString<Predicate, Size, Tag>::EncryptedChars
+    SecureInputString<Predicate, Size, Tag>::Characters() const {
+  if (!IsFinalised())
+    return encrypted_chars_;
   SafeString decrypted_string(string());
-  encrypted_chars_.clear();
+  EncryptedChars encrypted_chars;
   size_type decrypted_string_size(decrypted_string.size());
   for (size_type i = 0; i != decrypted_string_size; ++i) {
     SafeString encrypted_char(Encrypt(decrypted_string[i]));
-    encrypted_chars_.insert(std::make_pair(i, encrypted_char));
+    encrypted_chars.insert(std::make_pair(i, encrypted_char));
   }
-  secure_string_.Clear();
+  return encrypted_chars;
+}
+
+template <typename Predicate, SecureString::size_type Size, typename Tag>
+void SecureInputString<Predicate, Size, Tag>::Reset(EncryptedChars& encrypted_chars) {
+  if (IsFinalised())
+    secure_string_.Clear();
+  encrypted_chars_.swap(encrypted_chars);
   finalised_ = false;
 }
 
diff --git a/src/maidsafe/common/authentication/detail/secure_string.cc b/src/maidsafe/common/authentication/detail/secure_string.cc
index 51692f5..b19dc9e 100644
--- a/src/maidsafe/common/authentication/detail/secure_string.cc
+++ b/src/maidsafe/common/authentication/detail/secure_string.cc
@@ -36,8 +36,10 @@ void SecureString::Append(char decrypted_char) { encryptor_->Put(decrypted_char)
 void SecureString::Finalise() { encryptor_->MessageEnd(); }
 
 void SecureString::Clear() {
+  std::unique_ptr<Encryptor> encryptor(
+      new Encryptor(phrase_.data(), new Encoder(new Sink(string_))));
   string_.clear();
-  encryptor_.reset(new Encryptor(phrase_.data(), new Encoder(new Sink(string_))));
+  encryptor_ = std::move(encryptor);
 }
 
 SafeString SecureString::string() const {
-- 
2.43.0


From 5438b9d7f8a80a7e68c0d1b2aa712350294fe777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:26 +0000
Subject: [PATCH 24/45] fix: refuse bytes which follow compressed text instead
 of passing them on

---
 src/maidsafe/common/crypto.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index 62475c2..05c9058 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -53,6 +53,25 @@ void ValidateDispersalArgs(int32_t threshold, int32_t number_of_shares) {
   }
 }
 
+// CryptoPP::Gunzip passes on whatever follows the compressed data; this one refuses it.
+class StrictGunzip : public CryptoPP::Gunzip {
+ public:
+  explicit StrictGunzip(std::string& result)
+      : CryptoPP::Gunzip(new CryptoPP::StringSink(result)), result_(result), end_(0) {}
+  void CheckEnd() const {
+    if (result_.size() != end_)
+      throw LengthErr();
+  }
+
+ private:
+  virtual void ProcessPoststreamTail() {
+    CryptoPP::Gunzip::ProcessPoststreamTail();
+    end_ = result_.size();
+  }
+  const std::string& result_;
+  size_t end_;
+};
+
 }  // unnamed namespace
 
 CryptoPP::RandomNumberGenerator& random_number_generator() {
@@ -131,8 +150,9 @@ UncompressedText Uncompress(const CompressedText& input) {
   }
   std::string result;
   try {
-    CryptoPP::ArraySource(input->data(), input->size(), true,
-                          new CryptoPP::Gunzip(new CryptoPP::StringSink(result)));
+    StrictGunzip gunzip(result);
+    CryptoPP::ArraySource(input->data(), input->size(), true, new CryptoPP::Redirector(gunzip));
+    gunzip.CheckEnd();
   } catch (const CryptoPP::Exception& e) {
     LOG(kError) << "Failed uncompressing: " << e.what();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::uncompression_error));
-- 
2.43.0


From e037e2a26f0359239b185bea403fc8d2edc71128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:10 +0000
Subject: [PATCH 25/45] fix: report missing items and a lock left by a dead
 process when reading shared memory

---
 src/maidsafe/common/ipc.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/maidsafe/common/ipc.cc b/src/maidsafe/common/ipc.cc
index 98a2922..9a951a2 100644
--- a/src/maidsafe/common/ipc.cc
+++ b/src/maidsafe/common/ipc.cc
@@ -18,7 +18,11 @@
 
 #include "maidsafe/common/ipc.h"
 
+#include <chrono>
+#include <thread>
+
 #include "maidsafe/common/encode.h"
+#include "maidsafe/common/error.h"
 #include "maidsafe/common/utils.h"
 
 namespace maidsafe {
@@ -48,12 +52,20 @@ std::vector<std::string> ReadSharedMemory(std::string name_in, int number) {
   std::string name(hex::Encode(name_in));
   // Open managed segment
   boost::interprocess::managed_shared_memory segment(boost::interprocess::open_only, name.c_str());
-  CharAllocator charallocator(segment.get_segment_manager());
-  bi_string str(charallocator);
   std::vector<std::string> ret_vec;
-  for (int i(0); i < number; ++i) {
-    auto res = segment.find<bi_string>(std::to_string(i).c_str());
-    ret_vec.push_back(hex::DecodeToString(std::string(res.first->c_str(), res.first->size())));
+  auto read([&] {
+    for (int i(0); i < number; ++i) {
+      auto res = segment.find<bi_string>(std::to_string(i).c_str());
+      if (!res.first)
+        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
+      ret_vec.push_back(hex::DecodeToString(std::string(res.first->c_str(), res.first->size())));
+    }
+  });
+  // A process which died while it held the segment's lock never releases it, so don't wait forever.
+  for (int attempt(0); !segment.try_atomic_func(read); ++attempt) {
+    if (attempt == 100)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::unable_to_handle_request));
+    std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
   return ret_vec;
 }
-- 
2.43.0


From ccc37bfb4d2449e77821b78dcb8d1147b3256715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 26/45] fix: roll back a database transaction which was not
 committed

---
 src/maidsafe/common/sqlite3_wrapper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 1e34bfd..532510a 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -61,7 +61,8 @@ void Database::CheckPoint() {
 }
 
 
-Transaction::Transaction(Database& database_in) : kAttempts(200), database(database_in) {
+Transaction::Transaction(Database& database_in)
+    : kAttempts(200), committed(false), database(database_in) {
   std::string query("BEGIN IMMEDIATE TRANSACTION");  // immediate or exclusive transaction
   for (int i(0); i != kAttempts; ++i) {
     try {
-- 
2.43.0


From 127a650e01ec5b455798f7846e745ee2c516bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 27/45] fix: re-attempt rolling back a database transaction if
 it fails

---
 src/maidsafe/common/sqlite3_wrapper.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 532510a..879af9f 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -85,10 +85,14 @@ Transaction::Transaction(Database& database_in)
 Transaction::~Transaction() {
   if (committed)
     return;
-  try {
-    Execute("ROLLBACK TRANSACTION");
-  } catch (const std::exception& error) {
-    LOG(kError) << "Error on ROLLBACK TRANSACTION: " << error.what();
+  // Until the transaction has ended, the database stays locked.
+  for (int i(0); i != kAttempts && !sqlite3_get_autocommit(database.database); ++i) {
+    try {
+      Execute("ROLLBACK TRANSACTION");
+    } catch (const std::exception& error) {
+      LOG(kError) << "Error on ROLLBACK TRANSACTION in attempt " << i << ": " << error.what();
+      std::this_thread::sleep_for(std::chrono::milliseconds(10));
+    }
   }
 }
 
-- 
2.43.0


From 91cc06a2e9ac8789103c603e517686ef8e69c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 28/45] fix: release the database handle and error messages if
 opening or a query fails

---
 src/maidsafe/common/sqlite3_wrapper.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 879af9f..8c6209d 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -37,13 +37,13 @@ Database::Database(const boost::filesystem::path& filename, Mode mode)
   auto flags = static_cast<int>(mode);
   if (sqlite3_open_v2(filename.string().c_str(), &database, flags, NULL) != SQLITE_OK) {
     LOG(kError) << "Could not open DB at: " << filename << ".  Error: " << sqlite3_errmsg(database);
+    sqlite3_close(database);
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
   }
   assert(sqlite3_threadsafe());
-  char* error_message = 0;
-  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, &error_message);
+  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, NULL);
   sqlite3_busy_timeout(database, 250);
   insertlimit = sqlite3_limit(database, SQLITE_LIMIT_VARIABLE_NUMBER, -1);
 }
@@ -125,6 +125,7 @@ void Transaction::Execute(const std::string& query) {
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_busy));
     } else if (result == SQLITE_NOTADB) {
       LOG(kError) << "DB not present";
+      sqlite3_free(error_message);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
     } else {
       LOG(kError) << "SQL error: " << error_message << ".  Return value: " << result
-- 
2.43.0


From ef3a322ac7e30f24c82f14514260441d6d092f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:42 +0000
Subject: [PATCH 29/45] fix: refuse stopping a service from its own thread
 before changing or locking anything

---
 include/maidsafe/common/asio_service.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index e99028d..dde1e65 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -83,14 +83,15 @@ IoService<IoServiceType>::IoService(size_t thread_count)
 
 template <typename IoServiceType>
 void IoService<IoServiceType>::Stop() {
+  // Another thread which stops the service holds the mutex while it waits for this one to finish,
+  // so this must not depend on the mutex.
+  if (service_.get_executor().running_in_this_thread())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
+
   thread_count_ = 0U;
   std::lock_guard<std::mutex> lock{mutex_};
   if (!work_)
     return;
-  for (const auto& asio_thread : threads_) {
-    if (std::this_thread::get_id() == asio_thread.get_id())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
-  }
 
   work_.reset();
 
-- 
2.43.0


From 6c0920999ed76c7dfb3d32958aff3e4f376ab0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:42 +0000
Subject: [PATCH 30/45] fix: stop a service's threads if one of them can't be
 started

---
 include/maidsafe/common/asio_service.h | 31 ++++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index dde1e65..cb5ae47 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -67,18 +67,25 @@ IoService<IoServiceType>::IoService(size_t thread_count)
       mutex_() {
   if (thread_count == 0)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  for (size_t i(0); i != thread_count; ++i)
-    threads_.emplace_back([&] {
-      try {
-        service_.run();
-      } catch (...) {
-        LOG(kError) << boost::current_exception_diagnostic_information();
-        // Rethrowing here will cause the application to terminate - so flush the log message first.
-        log::Logging::Instance().Flush();
-        assert(0);
-        throw;
-      }
-    });
+  try {
+    for (size_t i(0); i != thread_count; ++i)
+      threads_.emplace_back([&] {
+        try {
+          service_.run();
+        } catch (...) {
+          LOG(kError) << boost::current_exception_diagnostic_information();
+          // Rethrowing here will cause the application to terminate - so flush the log message
+          // first.
+          log::Logging::Instance().Flush();
+          assert(0);
+          throw;
+        }
+      });
+  } catch (...) {
+    // The destructor won't run, so don't leave behind the threads which have started.
+    Stop();
+    throw;
+  }
 }
 
 template <typename IoServiceType>
-- 
2.43.0


From 09b4b2ec79155ad142acf54d572f636393168d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:24 +0000
Subject: [PATCH 31/45] fix: handle a received message size on the connection's
 strand

---
 src/maidsafe/common/tcp/connection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 34f195e..b863dcd 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -110,7 +110,7 @@ void Connection::DoClose() {
 void Connection::ReadSize() {
   ConnectionPtr this_ptr{shared_from_this()};
   asio::async_read(socket_, asio::buffer(receiving_message_.size_buffer),
-                   [this_ptr](const std::error_code& ec, size_t bytes_transferred) {
+                   strand_.wrap([this_ptr](const std::error_code& ec, size_t bytes_transferred) {
     if (ec) {
       LOG(kInfo) << ec.message();
       return this_ptr->DoClose();
@@ -134,7 +134,7 @@ void Connection::ReadSize() {
 
     this_ptr->receiving_message_.data_buffer.resize(data_size);
     this_ptr->ReadData();
-  });
+  }));
 }
 
 void Connection::ReadData() {
-- 
2.43.0


From 1ccb940c6747739bf9b40175daa44855e22e2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:24 +0000
Subject: [PATCH 32/45] fix: hand over no message after a connection has
 reported closing

---
 src/maidsafe/common/tcp/connection.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index b863dcd..f436be5 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -151,8 +151,11 @@ void Connection::ReadData() {
                      // Dispatch the message outside the strand.
                      Message data{std::begin(this_ptr->receiving_message_.data_buffer),
                                       std::end(this_ptr->receiving_message_.data_buffer)};
-                     asio::post(this_ptr->strand_,
-                                [=] { this_ptr->on_message_received_(std::move(data)); });
+                     asio::post(this_ptr->strand_, [=] {
+                       // The connection may have been closed in the meantime.
+                       if (this_ptr->socket_.is_open())
+                         this_ptr->on_message_received_(std::move(data));
+                     });
                      asio::dispatch(this_ptr->strand_, [this_ptr] { this_ptr->ReadSize(); });
                    }));
 }
-- 
2.43.0


From a4a736bde95b539729f98bb49ba20857b3c80312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:24 +0000
Subject: [PATCH 33/45] fix: stop listening on the listener's strand and keep
 the listener until then

---
 src/maidsafe/common/tcp/listener.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 4468c5f..dbdbae5 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -131,7 +131,8 @@ void Listener::HandleAccept(ConnectionPtr accepted_connection, const std::error_
 }
 
 void Listener::StopListening() {
-  asio::post(strand_.context().get_executor(), [this] { DoStopListening(); });
+  ListenerPtr this_ptr{shared_from_this()};
+  asio::post(strand_, [this_ptr] { this_ptr->DoStopListening(); });
 }
 
 void Listener::DoStopListening() {
-- 
2.43.0


From 2ff872bfcc0dfb43f35e386b38dbe44192e1a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:24 +0000
Subject: [PATCH 34/45] fix: use IPv4 on hosts without IPv6

---
 src/maidsafe/common/tcp/connection.cc | 3 +--
 src/maidsafe/common/tcp/listener.cc   | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index f436be5..cee65ec 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -61,8 +61,7 @@ Connection::Connection(asio::io_service::strand& strand, Port remote_port)
   std::error_code connect_error;
   // Try IPv6 first.
   socket_.connect(ip::tcp::endpoint{ip::address_v6::loopback(), remote_port}, connect_error);
-  if (connect_error &&
-      connect_error == std::make_error_code(std::errc::address_family_not_supported)) {
+  if (connect_error && connect_error == asio::error::address_family_not_supported) {
     // Try IPv4 now.
     socket_.connect(ip::tcp::endpoint{ip::address_v4::loopback(), remote_port}, connect_error);
   }
diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index dbdbae5..ab5f0a7 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -21,6 +21,7 @@
 #include <condition_variable>
 #include <limits>
 
+#include "asio/error.hpp"
 #include "asio/post.hpp"
 #include "asio/wrap.hpp"
 
@@ -78,7 +79,7 @@ void Listener::DoStartListening(Port port) {
   try {
     acceptor_.open(endpoint.protocol());
   } catch (const std::system_error& error) {
-    if (error.code() == std::make_error_code(std::errc::address_family_not_supported)) {
+    if (error.code() == asio::error::address_family_not_supported) {
       // Try IPv4 now.
       endpoint = asio::ip::tcp::endpoint{asio::ip::address_v4::loopback(), port};
       acceptor_.open(endpoint.protocol());
-- 
2.43.0


From 694bdf3e50af63ca274b75efa0cf2d93b607b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:34 +0000
Subject: [PATCH 35/45] fix: look up the home directory without a data race,
 and report users who have none

---
 .../common/application_support_directories.h  | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/maidsafe/common/application_support_directories.h b/include/maidsafe/common/application_support_directories.h
index cc6af9e..c7a2e88 100644
--- a/include/maidsafe/common/application_support_directories.h
+++ b/include/maidsafe/common/application_support_directories.h
@@ -21,10 +21,13 @@
 
 #ifndef MAIDSAFE_WIN32
 #include <pwd.h>
+#include <unistd.h>
 #endif
 
+#include <cerrno>
 #include <cstdlib>
 #include <string>
+#include <vector>
 
 #include "boost/filesystem/path.hpp"
 #include "boost/filesystem/operations.hpp"
@@ -55,12 +58,20 @@ inline boost::filesystem::path GetHomeDir() {
   if ((!env_home2.empty()) && (!env_home_drive.empty()))
     return boost::filesystem::path(env_home_drive + env_home2);
 #elif defined(MAIDSAFE_APPLE) || defined(MAIDSAFE_LINUX)
-  struct passwd* p = getpwuid(getuid());  // NOLINT (dirvine)
-  std::string home(p->pw_dir);
-  if (!home.empty())
-    return boost::filesystem::path(home);
-  std::string env_home(std::getenv("HOME"));
-  if (!env_home.empty())
+  // There may be no entry for the user, and 'getpwuid' isn't thread-safe.
+  struct passwd entry;
+  struct passwd* p(nullptr);
+  std::vector<char> buffer(1024);
+  int error(0);
+  while ((error = getpwuid_r(getuid(), &entry, buffer.data(), buffer.size(), &p)) == EINTR ||
+         (error == ERANGE && buffer.size() < 1024 * 1024)) {
+    if (error == ERANGE)
+      buffer.resize(buffer.size() * 2);
+  }
+  if (p && p->pw_dir && *p->pw_dir)
+    return boost::filesystem::path(p->pw_dir);
+  const char* env_home(std::getenv("HOME"));
+  if (env_home && *env_home)
     return boost::filesystem::path(env_home);
 #endif
   LOG(kError) << "Cannot deduce home directory path";
-- 
2.43.0


From 665088a26b64d9555ab2f09ccddc091845cc11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:34 +0000
Subject: [PATCH 36/45] fix: don't truncate an existing file when checking that
 it can be written

---
 src/maidsafe/common/utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 10c6baa..69ee47f 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -381,7 +381,8 @@ fs::path GetPathFromProgramOptions(const std::string& option_name,
     } else {  // Create new file
       if (option_path.has_filename()) {
         try {
-          std::ofstream(option_path.c_str());
+          // It may exist all the same, so don't truncate it.
+          std::ofstream(option_path.c_str(), std::ios_base::app);
         } catch (const std::exception& e) {
           LOG(kError) << "Exception while creating new file: " << boost::diagnostic_information(e);
           return fs::path();
-- 
2.43.0


From bbf9b81c199a138a93d2bdf8dc3322a18c8a3f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:53 +0000
Subject: [PATCH 37/45] fix: log the right fraction of a second if it has
 leading zeros

---
 src/maidsafe/common/log.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index ca7c5d1..f15bd79 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -427,8 +427,11 @@ std::string GetTime() {
   std::time_t now_t(std::chrono::system_clock::to_time_t(
       std::chrono::system_clock::time_point(seconds_since_epoch)));
 
-  return Strftime<time_type>(&now_t) +
-         std::to_string((now.time_since_epoch() - seconds_since_epoch).count());
+  auto fraction(std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(
+      now.time_since_epoch() - seconds_since_epoch).count()));
+  if (fraction.size() < 9)
+    fraction.insert(0, 9 - fraction.size(), '0');
+  return Strftime<time_type>(&now_t) + fraction;
 }
 
 }  // unnamed namespace
-- 
2.43.0


From 35e619bd1ceb41524b29bab1154e5db4ce0e7801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:53 +0000
Subject: [PATCH 38/45] fix: let other threads use the visualiser log once it's
 initialised, not before

---
 src/maidsafe/common/log.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index f15bd79..bf6d8a9 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -600,10 +600,8 @@ std::vector<std::vector<wchar_t>> Logging::Initialise(int argc, wchar_t** argv)
 void Logging::InitialiseVlog(const std::string& prefix, const std::string& session_id,
                              const std::string& server_name, uint16_t server_port,
                              const std::string& server_dir) {
-  if (visualiser_.initialised)
-    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::already_initialised));
+  bool initialised_here{false};
   std::call_once(visualiser_.initialised_once_flag, [&] {
-    visualiser_.initialised = true;
     visualiser_.prefix = prefix;
     visualiser_.session_id = session_id;
     if (visualiser_.session_id.empty())
@@ -618,7 +616,12 @@ void Logging::InitialiseVlog(const std::string& prefix, const std::string& sessi
       LOG(kError) << "Failed to connect to VLOG server: "
                   << visualiser_.server_stream.error().message();
     }
+    initialised_here = true;
+    // From now on, other threads may use all of the above.
+    visualiser_.initialised = true;
   });
+  if (!initialised_here)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::already_initialised));
 }
 
 bool Logging::IsHelpOption(const po::options_description& log_config) const {
@@ -652,7 +655,11 @@ void Logging::HandleFilterOptions() {
 
 fs::path Logging::GetLogfileName(const std::string& project) const {
   char mbstr[100];
-  std::strftime(mbstr, 100, "%Y-%m-%d_%H-%M-%S_", std::gmtime(&start_time_));  // NOLINT (Fraser)
+  {
+    // 'gmtime' isn't thread-safe.
+    std::lock_guard<maidsafe::detail::Spinlock> lock(g_console_mutex());
+    std::strftime(mbstr, 100, "%Y-%m-%d_%H-%M-%S_", std::gmtime(&start_time_));  // NOLINT (Fraser)
+  }
   fs::path name(log_folder_ / mbstr);
   name += project + ".log";
   return name;
-- 
2.43.0


From bfbc92a7f08c9ca56b6c2828cd41ee2997c96769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:53 +0000
Subject: [PATCH 39/45] fix: don't wait for the visualiser's server for ever

---
 src/maidsafe/common/log.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index bf6d8a9..4c48991 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -70,6 +70,9 @@ void UseUnreferenced() {
 
 std::once_flag logging_initialised;
 
+// The longest time for connecting to the VLOG server, sending a message and getting the response.
+const std::chrono::seconds kVlogServerTimeout(10);
+
 // This fellow needs to work during static data deinit
 maidsafe::detail::Spinlock& g_console_mutex() {
   static maidsafe::detail::Spinlock mutex;
@@ -610,6 +613,7 @@ void Logging::InitialiseVlog(const std::string& prefix, const std::string& sessi
     visualiser_.server_name = server_name;
     visualiser_.server_port = server_port;
     visualiser_.server_dir = server_dir;
+    visualiser_.server_stream.expires_from_now(kVlogServerTimeout);
     visualiser_.server_stream.connect(server_name,
                                       std::to_string(static_cast<unsigned>(server_port)));
     if (!visualiser_.server_stream) {
@@ -706,6 +710,8 @@ void Logging::WriteToVisualiserLogfile(const std::string& message) {
 }
 
 void Logging::WriteToVisualiserServer(const std::string& message) {
+  // A server which doesn't respond must not stop all logging for good.
+  visualiser_.server_stream.expires_from_now(kVlogServerTimeout);
   if (!visualiser_.server_stream) {
     visualiser_.server_stream.clear();
     visualiser_.server_stream.connect(
-- 
2.43.0


From 9a9f1ceb4e9683a393cc370a9cb5a8b63b5c1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:53 +0000
Subject: [PATCH 40/45] fix: read the visualiser's server's whole response, and
 reconnect if that's not possible

What was left of a response was taken for the next one, and a message of which a part could
not be sent was sent again within itself.
---
 src/maidsafe/common/log.cc | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 4c48991..eeb797f 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -723,7 +723,9 @@ void Logging::WriteToVisualiserServer(const std::string& message) {
     }
   }
 
-  visualiser_.server_stream << "POST " << visualiser_.server_dir << " HTTP/1.1\r\n"
+  // With unit buffering, the rest of a partly sent message would be sent again after an error.
+  visualiser_.server_stream << std::nounitbuf
+                            << "POST " << visualiser_.server_dir << " HTTP/1.1\r\n"
                             << "Host: " << visualiser_.server_name << ':' << visualiser_.server_port
                             << "\r\n"
                             << "Content-Type: application/json\r\n"
@@ -737,19 +739,43 @@ void Logging::WriteToVisualiserServer(const std::string& message) {
     }
     return response;
   });
+  // The whole response has to be read, or what's left is taken for the next one.  If that's not
+  // possible, the next message is sent over a new connection.
+  bool read_all{false};
   try {
     read_response(' ');  // "HTTP/1.1"
     unsigned http_code{static_cast<unsigned>(std::stoul(read_response(' ')))};
+    std::string http_code_message{read_response('\r')};
     if (http_code != 200) {
-      std::string http_code_message{read_response('\r')};
       LOG(kWarning) << "VLOG server responded with \"" << http_code << ": " << http_code_message
                     << "\" to request \"" << message << "\"";
     }
+    read_response('\n');
+    std::string header;
+    bool size_known{false};
+    std::size_t body_size{0};
+    const std::string kContentLength{"content-length:"};
+    while ((header = read_response('\n')) != "\r") {
+      boost::to_lower(header);
+      if (header.compare(0, kContentLength.size(), kContentLength) == 0) {
+        body_size = std::stoul(header.substr(kContentLength.size()));
+        size_known = true;
+      }
+    }
+    std::array<char, 1000> discarded;
+    while (size_known && body_size != 0 && visualiser_.server_stream) {
+      visualiser_.server_stream.read(&discarded[0], std::min(body_size, discarded.size()));
+      body_size -= static_cast<std::size_t>(visualiser_.server_stream.gcount());
+    }
+    read_all = size_known && body_size == 0;
   } catch (const std::exception& e) {
     LOG(kWarning) << e.what();
   }
-  std::array<char, 100> discarded;
-  while (visualiser_.server_stream.readsome(&discarded[0], discarded.size())) {
+  if (!read_all) {
+    // Closing the socket (not the stream) discards what's left of a partly sent message.
+    asio::error_code ignored;
+    visualiser_.server_stream.socket().close(ignored);
+    visualiser_.server_stream.setstate(std::ios_base::failbit);
   }
 }
 
-- 
2.43.0


From 43eafe17539e860da5472875965cce193a1bfa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:21 +0000
Subject: [PATCH 41/45] fix: remove the padding of dispersed data whatever the
 data ends with

---
 src/maidsafe/common/crypto.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index 05c9058..734e70c 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -274,7 +274,9 @@ PlainText InfoRetrieve(const DataParts& parts) {
   std::vector<byte> data(data_size);
 
   auto array_sink = new CryptoPP::ArraySink(data.data(), data_size);
-  CryptoPP::InformationRecovery recovery(static_cast<int>(num_to_check), array_sink);
+  // Crypto++ doesn't remove the padding if one of its internal blocks ends just before it with a byte
+  // like the padding's first one.
+  CryptoPP::InformationRecovery recovery(static_cast<int>(num_to_check), array_sink, false);
   CryptoPP::vector_member_ptrs<CryptoPP::ArraySource> array_sources(num_to_check);
   CryptoPP::SecByteBlock channel(4);
 
@@ -290,6 +292,10 @@ PlainText InfoRetrieve(const DataParts& parts) {
     array_sources[i]->PumpAll();
 
   data.resize(array_sink->TotalPutLength());
+  // The padding is a 1, followed by zeros.
+  auto padding(std::find_if(data.rbegin(), data.rend(), [](byte b) { return b != 0; }));
+  if (padding != data.rend() && *padding == 1)
+    data.erase(padding.base() - 1, data.end());
   return PlainText(std::move(data));
 }
 
-- 
2.43.0


From 2b6c48edd99d0e1812096d77bb473ba08fbff2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:21 +0000
Subject: [PATCH 42/45] fix: draw random ports in several threads without a
 data race

---
 src/maidsafe/common/test.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maidsafe/common/test.cc b/src/maidsafe/common/test.cc
index aa05b52..50e63ee 100644
--- a/src/maidsafe/common/test.cc
+++ b/src/maidsafe/common/test.cc
@@ -24,6 +24,7 @@
 #include <cstdint>
 #include <future>
 #include <iostream>
+#include <mutex>
 #include <vector>
 
 #include "boost/filesystem/operations.hpp"
@@ -150,6 +151,8 @@ void RunInParallel(int thread_count, std::function<void()> functor) {
 
 uint16_t GetRandomPort() {
   static std::set<uint16_t> already_used_ports;
+  static std::mutex mutex;
+  std::lock_guard<std::mutex> lock(mutex);
   if (already_used_ports.size() == 10000) {
     LOG(kInfo) << "Clearing already-used ports list.";
     already_used_ports.clear();
-- 
2.43.0


From ad96e5ae0667cab29283dff1229262cd1827ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:21 +0000
Subject: [PATCH 43/45] fix: bootstrap tool: end when the input ends, keep the
 endpoints if loading fails, and don't report a failed load as done

---
 src/maidsafe/common/tools/bootstrap_file_tool.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index ba9fa47..c826c12 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -46,7 +46,8 @@ bool ConfirmChoice(bool exiting) {
                 << "? (enter \"y\" to confirm) >>";
   TLOG(kDefaultColour) << " ";
   std::string input;
-  std::getline(std::cin, input);
+  if (!std::getline(std::cin, input))
+    return exiting;
   return input == "y" || input == "Y";
 }
 
@@ -66,6 +67,8 @@ class Choice : private MessagePolicy, private InputPolicy, private HandlePolicy
       std::string error_info;
       if (InputPolicy::GetInput(input, error_info))
         break;
+      if (!std::cin)
+        return;
       MessagePolicy::PrintErrorMessage(error_info);
     }
     HandlePolicy::HandleInput(input);
@@ -301,17 +304,18 @@ class HandlePolicyLoadBootstrapFile {
         TLOG(kRed) << '\n' << bootstrap_file << " doesn't contain any endpoints.\n\n";
         return;
       }
-      g_bootstrap_endpoints.clear();
+      std::vector<boost::asio::ip::udp::endpoint> loaded_endpoints;
       for (std::size_t i(0); i != parsed_endpoints.bootstrap_contacts_.size(); ++i) {
-        g_bootstrap_endpoints.push_back(boost::asio::ip::udp::endpoint(
+        loaded_endpoints.push_back(boost::asio::ip::udp::endpoint(
             boost::asio::ip::address_v4::from_string(parsed_endpoints.bootstrap_contacts_[i].ip_),
             static_cast<uint16_t>(parsed_endpoints.bootstrap_contacts_[i].port_)));
       }
+      g_bootstrap_endpoints.swap(loaded_endpoints);
       g_out_of_date = false;
+      TLOG(kGreen) << "\nLoaded " << bootstrap_file << "\n\n";
     } catch (const std::exception& e) {
       TLOG(kRed) << "\nException while loading " << bootstrap_file << ": " << e.what() << "\n\n";
     }
-    TLOG(kGreen) << "\nLoaded " << bootstrap_file << "\n\n";
   }
 };
 
@@ -434,7 +438,8 @@ int GetChoice() {
   int choice(-1);
   for (;;) {
     TLOG(kDefaultColour) << ">> ";
-    std::getline(std::cin, input);
+    if (!std::getline(std::cin, input))
+      return ExitChoice::index;
     try {
       choice = std::stoi(input);
     } catch (const std::exception&) {
-- 
2.43.0


From 887cfbc9acf91d9b56d953c9366c47dfe49edada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:27 +0000
Subject: [PATCH 44/45] fix: data buffer: account for values only once stored,
 and don't let callers wait for a worker which ran out of memory

---
 src/maidsafe/common/data_buffer.cc | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index a0f5c21..8918398 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -73,7 +73,16 @@ void DataBuffer::Init() {
     return;
   }
   fs::remove(test_file);
-  worker_ = std::async(std::launch::async, &DataBuffer::CopyQueueToDisk, this);
+  worker_ = std::async(std::launch::async, [this] {
+    try {
+      CopyQueueToDisk();
+    } catch (...) {
+      // Nobody must wait for a worker which has stopped.
+      std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
+      StopRunning(disk_store_lock);
+      throw;
+    }
+  });
 }
 
 DataBuffer::~DataBuffer() {
@@ -147,8 +156,8 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
     if (required_space > memory_store_.max)
       return std::move(std::unique_lock<std::mutex>(disk_store_.mutex));
 
-    memory_store_.current.data += required_space;
     memory_store_.index.emplace_back(key, value);
+    memory_store_.current.data += required_space;
   }
   memory_store_.cond_var.notify_all();
   return std::move(std::unique_lock<std::mutex>());
@@ -183,21 +192,20 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   bool cancelled(false);
   try {
     WaitForSpaceOnDisk(id, value.string().size(), disk_store_lock, cancelled);
-  } catch (const std::exception&) {
-    LOG(kError) << "Failed to make space on disk for " << DebugKeyName(key);
+    // Callers lock the memory store's mutex next, so mustn't be left holding the lock.
+    if (!running_)
+      return disk_store_lock.unlock();
+
+    if (!cancelled && !WriteFile(GetFilename(key), value.string()))
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
+  } catch (...) {
+    // The element left in the index refers to 'value', so mustn't be used any more.
     StopRunning(disk_store_lock);
+    LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
     throw;
   }
-  // Callers lock the memory store's mutex next, so mustn't be left holding the lock.
-  if (!running_)
-    return disk_store_lock.unlock();
 
   if (!cancelled) {
-    if (!WriteFile(GetFilename(key), value.string())) {
-      LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
-      StopRunning(disk_store_lock);
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
-    }
     auto itr(FindStartedToStoreOnDisk(id));
     if (itr != disk_store_.index.end())
       (*itr).state = StoringState::kCompleted;
-- 
2.43.0


From 62b89c010fe13296233695d18c510ab761c5746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:29 +0000
Subject: [PATCH 45/45] fix: signing tool: keep files if encrypting them fails,
 and use only valid keys

Also read whole lines for names and passwords, never show a password, and end when the input ends.
---
 src/maidsafe/common/tools/signing_tool.cc | 88 ++++++++++++++++++-----
 1 file changed, 70 insertions(+), 18 deletions(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index c70d5e7..103fe56 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -51,6 +51,27 @@ using Bytes = std::vector<unsigned char>;
 template <class T>
 T Get(std::string display_message, bool echo_input = true);
 
+// If anything fails, the file is left as it was.
+bool ReplaceFile(const fs::path& file, const Bytes& content) {
+  boost::system::error_code error_code;
+  fs::path new_file(fs::unique_path(file.string() + ".%%%%-%%%%", error_code));
+  if (error_code)
+    return false;
+  // Nobody must be able to read the new content who can't read the file.
+  bool written(maidsafe::WriteFile(new_file, Bytes()));
+  if (written) {
+    fs::permissions(new_file, fs::status(file, error_code).permissions(), error_code);
+    written = !error_code && maidsafe::WriteFile(new_file, content);
+  }
+  if (written) {
+    fs::rename(new_file, file, error_code);
+    written = !error_code;
+  }
+  if (!written)
+    fs::remove(new_file, error_code);
+  return written;
+}
+
 void Echo(bool enable = true) {
 #ifdef WIN32
   HANDLE hStdin = GetStdHandle(STD_INPUT_HANDLE);
@@ -140,12 +161,15 @@ void LoadPrivateKey() {
     std::cout << "error reading file\n";
     return;
   }
-  Keys.private_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(*priv_key));
+  auto private_key(maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(*priv_key)));
 
-  if (maidsafe::asymm::ValidateKey(Keys.private_key))
+  if (maidsafe::asymm::ValidateKey(private_key)) {
+    Keys.private_key = private_key;
+    have_private_key = true;
     std::cout << "private key loaded and valid \n";
-  else
+  } else {
     std::cout << "private key invalid !! \n";
+  }
 }
 
 void LoadPublicKey() {
@@ -157,12 +181,15 @@ void LoadPublicKey() {
     return;
   }
   std::cout << maidsafe::hex::Encode(*pub_key) << "\n";
-  Keys.public_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPublicKey(*pub_key));
+  auto public_key(maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPublicKey(*pub_key)));
 
-  if (maidsafe::asymm::ValidateKey(Keys.public_key))
+  if (maidsafe::asymm::ValidateKey(public_key)) {
+    Keys.public_key = public_key;
+    have_public_key = true;
     std::cout << "public key loaded and valid \n";
-  else
+  } else {
     std::cout << "public key invalid !! \n";
+  }
 }
 
 void SignFile() {
@@ -170,6 +197,7 @@ void SignFile() {
   fs::path file(filename);
   if (!maidsafe::asymm::ValidateKey(Keys.private_key)) {
     std::cout << "private key invalid, aborting!!\n";
+    return;
   }
 
   maidsafe::asymm::Signature signature(maidsafe::asymm::SignFile(file, Keys.private_key));
@@ -194,6 +222,7 @@ void ValidateSignature() {
   }
   if (!maidsafe::asymm::ValidateKey(Keys.public_key)) {
     std::cout << "public key invalid, aborting!!\n";
+    return;
   }
 
   if (maidsafe::asymm::CheckFileSignature(file, maidsafe::asymm::Signature(*signature),
@@ -218,8 +247,8 @@ void EncryptFile() {
     return;
   }
 
-  if (!maidsafe::WriteFile(file, maidsafe::crypto::SymmEncrypt(maidsafe::crypto::PlainText(*data),
-                                                               key_and_iv)->string()))
+  if (!ReplaceFile(file, maidsafe::crypto::SymmEncrypt(maidsafe::crypto::PlainText(*data),
+                                                       key_and_iv)->string()))
     std::cout << "error writing file\n";
   else
     std::cout << "File is now encrypted " << filename << "\n";
@@ -238,9 +267,9 @@ void DecryptFile() {
     std::cout << "error reading file\n";
     return;
   }
-  if (!maidsafe::WriteFile(file, maidsafe::crypto::SymmDecrypt(
-                                     maidsafe::crypto::CipherText(maidsafe::NonEmptyString(*data)),
-                                     key_and_iv).string()))
+  if (!ReplaceFile(file, maidsafe::crypto::SymmDecrypt(
+                             maidsafe::crypto::CipherText(maidsafe::NonEmptyString(*data)),
+                             key_and_iv).string()))
     std::cout << "error writing file\n";
   else
     std::cout << "File is now decrypted " << filename << "\n";
@@ -307,6 +336,10 @@ void GroupSignIn() {
   std::cout << "please Enter number of people required to sign\n";
   std::getline(std::cin, quorum);
   int min = atoi(quorum.c_str());
+  if (min < 2) {
+    std::cout << "smallest required group is 2";
+    return;
+  }
   maidsafe::crypto::DataParts chunks;
   maidsafe::crypto::PlainText priv_key;
   std::string location = Get<std::string>("please enter location of files");
@@ -332,10 +365,12 @@ void GroupSignIn() {
     }
   }
   priv_key = maidsafe::crypto::SecretRecoverData(chunks);
-  Keys.private_key =
-      maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(priv_key.string()));
+  auto private_key(
+      maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(priv_key.string())));
 
-  if (maidsafe::asymm::ValidateKey(Keys.private_key)) {
+  if (maidsafe::asymm::ValidateKey(private_key)) {
+    Keys.private_key = private_key;
+    have_private_key = true;
     std::cout << "private key loaded and valid \n";
     group_signed_in = true;
   } else {
@@ -413,24 +448,37 @@ void Process(int command) {
 #pragma warning(push)
 #pragma warning(disable : 4701)
 #endif
+template <class T>
+bool Extract(const std::string& input, T& value) {
+  return !!(std::stringstream(input) >> value);
+}
+
+// Names of files and passwords may contain spaces.
+bool Extract(const std::string& input, std::string& value) {
+  value = input;
+  return !value.empty();
+}
+
 template <class T>
 T Get(std::string display_message, bool echo_input) {
   Echo(echo_input);
   std::cout << display_message << "\n";
   std::cout << prompt << std::flush;
-  T command;
+  T command{};
   std::string input;
   while (std::getline(std::cin, input, '\n')) {
     std::cout << prompt << std::flush;
-    if (std::stringstream(input) >> command) {
+    if (Extract(input, command)) {
       Echo(true);
       return command;
     } else {
-      Echo(true);
       std::cout << "invalid option\n";
       std::cout << prompt << std::flush;
     }
   }
+  // There's no more input to come.
+  Echo(true);
+  Exit();
   return command;
 }
 #if defined MAIDSAFE_WIN32
@@ -442,7 +490,11 @@ int main() {
     Echo(true);
     std::cout << "_________________________________________________________________\n";
     Help();
-    Process(Get<int>("", true));
+    try {
+      Process(Get<int>("", true));
+    } catch (const std::exception& e) {
+      std::cout << "failed: " << e.what() << "\n";
+    }
     std::cout << "_________________________________________________________________\n";
   }
 }
-- 
2.43.0

