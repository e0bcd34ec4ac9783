From 8c664c4922103669d519267fa0186eb5e3a6e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:26 +0000
Subject: [PATCH 01/15] fix: do not use a destroyed client when an in-flight
 AllocateQuota response arrives

---
 src/service_control_client_impl.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 40aca93..d125ebf 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -138,17 +138,21 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
 
+  // This object may be gone when the response arrives: hold a ref_count to
+  // quota_aggregator instead of capturing "this".
+  std::shared_ptr<QuotaAggregator> quota_aggregator_copy = quota_aggregator_;
   quota_transport_(*quota_request_copy, quota_response,
-                   [this, quota_request_copy, quota_response](Status status) {
+                   [quota_aggregator_copy, quota_request_copy,
+                    quota_response](Status status) {
                      if (!status.ok()) {
                        GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: "
                                          << status.message();
                        // cache dummy response for fail open
                        AllocateQuotaResponse dummy_response;
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, dummy_response);
                      } else {
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, *quota_response);
                      }
 
-- 
2.43.0


From f092e872d756fd398cafb956a2fb86758d81ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:26 +0000
Subject: [PATCH 02/15] fix: no self-deadlock when a flushed AllocateQuota call
 completes in place

---
 src/cache_removed_items_handler.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 536558e..8f0531b 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -59,7 +59,7 @@ class CacheRemovedItemsHandler {
 
   // Sets the flush callback function.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
-    MutexLock lock(callback_mutex_);
+    std::lock_guard<std::recursive_mutex> lock(callback_mutex_);
     flush_callback_ = callback;
   }
 
@@ -120,7 +120,10 @@ class CacheRemovedItemsHandler {
 
  private:
   // Mutex guarding the access of flush_callback_;
-  Mutex callback_mutex_;
+  // It has to be recursive: the transport called by flush_callback_ may call
+  // its on_done in place, which caches the response, which may remove other
+  // items from the cache and flush them out.
+  std::recursive_mutex callback_mutex_;
 
   // The callback function to flush out cache items.
   InternalFlushCallback flush_callback_;
@@ -130,7 +133,7 @@ class CacheRemovedItemsHandler {
   StackBuffer* stack_buffer_;
 
   void FlushOut(const RequestType& request) {
-    MutexLock lock(callback_mutex_);
+    std::lock_guard<std::recursive_mutex> lock(callback_mutex_);
     if (flush_callback_) {
       flush_callback_(request);
     }
-- 
2.43.0


From 04b949a31b1240dc53a8c91bd74c2a219e1d7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 03/15] fix: bound the quota cache: evicting an entry from a
 full cache recursed without end

---
 src/quota_aggregator_impl.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 82a89ae..bcee449 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -260,6 +260,17 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
 // no need to consider locking at this point
 void QuotaAggregatorImpl::OnCacheEntryDelete(CacheElem* elem) {
   if (in_flush_all_ == false && ShouldDrop(*elem) == false) {
+    if (cache_->Size() >= options_.num_entries) {
+      // The element is evicted because the cache is full. It cannot go back:
+      // inserting it again would evict another one. Sends out its tokens.
+      if (elem->is_aggregated()) {
+        AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
+            service_name_, service_config_id_));
+      }
+      delete elem;
+      return;
+    }
+
     // insert the element back to the cache
     cache_->Insert(elem->signature(), elem, 1);
 
-- 
2.43.0


From be1192ba636e748732a132310a59431b11cdc46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 04/15] fix: flushing without a global transport called an
 empty function

---
 src/service_control_client_impl.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index d125ebf..bd9b968 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -134,6 +134,14 @@ ServiceControlClientImpl::~ServiceControlClientImpl() {
 
 void ServiceControlClientImpl::AllocateQuotaFlushCallback(
     const AllocateQuotaRequest& quota_request) {
+  if (!quota_transport_) {
+    GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: transport is NULL.";
+    // cache dummy response for fail open
+    AllocateQuotaResponse dummy_response;
+    (void)quota_aggregator_->CacheResponse(quota_request, dummy_response);
+    return;
+  }
+
   AllocateQuotaRequest* quota_request_copy =
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
@@ -165,6 +173,11 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
 
 void ServiceControlClientImpl::CheckFlushCallback(
     const CheckRequest& check_request) {
+  if (!check_transport_) {
+    GOOGLE_LOG(ERROR) << "Failed in Check call: transport is NULL.";
+    return;
+  }
+
   CheckResponse* check_response = new CheckResponse;
   check_transport_(check_request, check_response,
                    [check_response](Status status) {
@@ -179,6 +192,11 @@ void ServiceControlClientImpl::CheckFlushCallback(
 
 void ServiceControlClientImpl::ReportFlushCallback(
     const ReportRequest& report_request) {
+  if (!report_transport_) {
+    GOOGLE_LOG(ERROR) << "Failed in Report call: transport is NULL.";
+    return;
+  }
+
   ReportResponse* report_response = new ReportResponse;
   report_transport_(report_request, report_response,
                     [report_response](Status status) {
-- 
2.43.0


From fb3679fd02dc2dba8140f56b99b636caec28d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:24 +0000
Subject: [PATCH 05/15] fix: measure ages with a monotonic clock: a wall clock
 step made cached data stale or crashed the cache

---
 utils/simple_lru_cache_inl.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 23f6fdc..0b432fa 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -48,6 +48,7 @@ limitations under the License.
 #include <stddef.h>
 #include <sys/time.h>
 #include <cassert>
+#include <chrono>
 #include <cmath>
 #include <limits>
 #include <sstream>
@@ -73,11 +74,12 @@ const int64_t kSecToUsec = 1000000;
 // real cycle_clock.
 class SimpleCycleTimer {
  public:
-  // Return the current cycle in microseconds.
+  // Return the current cycle in microseconds. It is only used to measure ages,
+  // so it has to come from a monotonic clock: the wall clock may be stepped.
   static int64_t Now() {
-    struct timeval tv;
-    gettimeofday(&tv, NULL);
-    return static_cast<int64_t>(tv.tv_sec * kSecToUsec + tv.tv_usec);
+    return std::chrono::duration_cast<std::chrono::microseconds>(
+               std::chrono::steady_clock::now().time_since_epoch())
+        .count();
   }
   // Return number of cycles in a second.
   static int64_t Frequency() { return kSecToUsec; }
-- 
2.43.0


From 693a062e4856b1b0e905c1c41ac1aacf2263cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 06/15] fix: the HTTP transport reported failed requests as
 successful

---
 sample/transport/http_transport.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index 6d4bed8..8fbbf5b 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -40,29 +40,40 @@ Status ConvertHttpCodeToStatus(const long &http_code) {
   switch (http_code) {
     case 400:
       status = Status(StatusCode::kInvalidArgument, std::string("Bad Request."));
+      break;
     case 403:
       status =
           Status(StatusCode::kPermissionDenied, std::string("Permission Denied."));
+      break;
     case 404:
       status = Status(StatusCode::kNotFound, std::string("Not Found."));
+      break;
     case 409:
       status = Status(StatusCode::kAborted, std::string("Conflict."));
+      break;
     case 416:
       status = Status(StatusCode::kOutOfRange,
                       std::string("Requested Range Not Satisfiable."));
+      break;
     case 429:
       status =
           Status(StatusCode::kResourceExhausted, std::string("Too Many Requests."));
+      break;
     case 499:
       status = Status(StatusCode::kCancelled, std::string("Client Closed Request."));
+      break;
     case 504:
       status = Status(StatusCode::kDeadlineExceeded, std::string("Gateway Timeout."));
+      break;
     case 501:
       status = Status(StatusCode::kUnimplemented, std::string("Not Implemented."));
+      break;
     case 503:
       status = Status(StatusCode::kUnavailable, std::string("Service Unavailable."));
+      break;
     case 401:
       status = Status(StatusCode::kUnauthenticated, std::string("Unauthorized."));
+      break;
     default: {
       if (http_code >= 200 && http_code < 300) {
         status = Status(StatusCode::kOk, std::string("OK."));
@@ -118,12 +129,16 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
   curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1L);
 
   CURLcode res = curl_easy_perform(curl);
-  Status status = OkStatus();
+  long http_code = 0;
+  curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
+  Status status = ConvertHttpCodeToStatus(http_code);
   if (res != CURLE_OK) {
     std::cout << "curl easy_perform() failed." << std::endl;
-    long http_code = 0;
-    curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-    Status status = ConvertHttpCodeToStatus(http_code);
+    if (status.ok()) {
+      // The transfer broke after a success code had been received.
+      status = Status(StatusCode::kUnavailable,
+                      std::string(curl_easy_strerror(res)));
+    }
   }
 
   curl_easy_cleanup(curl);
-- 
2.43.0


From e272086fe962d359b7b25731a306de043d113479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 07/15] fix: the HTTP transport cut request bodies at the first
 zero byte

---
 sample/transport/http_transport.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index 8fbbf5b..fbeb051 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -123,6 +123,9 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
   curl_easy_setopt(curl, CURLOPT_SSL_CIPHER_LIST,
                    "ALL:!aNULL:!LOW:!EXPORT:!SSLv2");
 
+  // The body is binary and may contain zero bytes.
+  curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE_LARGE,
+                   static_cast<curl_off_t>(request_body.size()));
   curl_easy_setopt(curl, CURLOPT_POSTFIELDS, request_body.data());
   curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, ResultBodyCallback);
   curl_easy_setopt(curl, CURLOPT_WRITEDATA, response_body);
-- 
2.43.0


From 5b88c463d6fbad75b9f641a49eb7d44b988a82c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 08/15] fix: the HTTP transport leaked the header list of every
 request

---
 sample/transport/http_transport.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index fbeb051..ff6c850 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -144,6 +144,7 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
     }
   }
 
+  curl_slist_free_all(list);
   curl_easy_cleanup(curl);
   return status;
 }
-- 
2.43.0


From 68b79057c69e6b7ef0996298120078a622f9f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 09/15] fix: mixed lookups with and without reordering
 corrupted the LRU list

---
 utils/simple_lru_cache_inl.h | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 0b432fa..9dccc42 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -567,6 +567,15 @@ class SimpleLRUCacheBase {
 
   void SetTimeout(double seconds, bool lru);
 
+  // Put an element on the LRU list, which is sorted by last use.
+  void LinkByLastUse(Elem* e) {
+    Elem* before = &head_;
+    while (before->next != &head_ && before->next->last_use_ > e->last_use_) {
+      before = before->next;
+    }
+    e->Link(before);
+  }
+
   bool IsOverfullInternal() const {
     return ((units_ > max_units_) || IsOverfull());
   }
@@ -680,12 +689,12 @@ Value* SimpleLRUCacheBase<Key, Value, MapType, EQ>::LookupWithOptions(
   if (iter != table_.end()) {
     // We set last_use_ upon Release, not during Lookup.
     Elem* e = iter->second;
-    if (e->pin == 0) {
-      pinned_units_ += e->units;
-      // We are pinning this entry, take it off the LRU list if we are in LRU
-      // mode. In strict age-based mode entries stay on the list while pinned.
-      if (lru_ && options.update_eviction_order()) e->Unlink();
-    }
+    if (e->pin == 0) pinned_units_ += e->units;
+    // We are pinning this entry, take it off the LRU list if we are in LRU
+    // mode. In strict age-based mode entries stay on the list while pinned.
+    // It may still be there although it is pinned already, if that was by a
+    // lookup that does not update the eviction order.
+    if (lru_ && options.update_eviction_order()) e->Unlink();
     e->pin++;
     return e->value;
   }
@@ -740,7 +749,9 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::ReleaseWithOptions(
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->Link(&head_);
+      // The last release may be one that does not update the eviction order
+      // while an earlier one did, so do not rely on the options of this one.
+      if (lru_ && !e->IsLinked()) LinkByLastUse(e);
       pinned_units_ -= e->units;
       if (IsOverfullInternal()) {
         // This element is no longer needed, and we are full.  So kick it out.
@@ -922,10 +933,10 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::DiscardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
+    // In the LRU mode, pinned elements do not expire: they are on the list only
+    // if they were looked up without updating the eviction order. In the
     // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
-    Remove(e->key);
+    if (e->pin == 0 || !lru_) Remove(e->key);
     e = prev;
   }
 }
-- 
2.43.0


From 4ad58d9c54b01f7429e872ccdbeff5af6807e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 10/15] fix: infinite or huge samples were counted outside the
 exponential buckets

---
 utils/distribution_helper.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 193c530..16f49b8 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -136,11 +136,14 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
   int bucket_index = 0;
   if (value >= exponential.scale()) {
     // Should be put into bucket bucket_index, starting from 0.
-    bucket_index = 1 + static_cast<int>(log2(value / exponential.scale()) /
-                                        log2(exponential.growth_factor()));
-    if (bucket_index > exponential.num_finite_buckets() + 1) {
-      bucket_index = exponential.num_finite_buckets() + 1;
+    // Limit it before converting: the value may be infinite, or the index too
+    // big for an int.
+    double index = (log2(value) - log2(exponential.scale())) /
+                   log2(exponential.growth_factor());
+    if (!(index < exponential.num_finite_buckets())) {
+      index = exponential.num_finite_buckets();
     }
+    bucket_index = 1 + static_cast<int>(index);
   }
   distribution->set_bucket_counts(
       bucket_index, distribution->bucket_counts(bucket_index) + 1);
-- 
2.43.0


From 88d5cd3dc852cef2636bd6106fd160ac8a3b3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 11/15] fix: samples at the bound of an exponential bucket
 could be counted in the one below

---
 utils/distribution_helper.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 16f49b8..d7e5095 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -144,6 +144,17 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
       index = exponential.num_finite_buckets();
     }
     bucket_index = 1 + static_cast<int>(index);
+    // The logarithms are rounded: a value at or next to a bound may still be on
+    // its wrong side.
+    if (bucket_index <= exponential.num_finite_buckets() &&
+        value >= exponential.scale() *
+                     pow(exponential.growth_factor(), bucket_index)) {
+      ++bucket_index;
+    } else if (bucket_index > 1 &&
+               value < exponential.scale() * pow(exponential.growth_factor(),
+                                                 bucket_index - 1)) {
+      --bucket_index;
+    }
   }
   distribution->set_bucket_counts(
       bucket_index, distribution->bucket_counts(bucket_index) + 1);
-- 
2.43.0


From cfc36b1c4d6ad7d047773327cc7cab61d6f26877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 12/15] fix: adding a sample to explicit buckets without bounds
 read past the array

---
 utils/distribution_helper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index d7e5095..d1e21eb 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -182,7 +182,7 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
 void UpdateExplicitBucketCount(double value, Distribution* distribution) {
   const auto& bounds = distribution->explicit_buckets().bounds();
   int bucket_index = 0;
-  if (value >= bounds.Get(0)) {
+  if (bounds.size() > 0 && value >= bounds.Get(0)) {
     // -inf <  b0 <  b1 <  b2 <  b3 < +inf     (4 values in "bounds")
     //   |  0  |  1  |  2  |  3  |  4  |       (5 buckets)
     // std::upper_bound returns the first value that is greater than given one.
-- 
2.43.0


From b779d1c8c5e3194b9380b8a844a8ce22370403ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 13/15] fix: NaN bucket options were accepted, and samples then
 counted outside the buckets

---
 utils/distribution_helper.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index d1e21eb..277d11a 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -203,12 +203,12 @@ Status DistributionHelper::InitExponential(int num_finite_buckets,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (growth_factor <= 1.0) {
+  if (!(growth_factor > 1.0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument growth_factor should be > 1.0. pass in: ",
                          growth_factor));
   }
-  if (scale <= 0) {
+  if (!(scale > 0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument scale should be > 0. pass in: ", scale));
   }
@@ -229,10 +229,14 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (width <= 0.0) {
+  if (!(width > 0.0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument width should be > 0.0. pass in: ", width));
   }
+  if (!std::isfinite(offset)) {
+    return Status(StatusCode::kInvalidArgument,
+                  StrCat("Argument offset should be finite. pass in: ", offset));
+  }
 
   auto* linear = distribution->mutable_linear_buckets();
   linear->set_num_finite_buckets(num_finite_buckets);
@@ -244,7 +248,9 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
 
 Status DistributionHelper::InitExplicit(const std::vector<double>& bounds,
                                         Distribution* distribution) {
-  if (!std::is_sorted(bounds.begin(), bounds.end())) {
+  if (!std::is_sorted(bounds.begin(), bounds.end()) ||
+      std::any_of(bounds.begin(), bounds.end(),
+                  [](double bound) { return std::isnan(bound); })) {
     return Status(StatusCode::kInvalidArgument, "Argument bounds should be sorted.");
   }
   if (std::adjacent_find(bounds.begin(), bounds.end()) != bounds.end()) {
-- 
2.43.0


From 7ca3980d940c54e6b8cf87367b5638f98604ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 14/15] fix: samples in the last linear bucket could be counted
 outside it

---
 utils/distribution_helper.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 277d11a..89f6b23 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -172,7 +172,12 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
   } else if (value >= upper_bound) {
     bucket_index = linear.num_finite_buckets() + 1;
   } else {
-    bucket_index = 1 + static_cast<int>((value - lower_bound) / linear.width());
+    // Rounding (or overflow) must not lift it above the last finite bucket.
+    double index = (value - lower_bound) / linear.width();
+    if (!(index < linear.num_finite_buckets())) {
+      index = linear.num_finite_buckets() - 1;
+    }
+    bucket_index = 1 + static_cast<int>(index);
   }
 
   distribution->set_bucket_counts(
-- 
2.43.0


From a8a5c4ea2d42573b7530b8a09f459a7eef8b2661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:42 +0000
Subject: [PATCH 15/15] fix: create the flush timer even when one of the flush
 intervals is 0 ms

An interval of 0 ms in one cache made the minimum 0, and the client was left
without its periodic flush timer: aggregated reports of the other caches then
stayed in the cache until FlushAll() or destruction.
---
 src/service_control_client_impl.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index bd9b968..38039ab 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -19,6 +19,7 @@ limitations under the License.
 #include "google/protobuf/stubs/logging.h"
 #include "utils/thread.h"
 
+#include <algorithm>
 #include <climits>
 
 using std::string;
@@ -79,8 +80,10 @@ ServiceControlClientImpl::ServiceControlClientImpl(
       std::bind(&ServiceControlClientImpl::ReportFlushCallback, this,
                 std::placeholders::_1));
 
-  int flush_interval = GetNextFlushInterval();
-  if (options.periodic_timer && flush_interval > 0) {
+  // An interval of 0 ms (as soon as possible) must not leave the other caches
+  // without their timer.
+  int flush_interval = std::max(1, GetNextFlushInterval());
+  if (options.periodic_timer) {
     // Class members cannot be captured in lambda. We need to make a copy to
     // support C++11.
     std::shared_ptr<CheckAggregator> check_aggregator_copy = check_aggregator_;
-- 
2.43.0

