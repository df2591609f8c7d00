From 79a2733d1737817afca3c66c75bc7fbcab2857c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 01/60] fix: trim() must not read past the end of an empty
 string

---
 src/icl_core/src/icl_core/StringHelper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 71107e2..6dfe477 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -72,8 +72,8 @@ String trim(String const & str)
     ++trim_front;
   }
 
-  std::string::size_type trim_end = length - 1;
-  while ((trim_end > trim_front) && isspace(static_cast<unsigned char>(str[trim_end])))
+  std::string::size_type trim_end = length;
+  while ((trim_end > trim_front) && isspace(static_cast<unsigned char>(str[trim_end - 1])))
   {
     --trim_end;
   }
@@ -84,7 +84,7 @@ String trim(String const & str)
   }
   else
   {
-    result = str.substr(trim_front, trim_end - trim_front + 1);
+    result = str.substr(trim_front, trim_end - trim_front);
   }
 
   return result;
-- 
2.43.0


From f8ba47ceefd44dafa5645f49340fbaf73f2d3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 02/60] fix: split() with an empty delimiter must terminate

---
 src/icl_core/src/icl_core/StringHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 6dfe477..2dcc06b 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -34,7 +34,7 @@ std::vector<String> split(const String& str, const String& delimiter)
     substrings.push_back("");
     return substrings;
   }
-  while ((pos = s.find(delimiter)) != String::npos)
+  while (!delimiter.empty() && (pos = s.find(delimiter)) != String::npos)
   {
     substrings.push_back(s.substr(0, pos));
     s.erase(0, pos+delimiter.size());
-- 
2.43.0


From 6bad7f246d6fee96605c25bd468c89e2916b8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 03/60] fix: SequenceNumber ordering must use the actual range
 if min_value is not zero

---
 src/icl_core/src/icl_core/SequenceNumber.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/SequenceNumber.h b/src/icl_core/src/icl_core/SequenceNumber.h
index 147c353..18b834a 100644
--- a/src/icl_core/src/icl_core/SequenceNumber.h
+++ b/src/icl_core/src/icl_core/SequenceNumber.h
@@ -87,11 +87,11 @@ public:
   {
     if (m_value < other.m_value)
     {
-      return (other.m_value - m_value) < max_value / 2;
+      return (other.m_value - m_value) < (max_value - min_value) / 2;
     }
     else
     {
-      return (m_value - other.m_value) > max_value / 2;
+      return (m_value - other.m_value) > (max_value - min_value) / 2;
     }
   }
 
-- 
2.43.0


From 2195d774652a4eb2b8944e4066f7a6f8308c00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 04/60] fix: setBits() and clearBits() must not truncate
 bitfields wider than int

---
 src/icl_core/src/icl_core/BitfieldHelper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/BitfieldHelper.h b/src/icl_core/src/icl_core/BitfieldHelper.h
index c93539b..50d0b08 100644
--- a/src/icl_core/src/icl_core/BitfieldHelper.h
+++ b/src/icl_core/src/icl_core/BitfieldHelper.h
@@ -39,7 +39,7 @@ namespace icl_core {
 template <typename T>
 void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) | bits);
+  bitfield = T(bitfield | T(bits));
 }
 
 /*!
@@ -48,7 +48,7 @@ void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 template <typename T>
 void clearBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) & ~bits);
+  bitfield = T(bitfield & ~T(bits));
 }
 
 /*!
@@ -72,7 +72,7 @@ void SetBits(int bits, typename ConvertToRef<T>::ToRef bitfield) ICL_CORE_GCC_DE
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE void SetBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  setBits(bits, bitfield);bitfield = T(int(bitfield) | bits);
+  setBits(bits, bitfield);bitfield = T(bitfield | T(bits));
 }
 
 /*!
-- 
2.43.0


From 4e4dd2d33433c26556bd69d49b66beb03090c1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 05/60] fix: ZBuffer::reset() must compile and empty the buffer

---
 src/icl_core/src/icl_core/ZBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/ZBuffer.h b/src/icl_core/src/icl_core/ZBuffer.h
index 19cb5d0..d6fb1a0 100644
--- a/src/icl_core/src/icl_core/ZBuffer.h
+++ b/src/icl_core/src/icl_core/ZBuffer.h
@@ -77,7 +77,7 @@ public:
   }
 
   //! Empties the Z buffer.
-  void reset() { m_buffer.assign(size); }
+  void reset() { m_buffer.assign(m_buffer.size(), boost::optional<T>()); }
   //! Returns the buffer size.
   const size_type size() const { return m_buffer.size(); }
   //! Read-only access to the buffer.
-- 
2.43.0


From e301d94460e1f2ff01e514ad1e6fc68618f57f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 06/60] fix: DataHeader must initialize its DSIN

---
 src/icl_core/src/icl_core/DataHeader.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/DataHeader.h b/src/icl_core/src/icl_core/DataHeader.h
index 9d71082..735009d 100644
--- a/src/icl_core/src/icl_core/DataHeader.h
+++ b/src/icl_core/src/icl_core/DataHeader.h
@@ -66,7 +66,8 @@ struct DataHeader
   DataHeader()
     : coordinate_system(),
       timestamp(),
-      sequence_number(0)
+      sequence_number(0),
+      dsin(0)
   { }
 
   //! Constructor.
@@ -75,7 +76,8 @@ struct DataHeader
              uint32_t sequence_number = 0)
     : coordinate_system(coordinate_system),
       timestamp(timestamp),
-      sequence_number(sequence_number)
+      sequence_number(sequence_number),
+      dsin(0)
   { }
 
   //! Destructor.
-- 
2.43.0


From 7dde88270ebdff6341e1e5ffef3fe249e9e6c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 07/60] fix: TimeStamp(sec, nsec) must not misinterpret large
 nanosecond values as negative

---
 src/icl_core/src/icl_core/TimeStamp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.h b/src/icl_core/src/icl_core/TimeStamp.h
index 662e829..a86bb81 100644
--- a/src/icl_core/src/icl_core/TimeStamp.h
+++ b/src/icl_core/src/icl_core/TimeStamp.h
@@ -71,7 +71,7 @@ public:
 
   //! Constructor that gets a time in seconds plus nanoseconds.
   TimeStamp(uint64_t sec, uint32_t nsec)
-    : TimeBase(sec, nsec)
+    : TimeBase(sec + nsec / 1000000000, nsec % 1000000000)
   { }
 
   TimeStamp(const struct timespec& ts)
-- 
2.43.0


From d3d955813963eaa606b9c15fb457026aa3231527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 08/60] fix: TimeSpan output must scale the microsecond part

---
 src/icl_core/src/icl_core/TimeSpan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 9f7077c..28f8305 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -256,7 +256,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
-- 
2.43.0


From c60cc028a14e0923a364fc2b91d5ca995e9a2913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 09/60] fix: TimeSpan output must not repeat the sign before
 the sub-second part

---
 src/icl_core/src/icl_core/TimeSpan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 28f8305..0fbe2db 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -234,6 +234,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   {
     stream << "-";
     calc_secs = -calc_secs;
+    calc_nsec = -calc_nsec;
   }
   if (calc_secs > 3600)
   {
-- 
2.43.0


From 176283f27b6988f003add5e4ba1cd0971b89ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 10/60] fix: microSeconds() must only return the microsecond
 field

---
 src/icl_core/src/icl_core/TimeBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/TimeBase.h b/src/icl_core/src/icl_core/TimeBase.h
index 3a820c4..a63a58a 100644
--- a/src/icl_core/src/icl_core/TimeBase.h
+++ b/src/icl_core/src/icl_core/TimeBase.h
@@ -146,7 +146,7 @@ public:
    */
   int32_t microSeconds() const
   {
-    return nsecs / 1000;
+    return nsecs / 1000 % 1000;
   }
 
   /*! Use this function if you want to express the time in hours,
-- 
2.43.0


From 77052d705ca94227a278cafce18c2926167c547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 11/60] fix: TimeSpan * and / must not drop the fraction of a
 second

---
 src/icl_core/src/icl_core/TimeSpan.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.h b/src/icl_core/src/icl_core/TimeSpan.h
index f67f2e0..b4f9e5e 100644
--- a/src/icl_core/src/icl_core/TimeSpan.h
+++ b/src/icl_core/src/icl_core/TimeSpan.h
@@ -209,13 +209,19 @@ inline TimeSpan operator - (const TimeSpan& left, const TimeSpan& right)
 
 inline TimeSpan operator / (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() / divisor), int32_t(span.tsNSec() / divisor));
+  double secs = span.tsSec() / divisor;
+  int64_t whole_secs = int64_t(secs);
+  int64_t nsecs = int64_t((secs - whole_secs) * 1000000000.0 + span.tsNSec() / divisor);
+  TimeSpan a(whole_secs + nsecs / 1000000000, int32_t(nsecs % 1000000000));
   return a;
 }
 
 inline TimeSpan operator * (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() * divisor), int32_t(span.tsNSec() * divisor));
+  double secs = span.tsSec() * divisor;
+  int64_t whole_secs = int64_t(secs);
+  int64_t nsecs = int64_t((secs - whole_secs) * 1000000000.0 + span.tsNSec() * divisor);
+  TimeSpan a(whole_secs + nsecs / 1000000000, int32_t(nsecs % 1000000000));
   return a;
 }
 
-- 
2.43.0


From 0e30a41a8e4dd30c8a80663fcaa0dd2c87eddf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 12/60] fix: TimeStamp from ptime must only take the sub-second
 part as nanoseconds

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index b321c8a..246d9fe 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -90,9 +90,9 @@ TimeStamp::TimeStamp(const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  boost::posix_time::time_duration length = boost::posix_time::time_period(unix_time_base, ptime_stamp).length();
+  secs = length.total_seconds();
+  nsecs = int32_t(length.fractional_seconds() * (1000000000 / boost::posix_time::time_duration::ticks_per_second()));
   normalizeTime();
 }
 
@@ -100,9 +100,9 @@ TimeStamp& TimeStamp::operator = (const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  boost::posix_time::time_duration length = boost::posix_time::time_period(unix_time_base, ptime_stamp).length();
+  secs = length.total_seconds();
+  nsecs = int32_t(length.fractional_seconds() * (1000000000 / boost::posix_time::time_duration::ticks_per_second()));
   normalizeTime();
   return *this;
 }
-- 
2.43.0


From f9460194260742ab08305077232b924d2f251510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 13/60] fix: fromIso8601BasicUTC() must not read past the month
 table

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 246d9fe..35b9f10 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -181,7 +181,7 @@ TimeStamp TimeStamp::fromIso8601BasicUTC(const String& str)
   {
     days_per_month[1] = 29;
   }
-  for (int32_t m = 1; m < tm_mon; ++m)
+  for (int32_t m = 1; m < tm_mon && m <= 12; ++m)
   {
     days_since_epoch += days_per_month[m-1];
   }
-- 
2.43.0


From feb200fb557e47b574a3e3003f853622f020ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 14/60] fix: time formatting must always leave a terminated
 text

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 35b9f10..2cb6378 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -205,16 +205,19 @@ void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
   time_t time = tsSec();
   struct tm *newtime;
   newtime = gmtime(&time);
-  strftime(dest, max_len, format, newtime);
+  if (max_len > 0 && (newtime == NULL || strftime(dest, max_len, format, newtime) == 0))
+  {
+    dest[0] = '\0';
+  }
 }
 
 void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
   struct tm *newtime = localtime(&time);
-  if (newtime)
+  if (max_len > 0 && (newtime == NULL || strftime(dest, max_len, format, newtime) == 0))
   {
-    strftime(dest, max_len, format, newtime);
+    dest[0] = '\0';
   }
 }
 
-- 
2.43.0


From 010a212663dd6cd0f9baea9a4398b05b6f8e097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 15/60] fix: SpinLock::tryLock() must report success exactly if
 it got the lock

---
 src/icl_core/src/icl_core_thread/SpinLock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/SpinLock.h b/src/icl_core/src/icl_core_thread/SpinLock.h
index ab955c5..85fafa2 100644
--- a/src/icl_core/src/icl_core_thread/SpinLock.h
+++ b/src/icl_core/src/icl_core_thread/SpinLock.h
@@ -59,7 +59,7 @@ public:
    */
   bool tryLock()
   {
-    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == LOCKED);
+    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == UNLOCKED);
   }
 
   //! Unlocks the mutex.
-- 
2.43.0


From 81f2787d8b5f7ef2ccc615f469037804414b8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 16/60] fix: Thread::wait() and Thread::join() of a thread
 which just finished

wait() could report failure although the thread was over, because the
finished flag was set after the mutex was released, and join() did not
join a system thread whose finished flag was already set.
---
 src/icl_core/src/icl_core_thread/Thread.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index fce345e..05942ec 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -137,7 +137,9 @@ bool Thread::executesHardRealtime() const
 
 void Thread::join()
 {
-  if (running())
+  // The system thread has to be joined even if it already finished, so
+  // that its resources are released and it is really gone afterwards.
+  if (!m_joined)
   {
     m_impl->join();
   }
@@ -241,9 +243,12 @@ void Thread::runThread()
   run();
 
   m_execute = false;
-  m_thread_mutex.unlock();
+  // This has to be set before the mutex is unlocked, because wait()
+  // checks it as soon as it has acquired the mutex.
   m_finished = true;
 
+  m_thread_mutex.unlock();
+
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
 
-- 
2.43.0


From 38a81d0710a159b1cf3abfe1fd09047ac8a48e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 17/60] fix: ActiveObject operation queue accesses without lock

The operation queue was tested for emptiness and cleared without holding
its mutex, and an operation queued while the object stopped was never
deleted.
---
 .../src/icl_core_thread/ActiveObject.cpp      | 56 ++++++++++++-------
 .../src/icl_core_thread/ActiveObject.h        |  6 ++
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 8b53767..5b4fe52 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -35,6 +35,8 @@ void ActiveObject::run()
 {
   onThreadStart();
 
+  ActiveOperation *op = NULL;
+
   // Continually process the operation queue.
   while (execute())
   {
@@ -42,31 +44,18 @@ void ActiveObject::run()
     if (execute())
     {
       // Process all queued operations.
-      while (!m_operation_queue.empty())
+      while ((op = nextOperation()) != NULL)
       {
-        // Try to lock the queue mutex
-        if (m_operation_queue_mutex.lock())
-        {
-          // Extract the next pending operation from the queue.
-          ActiveOperation *op = m_operation_queue.front();
-          m_operation_queue.pop_front();
-
-          // Release the mutex before executing the operation!
-          m_operation_queue_mutex.unlock();
-
-          // Finally, execute the operation.
-          op->invoke();
-          delete op;
-        }
+        op->invoke();
+        delete op;
       }
     }
   }
 
   // Delete any pending operations.
-  while (!m_operation_queue.empty())
+  while ((op = nextOperation()) != NULL)
   {
-    delete m_operation_queue.front();
-    m_operation_queue.pop_front();
+    delete op;
   }
 
   onThreadStop();
@@ -80,10 +69,22 @@ void ActiveObject::stop()
 
 void ActiveObject::queue(ActiveOperation *active_operation)
 {
-  if (execute() && m_operation_queue_mutex.lock())
+  bool queued = false;
+
+  // The execute flag has to be checked while holding the mutex, so that
+  // no operation is queued after run() has deleted the pending ones.
+  if (m_operation_queue_mutex.lock())
   {
-    m_operation_queue.push_back(active_operation);
+    if (execute())
+    {
+      m_operation_queue.push_back(active_operation);
+      queued = true;
+    }
     m_operation_queue_mutex.unlock();
+  }
+
+  if (queued)
+  {
     m_sem.post();
   }
   else
@@ -92,5 +93,20 @@ void ActiveObject::queue(ActiveOperation *active_operation)
   }
 }
 
+ActiveOperation *ActiveObject::nextOperation()
+{
+  ActiveOperation *op = NULL;
+  if (m_operation_queue_mutex.lock())
+  {
+    if (!m_operation_queue.empty())
+    {
+      op = m_operation_queue.front();
+      m_operation_queue.pop_front();
+    }
+    m_operation_queue_mutex.unlock();
+  }
+  return op;
+}
+
 }
 }
diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.h b/src/icl_core/src/icl_core_thread/ActiveObject.h
index cbd5326..fd31baf 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.h
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.h
@@ -88,6 +88,12 @@ protected:
   icl_core::List<ActiveOperation*> m_operation_queue;
   Mutex m_operation_queue_mutex;
   Semaphore m_sem;
+
+private:
+  /*! Extracts the next pending operation from the queue.
+   *  \returns \c NULL if the queue is empty.
+   */
+  ActiveOperation *nextOperation();
 };
 
 }
-- 
2.43.0


From 7580a40dbfc49e959d3117e4ab8fb50c265b5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 18/60] fix: PeriodicThreadImplTimerfd never closed its timer

---
 .../icl_core_thread/PeriodicThreadImplTimerfd.cpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index a96e422..337f17c 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -28,6 +28,7 @@
 #include "Logging.h"
 
 #include <sys/timerfd.h>
+#include <unistd.h>
 
 namespace icl_core {
 namespace thread {
@@ -41,11 +42,22 @@ PeriodicThreadImplTimerfd::PeriodicThreadImplTimerfd(const icl_core::TimeSpan& p
 
 PeriodicThreadImplTimerfd::~PeriodicThreadImplTimerfd()
 {
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+  }
   delete m_info;
 }
 
 void PeriodicThreadImplTimerfd::makePeriodic()
 {
+  /* Release the timer of a previous run of the thread */
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+    timer_created = false;
+  }
+
   /* Create the timer */
   int fd = timerfd_create(CLOCK_MONOTONIC, 0);
   m_info->wakeups_missed = 0;
-- 
2.43.0


From 540337c0a46be12f0424984fdbadda83ab4b7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:34 +0000
Subject: [PATCH 19/60] fix: AttributeTree dereferenced the NULL subtree list
 of a leaf

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 0afbbe5..371afab 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -960,10 +960,10 @@ char *AttributeTree::getSpecialAttribute(const char *description, AttributeTree
 {
   // search recursive to the root for that attribute
   AttributeTree *at_path_parent = this;
-  AttributeTree *at_path = at_path_parent->m_subtree_list->subTree(description);
+  AttributeTree *at_path = at_path_parent->getSubTree(description);
   while (at_path_parent && at_path == NULL)
   {
-    at_path = at_path_parent->m_subtree_list->subTree(description);
+    at_path = at_path_parent->getSubTree(description);
     at_path_parent = at_path_parent->parentTree();
   }
 
@@ -1020,7 +1020,7 @@ char *AttributeTree::getAttribute(const char *param_description, const char *def
             *description_part = 0;
             description_part++;
           }
-          at = at->m_subtree_list->subTree(next_description);
+          at = at->getSubTree(next_description);
         }
         // now we are at the inner attribute tree
         // is there an attribute
@@ -1088,7 +1088,7 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
 
   sprintf(description + base_len - j, "%i", i);
 
-  while (m_subtree_list->subTree(description) && i < 100000)
+  while (getSubTree(description) && i < 100000)
   {
     i++;
     sprintf(description + base_len - j, "%i", i);
@@ -1110,14 +1110,14 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
 {
   if (tree)
   {
-    if (m_subtree_list->subTree(tree->m_this_description))
+    if (tree->m_this_description && getSubTree(tree->m_this_description))
     {
       char *new_description = newSubNodeDescription(tree->m_this_description);
       free(tree->m_this_description);
       tree->m_this_description = new_description;
     }
 
-    if (after == NULL)
+    if (after == NULL || m_subtree_list == NULL)
     {
       m_subtree_list = new SubTreeList(tree, m_subtree_list);
     }
-- 
2.43.0


From 5d5870cdf140c975107cba45ac74cc2330f3e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 20/60] fix: AttributeTree hung on overlong lines and
 unterminated comments and lost an unterminated last line

---
 .../src/icl_core_config/AttributeTree.cpp     | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 371afab..60ca91f 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1294,11 +1294,17 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
   char *attribute, *line;
   AttributeTree *at = this;
   int lineno = 1;
-
-  readNextLineInBuffer(in);
+  bool last_line = false;
 
   do
   {
+    readNextLineInBuffer(in);
+    if (in.fail() && !in.eof())
+    {
+      // the line does not fit into the buffer
+      return lineno;
+    }
+    last_line = in.eof();
     //LOCAL_PRINTF("get next line %i\n",lineno);
     lineno++;
     line = buffer;
@@ -1389,7 +1395,12 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                 at_c->appendAttribute(line, "\n");
               }
             }
-            while (!comment_end);
+            while (!comment_end && in.good());
+            if (!comment_end)
+            {
+              return lineno;
+            }
+            last_line = in.eof();
           }
           else
           {
@@ -1427,9 +1438,8 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
         }
       }
     }
-    readNextLineInBuffer(in);
   }
-  while (!in.eof());
+  while (!last_line);
   return -1;
 }
 
-- 
2.43.0


From 5f326af9866b3135191954a02c3ca46047392b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 21/60] fix: AttributeTree::save wrote the attributes of small
 unnamed trees below an empty name

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 60ca91f..c948874 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1190,7 +1190,7 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
     assert(description != NULL); // Just abort if we are out of memory.
     memset(description, 0, len + 1);
 
-    if ((tud_len > 0) && (the_upper_description[tud_len-1] == ' '))
+    if ((tud_len == 0) || (the_upper_description[tud_len-1] == ' '))
     {
       strcat(strcpy(description, the_upper_description), t_description);
     }
-- 
2.43.0


From 5daaf7f8333ac9169ff42ed710fb0af679ac7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 22/60] fix: AttributeTree::newSubNodeDescription read before
 the start of numeric names

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index c948874..9d59208 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1075,7 +1075,7 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
   // find the maxima length of number in base_description
   if (base_len>0)
   {
-    while (base_len>=j-1 &&
+    while (base_len > j &&
            sscanf(description+base_len-j-1, "%i", &i)==1)
     {
       j++;
-- 
2.43.0


From 55c036842a70ffea6b40b348186627e6b484538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 23/60] fix: AttributeTree::save corrupted single-line comments
 when all subtrees are written as blocks

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 9d59208..23fca5c 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1163,7 +1163,7 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   }
 
   int contents = contains();
-  if (contents >= change_style_depth || hasMultilineComment())
+  if ((contents >= change_style_depth && !isComment()) || hasMultilineComment())
   {
     out << the_upper_description << t_description << '{' << endl;
     if (m_this_attribute && strcmp(m_this_attribute, ""))
-- 
2.43.0


From fd65f849ff2ba38f64cd1416689e6805670e9d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 24/60] fix: AttributeTree blocks inside of a dotted path were
 not saved and loaded correctly

---
 .../src/icl_core_config/AttributeTree.cpp       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 23fca5c..bd4e46c 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 #ifdef _SYSTEM_WIN32_
 #include <direct.h>
@@ -1165,7 +1166,10 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   int contents = contains();
   if ((contents >= change_style_depth && !isComment()) || hasMultilineComment())
   {
-    out << the_upper_description << t_description << '{' << endl;
+    // the upper description is an indentation, possibly followed by the path of an enclosing tree
+    size_t indent_len = strspn(the_upper_description, " ");
+    out << the_upper_description << (the_upper_description[indent_len] ? "." : "") << t_description << '{' << endl;
+    the_upper_description[indent_len] = 0;
     if (m_this_attribute && strcmp(m_this_attribute, ""))
     {
       out << the_upper_description << ':' << m_this_attribute << endl;
@@ -1293,6 +1297,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
   buffer[1999] = 0;
   char *attribute, *line;
   AttributeTree *at = this;
+  std::vector<AttributeTree*> enclosing;
   int lineno = 1;
   bool last_line = false;
 
@@ -1404,6 +1409,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           }
           else
           {
+            enclosing.push_back(at);
             at = at->setAttribute(line, 0);
           }
         }
@@ -1412,7 +1418,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           attribute = strchr(line, '}');
           if (attribute)
           {
-            if (at == this)
+            if (enclosing.empty())
             {
               //LOCAL_PRINTF("AttributeTree::get >> found last '}'\n");
               return -1;
@@ -1420,11 +1426,8 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
             else
             {
               //LOCAL_PRINTF("AttributeTree::get >> found '}'\n");
-              if (!at->parentTree())
-              {
-                return lineno;
-              }
-              at = at->parentTree();
+              at = enclosing.back();
+              enclosing.pop_back();
             }
           }
           else
-- 
2.43.0


From eadd1fcfef9afe1d29d17387edd9822cfc02c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 25/60] fix: FilePath::normalizePath resolved ".." wrongly
 beside "..", "//" and at the start of relative paths

---
 .../src/icl_core_config/AttributeTree.cpp     | 55 ++++++-------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index bd4e46c..bccff74 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -132,7 +132,8 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
   {
     //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> SingleDots at begin '%s'\n",
     //         filename.c_str());
-    string temp_filename(filename, 2, string::npos);
+    string::size_type rest_start = filename.find_first_not_of(DSEP, 2);
+    string temp_filename(filename, rest_start != string::npos ? rest_start : filename.length(), string::npos);
     temp_filename.swap(filename);
   }
 #ifdef _SYSTEM_WIN32_
@@ -170,46 +171,25 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
     //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> DoubleDots '%s' found at %i\n",
     //         filename.c_str(), dot_start);
 
-    // Check if we can shorten the path.
-    slash_before_dot = filename.rfind(DSEP, dot_start - 1);
-    if (slash_before_dot != string::npos)
+    // Search the begin of the directory which is left.
+    slash_before_dot = dot_start > 0 ? filename.rfind(DSEP, dot_start - 1) : string::npos;
+    string::size_type directory_start = slash_before_dot != string::npos ? slash_before_dot + 1 : 0;
+    string directory(filename, directory_start, dot_start - directory_start);
+    if (directory.empty() || directory == ".." || directory[directory.length()-1] == ':')
     {
-      // OK to shorten?
-      if (filename[slash_before_dot+1] != DSEP && filename[slash_before_dot+1] != '.' &&
-          (slash_before_dot >= 1) ? filename[slash_before_dot-1] != ':' : 1)
-      {
-        dot_start += 3;
-        string temp_filename(filename, 0, slash_before_dot);
-        temp_filename.append(filename, dot_start, filename.length() - dot_start);
-        temp_filename.swap(filename);
-      }
-      else
-      {
-        break;
-      }
-
-      dot_start = slash_before_dot;
+      // There is nothing to leave, so the path can not be shortened here.
+      dot_start += 3;
     }
-    else if (dot_start > 0)
+    else
     {
-      string temp_filename;
-
-#ifdef _SYSTEM_WIN32_
-      // Add drive letter?
-      if (filename[1] = ':')
+      string::size_type rest_start = dot_start + 4;
+      while (directory_start == 0 && rest_start < filename.length() && filename[rest_start] == DSEP)
       {
-        temp_filename.append(filename, 0, 2);
+        // A relative path must not become an absolute one.
+        ++rest_start;
       }
-#endif
-      // Really??
-      dot_start += 2;
-      temp_filename.append(filename, dot_start, filename.length() - dot_start);
-      temp_filename.swap(filename);
-      dot_start = 0;
-    }
-    else
-    {
-      break;
+      filename.erase(directory_start, rest_start - directory_start);
+      dot_start = directory_start > 0 ? directory_start - 1 : 0;
     }
 
     dot_start = filename.find(string(1, DSEP) + ".." + DSEP, dot_start);
@@ -220,7 +200,8 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
   {
     //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> SingleDots at begin '%s'\n",
     //         filename.c_str());
-    string temp_filename(filename, 2, string::npos);
+    string::size_type rest_start = filename.find_first_not_of(DSEP, 2);
+    string temp_filename(filename, rest_start != string::npos ? rest_start : filename.length(), string::npos);
     temp_filename.swap(filename);
   }
 #ifdef _SYSTEM_WIN32_
-- 
2.43.0


From 2858346502ae260fa85db05141ce8ab52f976a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 26/60] fix: FilePath::extension() failed without extension

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index bccff74..2d65f3b 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -442,6 +442,11 @@ void FilePath::init(const char* filename)
   }
 
   m_file_name_extension_split = m_file.rfind('.');
+  if (m_file_name_extension_split == string::npos || m_file_name_extension_split < m_file_path_name_split)
+  {
+    // The file name has no extension.
+    m_file_name_extension_split = m_file.length();
+  }
 }
 
 
-- 
2.43.0


From 1b839a69cef45e6f481371e2504f6f0530263768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 27/60] fix: FilePath::replaceEnvironment hung on variables
 which contain themselves

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 2d65f3b..e9f82b8 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -281,10 +281,12 @@ icl_core::String FilePath::replaceEnvironment(const icl_core::String& _filename)
     string var_name(filename, dot_start, dot_end - dot_start);
     string temp_filename(filename, 0, dot_start - 2);
     temp_filename += getEnvironment(var_name);
+    // Values are not searched for further variables, a variable might contain itself.
+    string::size_type value_end = temp_filename.length();
     temp_filename += string(filename, dot_end + 1, string::npos);
     filename.swap(temp_filename);
 
-    dot_start = filename.find("${");
+    dot_start = filename.find("${", value_end);
   }
 
   //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::replaceEnvironment(%s) done (%s)\n",
-- 
2.43.0


From e64bfaec284bc95fa4f8495b4f49ffa9a7dc4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 28/60] fix: Getopt accepted long options with value without
 their value

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 9f04e5c..65a9840 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -151,7 +151,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         {
           // According to the regular expression the value has to be
           // the 3rd (and last) match result.
-          if (mres.size() == 4)
+          if (mres[2].matched)
           {
             m_param_opt[name] = mres[3];
           }
@@ -182,7 +182,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
             if (prefix_it->second.hasValue())
             {
-              if (mres.size() == 4)
+              if (mres[2].matched)
               {
                 m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
               }
-- 
2.43.0


From a24faac9b8ced796d21cbb0026d9855abe77169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 29/60] fix: Getopt never became initialized and parsed the
 command line again

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 65a9840..ed1c15f 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -369,6 +369,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
     }
   }
 
+  m_initialized = true;
   return true;
 }
 
-- 
2.43.0


From 0d64d525cc5fce5ee06fa89b89cd1359717fca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:56 +0000
Subject: [PATCH 30/60] fix: Getopt cleanup kept consumed arguments which equal
 a non-option parameter

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index ed1c15f..a205707 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -128,6 +128,8 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
   // Scan the commandline parameters and check for
   // registered options.
+  icl_core::List<icl_core::String>::const_iterator first_arg = arguments.begin();
+  icl_core::Vector<char*> non_opt_argv;
   size_t positional_parameters_counter = 0;
   bool extra_cmd_params_reached = false;
   boost::regex long_opt_regex("--([^-][^=]*)(=(.*))?");
@@ -212,6 +214,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            non_opt_argv.push_back(argv[1 + std::distance(first_arg, arg_it)]);
           }
         }
       }
@@ -290,6 +293,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            non_opt_argv.push_back(argv[1 + std::distance(first_arg, arg_it)]);
           }
         }
       }
@@ -327,6 +331,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 //      else
       {
         m_param_non_opt.push_back(*arg_it);
+        non_opt_argv.push_back(argv[1 + std::distance(first_arg, arg_it)]);
       }
     }
   }
@@ -352,9 +357,10 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
     int check = 1;
     while (check < argc)
     {
-      icl_core::Vector<icl_core::String>::const_iterator find_it =
-        std::find(m_param_non_opt.begin(), m_param_non_opt.end(), icl_core::String(argv[check]));
-      if (find_it == m_param_non_opt.end())
+      // Another argument may have the same text, so compare the pointers.
+      icl_core::Vector<char*>::const_iterator find_it =
+        std::find(non_opt_argv.begin(), non_opt_argv.end(), argv[check]);
+      if (find_it == non_opt_argv.end())
       {
         for (int move = check + 1; move < argc; ++move)
         {
-- 
2.43.0


From f1ae4103f26d68c2150a003760a028fc227d18a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:28 +0000
Subject: [PATCH 31/60] fix: typed configuration access accepted invalid
 numbers and cut strings at white space

---
 src/icl_core/src/icl_core_config/Util.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index fac3669..c445bb5 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -36,6 +36,23 @@ namespace config {
 //! Namespace for internal implementation details.
 namespace impl {
 
+//! Extracts the value of a lexical cast, throws if there is none.
+template <typename T>
+void hexical_extract(std::stringstream& interpreter, T& result)
+{
+  if (!(interpreter >> result))
+  {
+    throw std::invalid_argument("Not a valid value: " + interpreter.str());
+  }
+}
+
+//! Strings are taken as a whole.
+inline
+void hexical_extract(std::stringstream& interpreter, std::string& result)
+{
+  result = interpreter.str();
+}
+
 /*! Lexical cast which handles hexadecimal and octal numbers
  *  correctly.
  */
@@ -46,7 +63,7 @@ T hexical_cast(U input)
   interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
   interpreter << input;
   T result;
-  interpreter >> result;
+  hexical_extract(interpreter, result);
   return result;
 }
 
-- 
2.43.0


From 1e0e184c147a3bf5326622d7d5899d79064914f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:00 +0000
Subject: [PATCH 32/60] fix: terminate the fields of a log message which have
 been cut

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index ddd5366..6970927 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -675,6 +675,14 @@ LogOutputStream::LogMessage::LogMessage(const icl_core::TimeStamp& timestamp,
   std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH+1);
   std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH+1);
   std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE+1);
+
+  // strncpy() does not terminate a text which has been cut.
+  LogMessage::log_stream[cMAX_IDENTIFIER_LENGTH] = 0;
+  LogMessage::filename[cMAX_DESCRIPTION_LENGTH] = 0;
+  LogMessage::class_name[cMAX_IDENTIFIER_LENGTH] = 0;
+  LogMessage::object_name[cMAX_DESCRIPTION_LENGTH] = 0;
+  LogMessage::function_name[cMAX_IDENTIFIER_LENGTH] = 0;
+  LogMessage::message_text[cDEFAULT_LOG_SIZE] = 0;
 }
 
 }
-- 
2.43.0


From 6df4088281c5213defbb029c320962500d61e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:00 +0000
Subject: [PATCH 33/60] fix: a new log thread stream has no file and object
 name

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 80ef7f0..b973746 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -154,6 +154,8 @@ ThreadStream::ThreadStream(LogStream *parent)
     m_write_index(0)
 {
   memset(m_classname, 0, cDEFAULT_LOG_SIZE + 1);
+  memset(m_filename, 0, cDEFAULT_LOG_SIZE + 1);
+  memset(m_objectname, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_function, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_data, 0, cDEFAULT_LOG_SIZE + 1);
 }
-- 
2.43.0


From 335506853424499a00a1466f2a98dd5c821ee69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 34/60] fix: finish with a log thread stream before another
 thread may take it over

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index b973746..3265d56 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -125,6 +125,8 @@ void ThreadStream::printf(const char *fmt, ...)
 void ThreadStream::flush()
 {
   m_data[m_write_index] = '\0';
+  // Other threads may take over this thread stream as soon as it has been released.
+  m_write_index = 0;
   if (m_parent->m_mutex.wait())
   {
     for (std::set<LogOutputStream*>::const_iterator iter = m_parent->m_output_stream_list.begin();
@@ -143,7 +145,6 @@ void ThreadStream::flush()
   {
     PRINTF("ThreadStream(%s)::Flush: mutex lock failed\n", m_parent->nameCStr());
   }
-  m_write_index = 0;
 }
 
 ThreadStream::ThreadStream(LogStream *parent)
-- 
2.43.0


From 25c0a114812d46f2e601d20aa1c65dc2e9712eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 35/60] fix: reset the details of a log entry after it has been
 flushed, as documented

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 3265d56..6cac877 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -137,6 +137,13 @@ void ThreadStream::flush()
                     m_classname, m_objectname, m_function, m_data);
     }
 
+    // The details only apply to the current log entry.
+    m_classname[0] = '\0';
+    m_objectname[0] = '\0';
+    m_filename[0] = '\0';
+    m_function[0] = '\0';
+    m_line = 0;
+
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
-- 
2.43.0


From caa5c52f56a58f559f294cb0a97f8e7dd077e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 36/60] fix: large enough buffer for logging a double

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 6cac877..f505ef1 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -277,8 +277,9 @@ ThreadStream& operator << (ThreadStream& stream, const std::string& text)
 
 ThreadStream& operator << (ThreadStream& stream, double value)
 {
-  char local_buffer[100];
-  size_t length = os::snprintf(local_buffer, 100, "%f", value);
+  // The largest double has 309 digits before the decimal point.
+  char local_buffer[320];
+  size_t length = os::snprintf(local_buffer, 320, "%f", value);
   stream.write(local_buffer, length);
   return stream;
 }
-- 
2.43.0


From 7478d2859d0638b8b595437acaf3174e02f74010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 37/60] fix: text of any length in a log format

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 10 +++-------
 src/icl_core/src/icl_core_logging/LogOutputStream.h   |  3 +--
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 6970927..2945829 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -407,13 +407,11 @@ void LogOutputStream::parseLogFormat(const char *format)
     }
 
     // Read optional prefix text.
-    char *prefix_ptr = new_entry.text;
     while (format[0] != 0 && format[0] != 'C' && format[0] != 'O' && format[0] != 'D'
            && format[0] != 'E' && format[0] != 'F' && format[0] != 'G' && format[0] != 'L'
            && format[0] != 'S' && format[0] != 'T' && format[0] != 'M')
     {
-      *prefix_ptr = format[0];
-      ++prefix_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
@@ -480,15 +478,13 @@ void LogOutputStream::parseLogFormat(const char *format)
   }
   else
   {
-    char *text_ptr = new_entry.text;
     while (format[0] != '~' && format[0] != 0)
     {
-      *text_ptr = format[0];
-      ++text_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
-    if (new_entry.text[0] != 0)
+    if (!new_entry.text.empty())
     {
       m_new_log_format.push_back(new_entry);
     }
diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.h b/src/icl_core/src/icl_core_logging/LogOutputStream.h
index 491154c..da65a82 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.h
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.h
@@ -327,13 +327,12 @@ private:
     LogFormatEntry()
       : type(eT_TEXT), width(0)
     {
-      icl_core::os::memset(text, 0, 100);
       icl_core::os::memset(suffix, 0, 100);
     }
 
     EntryType type;
     size_t width;
-    char text[100];
+    icl_core::String text;
     char suffix[100];
   };
 
-- 
2.43.0


From 71620299c35e125ed060d5d2e417fdc982404654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:28 +0000
Subject: [PATCH 38/60] fix: do not read beyond an unfinished field at the end
 of a log format

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 2945829..65f6058 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -472,9 +472,8 @@ void LogOutputStream::parseLogFormat(const char *format)
     if (format[0] != 0)
     {
       m_new_log_format.push_back(new_entry);
+      ++format;
     }
-
-    ++format;
   }
   else
   {
-- 
2.43.0


From 782b01655c64623eadba7a483a9e0d234e838d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 39/60] fix: logging::Thread::join() of a thread which just
 finished

---
 src/icl_core/src/icl_core_logging/Thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/Thread.cpp b/src/icl_core/src/icl_core_logging/Thread.cpp
index 4a26fb4..5c27cc5 100644
--- a/src/icl_core/src/icl_core_logging/Thread.cpp
+++ b/src/icl_core/src/icl_core_logging/Thread.cpp
@@ -83,7 +83,9 @@ Thread::~Thread()
 
 void Thread::join()
 {
-  if (running())
+  // The system thread has to be joined even if it already finished, so
+  // that its resources are released and it is really gone afterwards.
+  if (!m_joined)
   {
     m_impl->join();
   }
-- 
2.43.0


From fc09f844969f9fd132eca500b18d2c569b4eced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:13 +0000
Subject: [PATCH 40/60] fix: a signal while waiting for a logging semaphore
 made log messages vanish

---
 src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
index 9d23ad7..cf212d2 100644
--- a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
+++ b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
@@ -50,7 +50,13 @@ void SemaphoreImplPosix::post()
 
 bool SemaphoreImplPosix::wait()
 {
-  int res = sem_wait(m_semaphore);
+  int res = 0;
+  do
+  {
+    res = sem_wait(m_semaphore);
+  }
+  // A signal handler which interrupts the waiting must not make log messages vanish.
+  while (res != 0 && errno == EINTR);
   return (res == 0);
 }
 
-- 
2.43.0


From 40ee13f847aaae68fdf7cbbb67ff831afb4e0056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:13 +0000
Subject: [PATCH 41/60] fix: quotes in messages which are sent to the UDP
 logging server

---
 src/icl_core/src/icl_core_logging/UdpLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 67f3675..8e196ef 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -124,7 +124,7 @@ icl_core::String UdpLogOutput::escape(icl_core::String str) const
 {
   // TODO: Which characters have to be escaped to ensure that a
   // correct SQL statement is created?
-  str = boost::regex_replace(str, boost::regex("'"), "\\'");
+  str = boost::regex_replace(str, boost::regex("'"), "''");
   //str = boost::regex_replace(str, boost::regex("\\n"), "\\\\n");
   return str;
 }
-- 
2.43.0


From b11a426895911c84c8e421b3dae9fc935ff80e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:13 +0000
Subject: [PATCH 42/60] fix: zipFile() reported success if a file could not be
 opened, read or completed

---
 src/icl_core/src/icl_core/os_fs.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/os_fs.cpp b/src/icl_core/src/icl_core/os_fs.cpp
index 60d0ebf..0edc337 100644
--- a/src/icl_core/src/icl_core/os_fs.cpp
+++ b/src/icl_core/src/icl_core/os_fs.cpp
@@ -59,15 +59,25 @@ bool zipFile(const char *filename, const char *additional_extension)
 
       bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
     }
+    if (bytes_read < 0)
+    {
+      std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on reading." << std::endl;
+      ret = false;
+    }
+  }
+  else
+  {
+    ret = false;
   }
 
   if (unzipped_file != NULL)
   {
     gzclose(unzipped_file);
   }
-  if (zipped_file != NULL)
+  // The last data may only be written here.
+  if (zipped_file != NULL && gzclose(zipped_file) != Z_OK)
   {
-    gzclose(zipped_file);
+    ret = false;
   }
 
   return ret;
-- 
2.43.0


From e166f40e18c15bf6fa275abfa1d4aea5caaa0114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:13 +0000
Subject: [PATCH 43/60] fix: rotating a log file deleted it even if it could
 not be archived

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index c6cbfdb..2a7a01e 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -252,8 +252,11 @@ void FileLogOutput::rotateLogFile()
 #ifdef _IC_BUILDER_ZLIB_
       if (!m_online_zip)
       {
-        icl_core::os::zipFile(m_filename.c_str(), time_str);
-        icl_core::os::unlink(m_filename.c_str());
+        // Keep the log file if it could not be archived.
+        if (icl_core::os::zipFile(m_filename.c_str(), time_str))
+        {
+          icl_core::os::unlink(m_filename.c_str());
+        }
       }
       else
 #endif
-- 
2.43.0


From bef374aaf6bfc84a532ceb2169678205996c658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:38 +0000
Subject: [PATCH 44/60] fix: log streams were used after they had been deleted
 by a shutdown

---
 src/icl_core/src/icl_core_logging/Logging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/Logging.h b/src/icl_core/src/icl_core_logging/Logging.h
index db74997..7af3bb6 100644
--- a/src/icl_core/src/icl_core_logging/Logging.h
+++ b/src/icl_core/src/icl_core_logging/Logging.h
@@ -68,7 +68,7 @@
     name()                                                         \
       : LogStream(#name)                                           \
     { }                                                            \
-    ~name() { }                                                    \
+    ~name() { m_instance = NULL; }                                 \
     static name *m_instance;                                       \
     friend class ::icl_core::logging::LoggingManager;              \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;  \
@@ -87,7 +87,7 @@
     name()                                                              \
       : LogStream(#name)                                                \
     { }                                                                 \
-    ~name() { }                                                         \
+    ~name() { m_instance = NULL; }                                      \
     static name *m_instance;                                            \
     friend class ::icl_core::logging::LoggingManager;                   \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;       \
-- 
2.43.0


From f47f0cd4ccc69e2ca7a22eefe075028219e84a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 45/60] fix: a disabled performance monitor does not collect
 data when all prefixes are enabled

---
 .../src/icl_core_performance_monitor/PerformanceMonitor.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index b5069db..4ada3ff 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -77,7 +77,7 @@ void PerformanceMonitor::initialize(const uint32_t num_names, const uint32_t num
 
 bool PerformanceMonitor::isEnabled(string prefix)
 {
-  return (m_enabled && m_enabled_prefix.find(prefix) != m_enabled_prefix.end()) || m_all_enabled;
+  return m_enabled && (m_all_enabled || m_enabled_prefix.find(prefix) != m_enabled_prefix.end());
 }
 
 void PerformanceMonitor::start(string timer_name)
-- 
2.43.0


From d2b6c0db272c41ebbb179f58c48acf347fc38aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:10 +0000
Subject: [PATCH 46/60] fix: the summary of a name without measurements read
 outside its data

---
 .../PerformanceMonitor.cpp                      | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index 4ada3ff..bcc0d33 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -381,7 +381,8 @@ double PerformanceMonitor::getAverage(string name)
   int n = (int) m_data[name].size();
   for (int i = 0; i < n; ++i)
     avg = avg + tmp->at(i);
-  avg = avg / n;
+  if (n > 0)
+    avg = avg / n;
   return avg;
 }
 
@@ -392,13 +393,19 @@ double PerformanceMonitor::getAverageNonTime(string name)
   int n = (int) m_data_nontime[name].size();
   for (int i = 0; i < n; ++i)
     avg = avg + tmp->at(i);
-  avg = avg / n;
+  if (n > 0)
+    avg = avg / n;
   return avg;
 }
 
 void PerformanceMonitor::getMedian(string name, double& median, double& min, double& max)
 {
   vector<double> tmp = m_data[name];
+  if (tmp.empty())
+  {
+    median = min = max = 0;
+    return;
+  }
   sort(tmp.begin(), tmp.end());
   median = tmp[tmp.size() / 2];
   min = tmp[0];
@@ -408,8 +415,12 @@ void PerformanceMonitor::getMedian(string name, double& median, double& min, dou
 void PerformanceMonitor::getMedianNonTime(string name, double& median, double& min, double& max)
 {
   vector<double> tmp = m_data_nontime[name];
+  if (tmp.empty())
+  {
+    median = min = max = 0;
+    return;
+  }
   sort(tmp.begin(), tmp.end());
-  if (tmp.size() > 0)
   median = tmp[tmp.size() / 2];
   min = tmp[0];
   max = tmp[tmp.size() - 1];
-- 
2.43.0


From 44e3ae93ddc4cef539e8b7aaf0175eb73d165cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:32 +0000
Subject: [PATCH 47/60] fix: adding an operation to a running dispatcher was a
 data race

---
 .../src/icl_core_dispatch/PeriodicDispatchThread.cpp  | 11 ++++++++++-
 .../src/icl_core_dispatch/PeriodicDispatchThread.h    |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
index 1986b4a..0b907ae 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
@@ -23,6 +23,7 @@
 #include "icl_core_dispatch/PeriodicDispatchThread.h"
 
 #include "icl_core_dispatch/Operation.h"
+#include "icl_core_thread/ScopedMutexLock.h"
 
 #include <boost/foreach.hpp>
 
@@ -44,6 +45,7 @@ PeriodicDispatchThread::~PeriodicDispatchThread()
 
 void PeriodicDispatchThread::addOperation(Operation *op)
 {
+  icl_core::thread::ScopedMutexLock lock(m_dispatch_queue_mutex);
   m_dispatch_queue.push_back(op);
 }
 
@@ -51,7 +53,14 @@ void PeriodicDispatchThread::run()
 {
   while (execute())
   {
-    BOOST_FOREACH (Operation *op, m_dispatch_queue)
+    // Operations may be added while the queue is being executed.
+    icl_core::List<Operation*> operations;
+    {
+      icl_core::thread::ScopedMutexLock lock(m_dispatch_queue_mutex);
+      operations = m_dispatch_queue;
+    }
+
+    BOOST_FOREACH (Operation *op, operations)
     {
       op->execute();
     }
diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
index 61e2f7e..5d2d0ca 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
@@ -25,6 +25,7 @@
 
 #include "icl_core/List.h"
 #include "icl_core_dispatch/ImportExport.h"
+#include "icl_core_thread/Mutex.h"
 #include "icl_core_thread/PeriodicThread.h"
 
 namespace icl_core {
@@ -56,6 +57,8 @@ private:
   virtual void run();
 
   icl_core::List<Operation*> m_dispatch_queue;
+  //! Protects the dispatch queue.
+  icl_core::thread::Mutex m_dispatch_queue_mutex;
 };
 
 }
-- 
2.43.0


From 58619ad81afcc55decc14185401d71c803282f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:23 +0000
Subject: [PATCH 48/60] fix: asking for an unknown plugin added it to the
 available plugins

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 1e4c368..c3fcecc 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -206,7 +206,8 @@ public:
       return m_static_plugins[identifier];
     }
 
-    return m_loaded_plugins[identifier];
+    typename std::map<std::string, T*>::const_iterator iter = m_loaded_plugins.find(identifier);
+    return iter != m_loaded_plugins.end() ? iter->second : NULL;
   }
 
   /*! Create a new plugin instance.
@@ -224,7 +225,9 @@ public:
       loadPlugins();
     }
 
-    PluginHandle plugin_handle = m_plugin_handles[identifier];
+    typename std::map<std::string, PluginHandle>::const_iterator iter
+      = m_plugin_handles.find(identifier);
+    PluginHandle plugin_handle = iter != m_plugin_handles.end() ? iter->second : NULL;
     return loadPluginInstance(plugin_handle, identifier);
   }
 
-- 
2.43.0


From 5bcc67f7c7d8721a8de24e59ec92583faf0b9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:23 +0000
Subject: [PATCH 49/60] fix: plugins without an instance were listed as NULL

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index c3fcecc..bb065b6 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -510,7 +510,11 @@ protected:
     {
       if (m_loaded_plugins.find(iter->first) == m_loaded_plugins.end())
       {
-        m_loaded_plugins[iter->first] = createPluginInstance(iter->first);
+        T* plugin_instance = createPluginInstance(iter->first);
+        if (plugin_instance)
+        {
+          m_loaded_plugins[iter->first] = plugin_instance;
+        }
       }
     }
 
-- 
2.43.0


From 1df3d50f291a839365f995a1a16364f885c77113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:23 +0000
Subject: [PATCH 50/60] fix: files which are no libraries were mistaken for
 plugins of the program

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index bb065b6..5bcf2f7 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -437,6 +437,18 @@ protected:
 #endif
 
     PluginHandle plugin_handle = dlopen(plugin.c_str(), RTLD_LAZY);
+#ifndef _WIN32
+    if (!plugin_handle)
+    {
+      // Looking up symbols in a NULL handle would search the program itself.
+      const char* dlopen_error = dlerror();
+      std::ostringstream error;
+      error << "Cannot load plugin " << plugin << ": " << (dlopen_error ? dlopen_error : "");
+      addErrorMessage(error.str());
+      LOGGING_ERROR(Plugin, error.str() << icl_core::logging::endl);
+      return;
+    }
+#endif
 
     dlerror(); // Clear any previous errors.
     typename T::identifier* get_identifier
-- 
2.43.0


From 856c60516700a4d0ec81efcb0e80dc19415afd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:23 +0000
Subject: [PATCH 51/60] fix: plugins without a managed instance were not
 closed, and the name of a plugin was used after it had been removed

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 5bcf2f7..c6ada82 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -62,9 +62,11 @@ class PluginManager: public PluginManagerBase
 public:
   ~PluginManager()
   {
-    while (!m_plugin_handles.empty() && !m_loaded_plugins.empty())
+    while (!m_plugin_handles.empty())
     {
-      closePluginHandle(m_loaded_plugins.begin()->first);
+      // A copy, because the entry is removed.
+      const std::string identifier = m_plugin_handles.begin()->first;
+      closePluginHandle(identifier);
     }
 
     static PluginManager<T, plugin_dir>* m_instance;
-- 
2.43.0


From 2f01beec9ed8bb06c2e1f8cf5a8e05c6f9934012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:57 +0000
Subject: [PATCH 52/60] fix: a deleted plugin manager was still returned as the
 instance

---
 .../src/icl_core_plugin/PluginManager.h       | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index c6ada82..10553d9 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -69,24 +69,22 @@ public:
       closePluginHandle(identifier);
     }
 
-    static PluginManager<T, plugin_dir>* m_instance;
-    m_instance = 0;
-    (void) m_instance;
+    if (instancePointer() == this)
+    {
+      instancePointer() = 0;
+    }
   }
 
   //! Singleton instance accessor.
   static PluginManager<T, plugin_dir> *instance()
   {
-    //! Singleton instance.
-    static PluginManager<T, plugin_dir> *m_instance = 0;
-
-    if (!m_instance)
+    if (!instancePointer())
     {
-      m_instance = new PluginManager<T, plugin_dir>();
+      instancePointer() = new PluginManager<T, plugin_dir>();
     }
 
-    assert(m_instance);
-    return m_instance;
+    assert(instancePointer());
+    return instancePointer();
   }
 
   //! Initializes the PluginManager.
@@ -347,6 +345,13 @@ public:
   /////////////////////////////////////////////////
 
 protected:
+  //! Singleton instance.
+  static PluginManager<T, plugin_dir> *&instancePointer()
+  {
+    static PluginManager<T, plugin_dir> *m_instance = 0;
+    return m_instance;
+  }
+
   //! Protected default constructor.
   PluginManager()
     : PluginManagerBase(plugin_dir),
-- 
2.43.0


From 742d4e6275dbf7ef391e9d8144bf2f00437efa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 53/60] fix: plugin files which were not used were never closed

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 10553d9..4901f7d 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -493,6 +493,7 @@ protected:
       LOGGING_ERROR(Plugin, error.str() << icl_core::logging::endl);
       // cannot find symbol
 #endif // _WIN32
+      dlclose(plugin_handle);
     }
     else
     {
@@ -502,15 +503,22 @@ protected:
         error << "Identifier or basetype method missing in plugin " << plugin;
         addErrorMessage(error.str());
         LOGGING_ERROR(Plugin, error.str() << icl_core::logging::endl);
+        dlclose(plugin_handle);
       }
       else if (strcmp(get_basetype(), typeid(T).name()) != 0)
       {
         LOGGING_WARNING(Plugin, "Plugin type mismatch: Exptected " << typeid(T).name()
                         << ", got " << get_basetype() << icl_core::logging::endl);
+        dlclose(plugin_handle);
       }
       else
       {
-        m_plugin_handles[get_identifier()] = plugin_handle;
+        PluginHandle &entry = m_plugin_handles[get_identifier()];
+        if (entry)
+        {
+          dlclose(entry);
+        }
+        entry = plugin_handle;
         LOGGING_DEBUG(Plugin, "Initialized plugin " << get_identifier() << " of basetype "
                       << get_basetype() << icl_core::logging::endl);
       }
-- 
2.43.0


From 4c953605be2b0dc8a5e8b412f77432df032ce1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:42 +0000
Subject: [PATCH 54/60] fix: parsing a scheme left scheme, name and anchor of
 the one parsed before

---
 src/icl_core/src/icl_core/SchemeParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core/SchemeParser.cpp b/src/icl_core/src/icl_core/SchemeParser.cpp
index a30c605..23b7c71 100644
--- a/src/icl_core/src/icl_core/SchemeParser.cpp
+++ b/src/icl_core/src/icl_core/SchemeParser.cpp
@@ -193,6 +193,11 @@ bool SchemeParser::parseScheme(const String &str, Scheme &scheme_handler,
   // scheme rule
   rule<> scheme_rule = !scheme_p[addScheme] >> specifier_p[addSpecifier] >> !anchor_p >> !query_p;
 
+  // Optional parts must not be left over from an earlier parse.
+  scheme_handler.scheme_type = OtherScheme;
+  scheme_handler.scheme_name.clear();
+  scheme_handler.specifier.clear();
+  scheme_handler.anchor.clear();
   scheme_handler.queries.clear();
   info = parse(str.c_str(), scheme_rule);
 
-- 
2.43.0


From c8f2c9cfa9fcc4e0bff58ec4ae52bea22d8d4f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:42 +0000
Subject: [PATCH 55/60] fix: asking for another query result after the last one
 left the directory

---
 src/icl_core/src/icl_core/KeyValueDirectory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/KeyValueDirectory.hpp b/src/icl_core/src/icl_core/KeyValueDirectory.hpp
index d021f6d..b33c5d1 100644
--- a/src/icl_core/src/icl_core/KeyValueDirectory.hpp
+++ b/src/icl_core/src/icl_core/KeyValueDirectory.hpp
@@ -106,7 +106,7 @@ bool KeyValueDirectoryIterator<T>::next()
     m_current_entry = m_directory->m_items.begin();
   }
   // Otherwise move to the next iterator position.
-  else
+  else if (m_current_entry != m_directory->m_items.end())
   {
     ++m_current_entry;
   }
-- 
2.43.0


From e3ee37f62899d472cd6ae4b5532c7d6a49005771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:22 +0000
Subject: [PATCH 56/60] fix: singletons created using malloc were neither
 constructed nor destroyed

---
 .../src/icl_core/SingletonCreationPolicies.h  | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/SingletonCreationPolicies.h b/src/icl_core/src/icl_core/SingletonCreationPolicies.h
index 1345e2d..18c466c 100644
--- a/src/icl_core/src/icl_core/SingletonCreationPolicies.h
+++ b/src/icl_core/src/icl_core/SingletonCreationPolicies.h
@@ -31,6 +31,7 @@
 #define ICL_CORE_SINGLETON_CREATION_POLICIES_H_INCLUDED
 
 #include <stdlib.h>
+#include <new>
 
 namespace icl_core {
 
@@ -76,12 +77,29 @@ class SCPCreateUsingMalloc
 public:
   static T *create()
   {
-    return static_cast<T *>(malloc(sizeof(T)));
+    void *memory = malloc(sizeof(T));
+    if (memory == NULL)
+    {
+      throw std::bad_alloc();
+    }
+    try
+    {
+      return new (memory) T;
+    }
+    catch (...)
+    {
+      free(memory);
+      throw;
+    }
   }
 
   static void destroy(T *object)
   {
-    free(object);
+    if (object != NULL)
+    {
+      object->~T();
+      free(object);
+    }
   }
 };
 
-- 
2.43.0


From edf4e2f11c66c5220beb0019fe279ea5c0a8dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:52 +0000
Subject: [PATCH 57/60] fix: the global log level was not applied to the
 default log output

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index c267252..52429c0 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -300,6 +300,11 @@ void LoggingManager::setLogLevel(icl_core::logging::LogLevel log_level)
   {
     los_it->second->setLogLevel(log_level);
   }
+
+  if (m_default_log_output != NULL)
+  {
+    m_default_log_output->setLogLevel(log_level);
+  }
 }
 
 void LoggingManager::assertInitialized() const
-- 
2.43.0


From b5594d9260c1cee8e49b72992f1977e6523b45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:52 +0000
Subject: [PATCH 58/60] fix: a config observer's key was used as a regular
 expression when it was registered

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 673c78b..e680023 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -309,7 +309,7 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
       observer->valueChanged(iter.key());
     }
   }
-  else if (find(key).next())
+  else if (hasKey(key))
   {
     observer->valueChanged(key);
   }
-- 
2.43.0


From 30991f1b14e9d2c86e14ebaf9208e54b7fa40100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:39 +0000
Subject: [PATCH 59/60] fix: a compressed log file could not be opened, since
 zlib refuses to open a file for reading and writing

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 2a7a01e..294096b 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -208,7 +208,7 @@ void FileLogOutput::openLogFile()
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-    m_zipped_log_file = gzopen(m_filename.c_str(), "a+b");
+    m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
     if (m_zipped_log_file == NULL)
     {
       std::cerr << "Could not open log file " << m_filename << std::endl;
-- 
2.43.0


From ebd36699ca5019b9a9b825430252cc6f831271c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:18 +0000
Subject: [PATCH 60/60] fix: the worker thread of a log output read its message
 queue without holding the mutex

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 45 ++++++++-----------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 65f6058..4cfcabe 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -563,38 +563,31 @@ void LogOutputStream::WorkerThread::run()
   {
     if (m_fill_count->wait())
     {
-#ifdef ICL_CORE_LOG_OUTPUT_STREAM_USE_FIXED_QUEUE
-      if (!isMessageQueueEmpty())
-#else
-      if (!m_message_queue.empty())
-#endif
+      if (m_mutex->wait())
       {
-        if (m_mutex->wait())
-        {
-          LogMessage log_message;
-          bool push = false;
+        LogMessage log_message;
+        bool push = false;
 #ifdef ICL_CORE_LOG_OUTPUT_STREAM_USE_FIXED_QUEUE
-          if (!isMessageQueueEmpty())
-          {
-            log_message = m_message_queue[m_message_queue_read_index];
-            incrementIndex(m_message_queue_read_index);
-            push = true;
-          }
+        if (!isMessageQueueEmpty())
+        {
+          log_message = m_message_queue[m_message_queue_read_index];
+          incrementIndex(m_message_queue_read_index);
+          push = true;
+        }
 #else
-          if (!m_message_queue.empty())
-          {
-            log_message = m_message_queue.front();
-            m_message_queue.pop();
-            push = true;
-          }
+        if (!m_message_queue.empty())
+        {
+          log_message = m_message_queue.front();
+          m_message_queue.pop();
+          push = true;
+        }
 #endif
 
-          m_mutex->post();
+        m_mutex->post();
 
-          if (push)
-          {
-            m_output_stream->pushImpl(log_message);
-          }
+        if (push)
+        {
+          m_output_stream->pushImpl(log_message);
         }
       }
     }
-- 
2.43.0

