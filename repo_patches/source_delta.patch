From b7267068a5f3c0d5008379ddda3e1a93b6115ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 01/29] fix: scheduler with sub-queue size 1 and one thread
 never executed anything

The pending and waiting queues were processed with '++batch < maxBatch', so a
batch size of 1 meant no task was ever moved to the ready queue, and the worker
was spinning forever.
---
 src/mg/sch/TaskScheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e19518d..c4c9ee7 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -169,7 +169,7 @@ namespace sch {
 		// the front queue, so must be handled first.
 
 		batch = 0;
-		while (myQueueWaiting.Count() > 0 && ++batch < maxBatch)
+		while (myQueueWaiting.Count() > 0 && batch++ < maxBatch)
 		{
 			t = myQueueWaiting.GetTop();
 			if (t->myDeadline > timestamp)
@@ -214,7 +214,7 @@ namespace sch {
 		t = myQueueFront.PopAll(tail);
 		myQueuePending.Append(t, tail);
 		batch = 0;
-		while (!myQueuePending.IsEmpty() && ++batch < maxBatch)
+		while (!myQueuePending.IsEmpty() && batch++ < maxBatch)
 		{
 			t = myQueuePending.PopFirst();
 			t->myNext = nullptr;
-- 
2.43.0


From cb766bbed79d3f1ffc3bf09dc4e80dcc9375c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 02/29] fix: scheduler IsEmpty() could return true while a task
 was executed

A worker could be seen idle, then wake up and pop the last ready task before
the ready queue itself was checked. Check the queue before the workers.
---
 src/mg/sch/TaskScheduler.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index c4c9ee7..846a4d7 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -49,6 +49,15 @@ namespace sch {
 	TaskScheduler::IsEmpty()
 	{
 		PrivSchedulerLock();
+		// The ready queue must be checked before the workers. It can't grow while the
+		// lock is held. When it is empty, the tasks taken from it are executed by the
+		// workers which are not idle. If the workers would be checked first, then an idle
+		// one could wake up right after its check, and pop the last ready task.
+		if (myQueueReady.Count() != 0)
+		{
+			PrivSchedulerUnlock();
+			return false;
+		}
 		for (TaskSchedulerThread* worker : myThreads)
 		{
 			// It is important to check the worker states. Even if all the queues are
@@ -64,8 +73,7 @@ namespace sch {
 		bool isEmpty =
 			myQueueFront.IsEmpty() &&
 			myQueueWaiting.Count() == 0 &&
-			myQueuePending.IsEmpty() &&
-			myQueueReady.Count() == 0;
+			myQueuePending.IsEmpty();
 		PrivSchedulerUnlock();
 		return isEmpty;
 	}
-- 
2.43.0


From 8138a3d6d652c1bd76d753fb58ce9f3c1774331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 03/29] fix: move-assignment of a shared pointer leaked a
 reference

When both pointers referenced the same object, the source's reference was
taken over, but the target's old one was not dropped.
---
 src/mg/box/SharedPtr.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/box/SharedPtr.h b/src/mg/box/SharedPtr.h
index 6bae606..562886e 100644
--- a/src/mg/box/SharedPtr.h
+++ b/src/mg/box/SharedPtr.h
@@ -229,12 +229,13 @@ protected:																					\
 		// being deleted. This in turn will delete obj2, which was kept alive only by
 		// obj1. The new pointer becomes garbage. Need to steal the pointer first. So obj1
 		// is deleted, but its 'myNext' is already null.
+		if (this == &aOther)
+			return *this;
 		T* oldObj = myObject;
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
@@ -249,8 +250,7 @@ protected:																					\
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
-- 
2.43.0


From ebba4e393553dfd76efb077f9fd6499f4dc18270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 04/29] fix: an infinite timed wait on a condition variable
 ended at once

The infinite limit (and any other huge one) overflowed the nanoseconds of the
standard clock, so the wait reported a timeout instantly.
---
 src/mg/box/ConditionVariable.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 7f20b11..d364f0b 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -35,8 +35,15 @@ namespace box {
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
-		bool ok = myHandle.wait_for(aMutex.myHandle,
-			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		bool ok = true;
+		// The standard clocks count nanoseconds in a signed 64-bit number. A
+		// too long timeout would overflow and expire right away.
+		constexpr uint64_t maxTimeout = 1000ULL * 3600 * 24 * 365 * 100;
+		if (timeout > maxTimeout)
+			myHandle.wait(aMutex.myHandle);
+		else
+			ok = myHandle.wait_for(aMutex.myHandle,
+				std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
 
 		MG_BOX_ASSERT(aMutex.myOwner == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-- 
2.43.0


From 45651e876a7a8156ad41ecb546e83e9ed0971e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:25 +0000
Subject: [PATCH 05/29] fix: buffer stream lost the reserved buffers on a
 copying write

WriteCopy() which did not fit into the first writable buffer ignored
the other buffers reserved by EnsureWriteSize(). It appended a new one
after them, so the stream had a hole, and the sizes were wrong.
---
 src/mg/net/Buffer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 682760e..7664516 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -196,16 +196,20 @@ namespace net {
 			}
 			memcpy(myWPos->myWData + myWPos->myPos, aData, cap);
 			myWPos->myPos = myWPos->myCapacity;
+			myREnd = myWPos;
+			// More buffers could be reserved after this one.
+			myWPos = myWPos->myNext.GetPointer();
+			myWSize -= cap;
 			if (cap == aSize)
 			{
-				myREnd = myWPos;
-				myWPos = nullptr;
-				myWSize = 0;
 				PrivCheck();
 				return;
 			}
 			aData = (const uint8_t*)aData + cap;
 			aSize -= cap;
+			if (myWPos != nullptr)
+				continue;
+			MG_DEV_ASSERT(myWSize == 0);
 			MG_DEV_ASSERT(myHead.IsSet());
 			MG_DEV_ASSERT(myTail->myPos == myTail->myCapacity);
 			myTail = (myTail->myNext = BufferCopy::NewShared()).GetPointer();
-- 
2.43.0


From ad884182dd644416404d2d853856207a1eba8609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:44 +0000
Subject: [PATCH 06/29] fix: empty propagation of a buffer stream's write
 position broke it

PropagateWritePos(0) marked an empty write-buffer as the last readable
one. A following PopData() would fail or return buffers without data.
---
 src/mg/net/Buffer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 7664516..b578ca1 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -140,6 +140,9 @@ namespace net {
 		uint64_t aSize)
 	{
 		MG_DEV_ASSERT(myWSize >= aSize);
+		// Nothing was written, then the write-buffer isn't readable yet.
+		if (aSize == 0)
+			return;
 		myWPos = BuffersPropagateOnWrite(myWPos, aSize);
 		myWSize -= aSize;
 		myRSize += aSize;
-- 
2.43.0


From f2aeeb03f5ee0318a98f9ff03a7bbfff550e7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:12 +0000
Subject: [PATCH 07/29] fix: a forward list move-constructed from an empty one
 was broken

Its last link pointed into the source list. The first appended item was
lost and got into the source.
---
 src/mg/box/ForwardList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/box/ForwardList.h b/src/mg/box/ForwardList.h
index 0331f99..6dc2547 100644
--- a/src/mg/box/ForwardList.h
+++ b/src/mg/box/ForwardList.h
@@ -211,7 +211,7 @@ namespace box {
 	ForwardList<T, myLink>::ForwardList(
 		ForwardList&& aList)
 		: myFirst(aList.myFirst)
-		, myLastLink(aList.myLastLink)
+		, myLastLink(aList.myFirst != nullptr ? aList.myLastLink : &myFirst)
 	{
 		aList.Clear();
 	}
-- 
2.43.0


From 9a38cc61085b4fb0d514ba67a6a45a120938bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:12 +0000
Subject: [PATCH 08/29] fix: skip of empty buffers in a link list broke shared
 buffers

BufferLinkList::SkipEmptyPrefix() detached the skipped buffer from its
next one, even if the buffer was used by other lists or by the user.
Those lost the rest of their data.
---
 src/mg/net/Buffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index b578ca1..b06bb58 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -82,7 +82,8 @@ namespace net {
 					MG_DEV_ASSERT(aByteOffset == head->myPos);
 					aByteOffset = 0;
 				}
-				head = std::move(head->myNext);
+				// Can't steal the next pointer, the buffer might be shared.
+				head.Set(head->myNext.GetPointer());
 			}
 			link = link->myNext;
 			delete myLinks.PopFirst();
-- 
2.43.0


From 6f85ddf54b64c0a789b8589fc0a7eaf93d54d429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:10 +0000
Subject: [PATCH 09/29] fix: stale errors of one SSL stream broke a shutdown of
 another

SSL_shutdown() was called without clearing the thread's error queue of
OpenSSL. Errors left there by another stream made SSL_get_error() report a
failure of a stream which was closing normally.
---
 src/mg/net/SSLStreamOpenSSL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 84e6b21..616d477 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -70,6 +70,7 @@ namespace net {
 		MG_BOX_ASSERT(
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTING ||
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTED);
+		OpenSSLPrepareToCall();
 		int rc = SSL_shutdown(mySSL);
 		if (rc == 0)
 		{
@@ -200,6 +201,7 @@ namespace net {
 		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING)
 		{
 			MG_BOX_ASSERT(myAppInput.IsEmpty());
+			OpenSSLPrepareToCall();
 			int rc = SSL_shutdown(mySSL);
 			if (rc == 1)
 				PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSED);
-- 
2.43.0


From 347703ce485080b3fe54d96c9fe4f63ae6a5d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:21 +0000
Subject: [PATCH 10/29] fix: assignment of an empty domain request to an empty
 one crashed

Dropping or moving a request handle which was cancelled or never used failed
an assertion when the target was empty too.
---
 src/mg/net/DomainToIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/net/DomainToIP.cpp b/src/mg/net/DomainToIP.cpp
index 5964937..04770bd 100755
--- a/src/mg/net/DomainToIP.cpp
+++ b/src/mg/net/DomainToIP.cpp
@@ -125,7 +125,7 @@ namespace net {
 	{
 		if (this == &aOther)
 			return *this;
-		MG_DEV_ASSERT(myCtx != aOther.myCtx);
+		MG_DEV_ASSERT(myCtx == nullptr || myCtx != aOther.myCtx);
 		if (myCtx != nullptr)
 			myCtx->PrivUnref();
 		myCtx = aOther.myCtx;
-- 
2.43.0


From 11f20dbb3b8e36478443ee938455b92b341a7f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 11/29] fix: domain requests expired during a batch were still
 resolved

The deadlines were checked only before a batch of up to 10 requests. The ones
which expired while others of the batch were resolved, were started too late,
and could in turn delay the rest.
---
 src/mg/net/DomainToIP.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/mg/net/DomainToIP.cpp b/src/mg/net/DomainToIP.cpp
index 04770bd..587364a 100755
--- a/src/mg/net/DomainToIP.cpp
+++ b/src/mg/net/DomainToIP.cpp
@@ -265,19 +265,21 @@ namespace net {
 		if (myMain.IsEmpty())
 			return;
 		DomainToIPContext* ctx;
-		uint64_t ts = mg::box::GetMilliseconds();
-		while ((ctx = myMainHeap.GetTop())->myDeadline <= ts)
-		{
-			myMainHeap.RemoveTop();
-			myMain.Remove(ctx);
-			ctx->ReturnTimeout();
-			ctx->PrivUnref();
-			if (myMain.IsEmpty())
-				return;
-		}
 		int batchSize = 10;
 		while (!myMain.IsEmpty() && --batchSize >= 0)
 		{
+			// Resolution of a domain can take long. Check the time before each, so the
+			// requests whose deadlines expire meanwhile are not started too late.
+			uint64_t ts = mg::box::GetMilliseconds();
+			while ((ctx = myMainHeap.GetTop())->myDeadline <= ts)
+			{
+				myMainHeap.RemoveTop();
+				myMain.Remove(ctx);
+				ctx->ReturnTimeout();
+				ctx->PrivUnref();
+				if (myMain.IsEmpty())
+					return;
+			}
 			ctx = myMain.PopFirst();
 			myMainHeap.Remove(ctx);
 			ctx->Process();
-- 
2.43.0


From ff8deacc89add4671c344d35daf6570eb74afd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 12/29] fix: stop of an IO core waited for the nearest deadline
 of its tasks

---
 src/mg/aio/IOCore_IOCP.cpp    | 13 +++++++------
 src/mg/aio/IOCore_epoll.cpp   | 13 +++++++------
 src/mg/aio/IOCore_iouring.cpp | 13 +++++++------
 src/mg/aio/IOCore_kqueue.cpp  | 13 +++++++------
 4 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/mg/aio/IOCore_IOCP.cpp b/src/mg/aio/IOCore_IOCP.cpp
index b56a7e2..82ca8e3 100644
--- a/src/mg/aio/IOCore_IOCP.cpp
+++ b/src/mg/aio/IOCore_IOCP.cpp
@@ -322,6 +322,13 @@ namespace aio {
 		if (didWait)
 			return false;
 
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going to sleep. Even if there is a deadline to wait
+			// for - it might be too far away.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -337,12 +344,6 @@ namespace aio {
 				duration = INFINITE - 1;
 			timeout = (DWORD)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		else
 		{
 			timeout = INFINITE;
diff --git a/src/mg/aio/IOCore_epoll.cpp b/src/mg/aio/IOCore_epoll.cpp
index 9837e67..de4cc3c 100644
--- a/src/mg/aio/IOCore_epoll.cpp
+++ b/src/mg/aio/IOCore_epoll.cpp
@@ -336,6 +336,13 @@ namespace aio {
 		pfd.fd = myNativeCore;
 		pfd.events = POLLIN;
 		int pollTimeout = -1;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going to sleep. Even if there is a deadline to wait
+			// for - it might be too far away.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -347,12 +354,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		poll(&pfd, 1, pollTimeout);
 		return false;
 	}
diff --git a/src/mg/aio/IOCore_iouring.cpp b/src/mg/aio/IOCore_iouring.cpp
index 2103a4f..fa25fb7 100644
--- a/src/mg/aio/IOCore_iouring.cpp
+++ b/src/mg/aio/IOCore_iouring.cpp
@@ -486,6 +486,13 @@ namespace aio {
 		pfd.fd = myRingEventFd;
 		pfd.events = POLLIN;
 		int pollTimeout = -1;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going to sleep. Even if there is a deadline to wait
+			// for - it might be too far away.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -497,12 +504,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		if (poll(&pfd, 1, pollTimeout) > 0)
 		{
 			uint64_t num;
diff --git a/src/mg/aio/IOCore_kqueue.cpp b/src/mg/aio/IOCore_kqueue.cpp
index da7cdd7..afd51e1 100644
--- a/src/mg/aio/IOCore_kqueue.cpp
+++ b/src/mg/aio/IOCore_kqueue.cpp
@@ -346,6 +346,13 @@ namespace aio {
 		pfd.fd = myNativeCore;
 		pfd.events = POLLIN;
 		int pollTimeout = -1;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going to sleep. Even if there is a deadline to wait
+			// for - it might be too far away.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -357,12 +364,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 
 		poll(&pfd, 1, pollTimeout);
 		return false;
-- 
2.43.0


From d72e9771e73029c7267050ba8137ab8e6dec2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 13/29] fix: parse IPv6 addresses in URLs

---
 src/mg/net/URL.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/URL.cpp b/src/mg/net/URL.cpp
index 2e01427..3f7012d 100644
--- a/src/mg/net/URL.cpp
+++ b/src/mg/net/URL.cpp
@@ -28,7 +28,11 @@ namespace net {
 			res.myTarget = str.substr(pos);
 			str = str.substr(0, pos);
 		}
-		pos = str.find(':');
+		// The colons inside of "[ipv6]" do not separate the port.
+		pos = 0;
+		if (!str.empty() && str[0] == '[')
+			pos = str.find(']');
+		pos = str.find(':', pos);
 		if (pos != std::string::npos)
 		{
 			std::string portStr = str.substr(pos + 1);
-- 
2.43.0


From 80a67a163589bfd9016bfbcc7e89643dbfea0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 14/29] fix: TCP_NODELAY value was inverted

---
 src/mg/net/Socket_Unix.cpp | 4 ++--
 src/mg/net/Socket_Win.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/net/Socket_Unix.cpp b/src/mg/net/Socket_Unix.cpp
index f6892d9..b358b53 100755
--- a/src/mg/net/Socket_Unix.cpp
+++ b/src/mg/net/Socket_Unix.cpp
@@ -182,7 +182,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int optValue = aValue ? 0 : 1;
+		int optValue = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_IPV6, IPV6_V6ONLY,
 			&optValue, sizeof(optValue)) == 0;
 		if (!ok)
@@ -196,7 +196,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int optValue = aValue ? 0 : 1;
+		int optValue = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			&optValue, sizeof(optValue)) == 0;
 		if (!ok)
diff --git a/src/mg/net/Socket_Win.cpp b/src/mg/net/Socket_Win.cpp
index fc2be1a..8cb5e8d 100755
--- a/src/mg/net/Socket_Win.cpp
+++ b/src/mg/net/Socket_Win.cpp
@@ -78,7 +78,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int value = aValue ? 0 : 1;
+		int value = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_IPV6, IPV6_V6ONLY,
 			(const char*)&value, sizeof(value)) == 0;
 		if (!ok)
@@ -92,7 +92,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int value = aValue ? 0 : 1;
+		int value = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			(const char*)&value, sizeof(value)) == 0;
 		if (!ok)
-- 
2.43.0


From badb4e7c58f084fe4b03949dc2c0162af631386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 15/29] fix: shutdown of an empty TCP task broke its later
 connect

---
 src/mg/aio/TCPSocketIFace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 498966b..01e3df5 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -197,6 +197,10 @@ namespace aio {
 		if (myState >= TCP_SOCKET_STATE_CLOSING)
 			return;
 		MG_BOX_ASSERT(myState != TCP_SOCKET_STATE_NEW);
+		// An empty task has nothing to shutdown. And the shutdown must not get ahead of
+		// the connect which the task's owner might be about to start.
+		if (myState == TCP_SOCKET_STATE_EMPTY)
+			return;
 		if (myFrontCtl == nullptr)
 			myFrontCtl = new TCPSocketCtl(&myTask);
 		myFrontCtl->AddShutdown();
-- 
2.43.0


From 840e091aad15f7b078d724b90b1cd10db2962aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:49 +0000
Subject: [PATCH 16/29] fix: IO task was considered executed by its previous
 worker after reuse

---
 src/mg/aio/IOTask.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/aio/IOTask.cpp b/src/mg/aio/IOTask.cpp
index c9d13c6..cad08dd 100755
--- a/src/mg/aio/IOTask.cpp
+++ b/src/mg/aio/IOTask.cpp
@@ -295,6 +295,9 @@ namespace aio {
 			MG_BOX_ASSERT(IsInWorkerNow());
 			MG_BOX_ASSERT(myIsClosed);
 			myIsClosed = false;
+			// Another worker can start executing the task right after it is posted. The
+			// rest of the current execution doesn't own the task anymore.
+			theCurrentIOTask = nullptr;
 			// Clear the guard in the end to prevent a new closure while the task is being
 			// re-created.
 			MG_BOX_ASSERT(myCloseGuard.ExchangeRelaxed(false));
-- 
2.43.0


From 948109669419a42b910d7223a35b84ccf5a2b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:21 +0000
Subject: [PATCH 17/29] fix: shutdown right after wrapping of a TCP socket was
 lost

---
 src/mg/aio/TCPSocketCtl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index 278a8f2..cf71ef5 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -207,9 +207,9 @@ namespace aio {
 	{
 		MG_BOX_ASSERT(myHasShutdown);
 		// Shutdown on a non-connected socket simply does not work. Wait to kill it later.
-		if (myHasConnect)
+		if (myHasConnect || myHasAttach)
 			return true;
-		
+
 		mg::net::Socket sock = myTask->GetSocket();
 		myHasShutdown = false;
 		// Might be an empty task without a socket. Then nothing to shutdown.
@@ -314,6 +314,9 @@ namespace aio {
 		myTask->AttachSocket(myAttachSocket);
 		myAttachSocket = mg::net::theInvalidSocket;
 		PrivStartHandshake();
+		// Same as after a connect - the waiting shutdown needs another round.
+		if (myHasShutdown)
+			myTask->Reschedule();
 	}
 
 	bool
-- 
2.43.0


From 80af55911dfa2e5cf7e469588ca5aaf584ec2603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:21 +0000
Subject: [PATCH 18/29] fix: receive request on a closed TCP socket broke its
 reopening

---
 src/mg/aio/TCPSocketIFace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 01e3df5..4d0fd07 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -289,6 +289,10 @@ namespace aio {
 		uint64_t aSize)
 	{
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
+		// Same as with sending - the closed socket might be about to be reopened, and
+		// must be like new then.
+		if (myTask.IsClosed())
+			return;
 		myRecvSize += aSize;
 	}
 
-- 
2.43.0


From bea0e8568f0677a2b17e2030b37a713b50d91f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:21 +0000
Subject: [PATCH 19/29] fix: socket given for a connect leaked when the connect
 was ignored

---
 src/mg/aio/TCPSocketIFace.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 4d0fd07..c41a4c0 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -320,6 +320,9 @@ namespace aio {
 		if (myState == TCP_SOCKET_STATE_CLOSING)
 		{
 			myMutex.Unlock();
+			// The given socket is still owned by the connect.
+			if (aParams.mySocket != mg::net::theInvalidSocket)
+				mg::net::SocketClose(aParams.mySocket);
 			return;
 		}
 		MG_BOX_ASSERT(myState == TCP_SOCKET_STATE_EMPTY);
-- 
2.43.0


From 684b7d05a4065b93d76ea3667eeb6a986cc7c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:06 +0000
Subject: [PATCH 20/29] fix: receive request made in OnSend() of a socket could
 be forgotten

---
 src/mg/aio/TCPSocketIFace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index c41a4c0..138cf20 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -471,6 +471,10 @@ namespace aio {
 	{
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
 		mySub->OnSend(aByteCount);
+		// Sending goes after receiving. If something was just requested for receipt, then
+		// it needs another round.
+		if (myRecvSize > 0 && !myRecvEvent.IsLocked())
+			myTask.Reschedule();
 	}
 
 	void
-- 
2.43.0


From db70191d8b3da5a4938c05a356321eb401cdf095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:35 +0000
Subject: [PATCH 21/29] fix: repeated close of a TCP server crashed

PostClose() of a server being closed marked it as closed right away and
failed an assertion, because the subscription wasn't notified yet.
---
 src/mg/aio/TCPServer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/aio/TCPServer.cpp b/src/mg/aio/TCPServer.cpp
index 8929b2c..0538966 100644
--- a/src/mg/aio/TCPServer.cpp
+++ b/src/mg/aio/TCPServer.cpp
@@ -56,6 +56,9 @@ namespace aio {
 			myTask.PostClose();
 			return;
 		}
+		// Already is being closed or is closed. The subscription is notified just once.
+		if (myState == TCP_SERVER_STATE_CLOSING || myState == TCP_SERVER_STATE_CLOSED)
+			return;
 		myState = TCP_SERVER_STATE_CLOSED;
 		MG_BOX_ASSERT(mySub == nullptr);
 		delete myBoundSocket;
-- 
2.43.0


From 5c1493cbe33904fb0e079f18fd0561dcefbdfaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:42 +0000
Subject: [PATCH 22/29] fix: socket accepted during closing of a TCP server
 leaked

With io_uring a client could be accepted by the kernel right before the
accept was canceled. Its descriptor was never given to anybody.
---
 src/mg/aio/TCPServer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mg/aio/TCPServer.cpp b/src/mg/aio/TCPServer.cpp
index 0538966..398e0f5 100644
--- a/src/mg/aio/TCPServer.cpp
+++ b/src/mg/aio/TCPServer.cpp
@@ -1,5 +1,7 @@
 #include "TCPServer.h"
 
+#include "mg/net/Socket.h"
+
 namespace mg {
 namespace aio {
 
@@ -103,6 +105,13 @@ namespace aio {
 				"TCPServer is killed externally");
 			myState = TCP_SERVER_STATE_CLOSED;
 			myMutex.Unlock();
+#if MG_IOCORE_USE_IOURING
+			// The kernel could accept a client before it noticed the cancellation. The
+			// client's socket isn't known to anybody but this event.
+			myAcceptEvent.UnlockForced();
+			if (!myAcceptEvent.IsEmpty() && !myAcceptEvent.IsError())
+				mg::net::SocketClose(myAcceptEvent.PopBytes());
+#endif
 			// Can access members here safely, because the server is kept alive by IOCore
 			// until the end of OnEvent().
 			TCPServerSubscription* sub = mySub;
-- 
2.43.0


From 2ebe84e6fd501957822ecfb07f1356c328bea4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:37 +0000
Subject: [PATCH 23/29] fix: SSL socket crashed when had reserved receive
 buffers without a request

The buffers might be reserved for the handshake or for a big receive request and not used
completely. Their presence doesn't mean that something was received and not decrypted.
---
 src/mg/aio/SSLSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index 8fff3c7..50ecf9b 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -238,7 +238,8 @@ namespace aio {
 		{
 			if (ProtWasHandshakeDone())
 			{
-				MG_BOX_ASSERT(myEncRecvQueue.IsEmpty());
+				// There might be space reserved for receiving, but no data.
+				MG_BOX_ASSERT(myEncRecvQueue.GetReadSize() == 0);
 				return;
 			}
 			myEncRecvQueue.EnsureWriteSize(mg::net::theBufferCopySize);
-- 
2.43.0


From b035143e9de0808f16f3f76d02ec58becd63c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:17 +0000
Subject: [PATCH 24/29] fix: SSL socket delivered data before connect and
 without a request

The data received in one piece with the end of the handshake was given to OnRecv() before
OnConnect(), and even if there were no receive requests. Besides, the data left by the user
in the queue caused OnRecv() without new data.

Now the decrypted data waits in its own queue until it is wanted.
---
 src/mg/aio/SSLSocket.cpp | 41 +++++++++++++++++++++++++---------------
 src/mg/aio/SSLSocket.h   |  5 +++++
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index 50ecf9b..dfeb229 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -28,6 +28,7 @@ namespace aio {
 	{
 		ProtOpen();
 		myEncSendQueue.Clear();
+		myPlainRecvQueue.Clear();
 		mySentSize = 0;
 		delete mySSL;
 		mySSL = new mg::net::SSLStream(aParams.mySSL);
@@ -183,6 +184,9 @@ namespace aio {
 				UINT32_MAX : (uint32_t)mySentSize;
 			ProtOnSend(toReport);
 			mySentSize -= toReport;
+			// The callback might have requested the already decrypted data.
+			if (myRecvSize > 0 && myPlainRecvQueue.GetReadSize() != 0)
+				myTask.Reschedule();
 			// In case a user managed to send 4GB at once, lets deliver it in parts.
 			if (mySentSize > 0)
 				myTask.Reschedule();
@@ -232,6 +236,7 @@ namespace aio {
 	void
 	SSLSocket::PrivRecv()
 	{
+		PrivRecvDeliver();
 		if (!PrivRecvEventConsume())
 			return;
 		if (myRecvSize == 0)
@@ -266,38 +271,44 @@ namespace aio {
 			return;
 		}
 		myEncRecvQueue.PropagateWritePos(aByteCount);
-		uint64_t recvSizeWas = myRecvSize;
-		myRecvSize = 0;
 		mySSL->AppendNetInputRef(myEncRecvQueue.PopData());
 		mg::net::Buffer::Ptr head;
 		mySSL->PopAppOutput(head);
-		myRecvQueue.WriteRef(std::move(head));
+		myPlainRecvQueue.WriteRef(std::move(head));
 		if (mySSL->HasError())
 		{
+			myPlainRecvQueue.Clear();
 			ProtOnRecvError(mg::net::ErrorRaiseSSL(mySSL->GetError(), "decrypt"));
 			return;
 		}
 		// If this was a part of the handshake, then need to handle it on a next wakeup.
 		if (!ProtWasHandshakeDone())
 			myTask.Reschedule();
-		if (!myRecvQueue.IsEmpty())
-		{
-			mg::net::BufferReadStream stream(myRecvQueue);
-			ProtOnRecv(stream);
-		}
-		else
-		{
-			// Keep reading until get data. User has requested it, so need to be reading
-			// until the data comes. Reading not returning any data can happen because
-			// some data is SSL-internal stuff, user shouldn't care about that.
-			myRecvSize = recvSizeWas;
-		}
+		// If there is no new data for the user, then the request (if any) stays and the
+		// reading goes on. It can happen because some data is SSL-internal stuff, user
+		// shouldn't care about that.
+		PrivRecvDeliver();
+	}
+
+	void
+	SSLSocket::PrivRecvDeliver()
+	{
+		// The data could be received together with the end of the handshake or while
+		// nobody asked for it. Then it waits until the user is connected and wants it.
+		if (myRecvSize == 0 || !ProtWasHandshakeDone() ||
+			myPlainRecvQueue.GetReadSize() == 0)
+			return;
+		myRecvSize = 0;
+		myRecvQueue.WriteRef(myPlainRecvQueue.PopData());
+		mg::net::BufferReadStream stream(myRecvQueue);
+		ProtOnRecv(stream);
 	}
 
 	void
 	SSLSocket::PrivRecvAbort(
 		mg::box::Error* aError)
 	{
+		myPlainRecvQueue.Clear();
 		ProtOnRecvError(aError);
 	}
 
diff --git a/src/mg/aio/SSLSocket.h b/src/mg/aio/SSLSocket.h
index 89e3794..2a69470 100644
--- a/src/mg/aio/SSLSocket.h
+++ b/src/mg/aio/SSLSocket.h
@@ -61,6 +61,7 @@ namespace aio {
 			mg::box::Error* aError);
 		void PrivRecvCommit(
 			uint32_t aByteCount);
+		void PrivRecvDeliver();
 		bool PrivRecvEventConsume();
 
 		// SSL socket, on the contrary with TCP-one, has 2 pairs of queues, not one.
@@ -98,6 +99,10 @@ namespace aio {
 		// is fed in portions. So as a single feed would be too long and expensive.
 		mg::net::BufferStream myEncSendQueue;
 		mg::net::BufferStream myEncRecvQueue;
+		// Decrypted data not given to the user yet, because the user didn't ask for it or
+		// is not connected yet. The receive queue itself stores what the user was already
+		// notified about.
+		mg::net::BufferStream myPlainRecvQueue;
 		mg::net::SSLStream* mySSL;
 		// Number of bytes moved to the encrypted queue, but not yet reported to the
 		// socket owner. Main purpose having it as a part of the socket object is to
-- 
2.43.0


From c1527242a275c18fa8e82b0b63406e25bb75b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:04 +0000
Subject: [PATCH 25/29] fix: failed synchronous connect could lose its error

When a connect failed, its real error was replaced with 'aborted', and
when the socket had no error to tell, the failure was not reported at
all - the socket stayed connecting forever.
---
 src/mg/sio/Socket_Unix.cpp | 2 +-
 src/mg/sio/Socket_Win.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sio/Socket_Unix.cpp b/src/mg/sio/Socket_Unix.cpp
index 1a6bb15..cdbef8c 100755
--- a/src/mg/sio/Socket_Unix.cpp
+++ b/src/mg/sio/Socket_Unix.cpp
@@ -128,7 +128,7 @@ namespace sio {
 		MG_DEV_ASSERT(rc == 1);
 		if (fd.revents == POLLOUT)
 			return true;
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
diff --git a/src/mg/sio/Socket_Win.cpp b/src/mg/sio/Socket_Win.cpp
index 6bf0d26..3c9587b 100755
--- a/src/mg/sio/Socket_Win.cpp
+++ b/src/mg/sio/Socket_Win.cpp
@@ -114,7 +114,7 @@ namespace sio {
 		if (FD_ISSET(aSock, &writeSet))
 			return true;
 		MG_BOX_ASSERT(FD_ISSET(aSock, &errSet));
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
-- 
2.43.0


From 4c956f9b09b188c7099a9346f8505ca8b914264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:04 +0000
Subject: [PATCH 26/29] fix: synchronous socket failed on sending of empty
 buffers

When only empty buffers were queued, there was nothing to send, and the
zero result of sendmsg() was treated as an error, with an old errno.
---
 src/mg/sio/TCPSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/sio/TCPSocket.cpp b/src/mg/sio/TCPSocket.cpp
index ec8f65f..b76bc53 100644
--- a/src/mg/sio/TCPSocket.cpp
+++ b/src/mg/sio/TCPSocket.cpp
@@ -166,6 +166,7 @@ namespace sio {
 		mg::box::Error::Ptr& aOutErr)
 	{
 		MG_DEV_ASSERT(myState == TCP_SOCKET_STATE_CONNECTED);
+		myOutput.SkipEmptyPrefix(mySendOffset);
 		if (myOutput.IsEmpty())
 			return true;
 		int64_t rc = SocketSend(mySocket, myOutput, mySendOffset, aOutErr);
-- 
2.43.0


From 668cd5c381fce4e5f39e86fa3b4ddaa8beb8a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 27/29] fix: URL without a protocol was broken by '://' in its
 target

'host/path?url=http://other/' was parsed as a protocol
'host/path?url=http' and a host 'other'.
---
 src/mg/net/URL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/URL.cpp b/src/mg/net/URL.cpp
index 3f7012d..81f8a4d 100644
--- a/src/mg/net/URL.cpp
+++ b/src/mg/net/URL.cpp
@@ -17,7 +17,8 @@ namespace net {
 		URL res;
 		std::string str(aStr);
 		size_t pos = str.find("://");
-		if (pos != std::string::npos)
+		// The target can contain "://" too.
+		if (pos != std::string::npos && str.find('/') == pos + 1)
 		{
 			res.myProtocol = str.substr(0, pos);
 			str = str.substr(pos + 3);
-- 
2.43.0


From df5235d5c219fa458c1bceb34c1ba5a67e90c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:27 +0000
Subject: [PATCH 28/29] fix: no connected notification of a socket after its
 shutdown failed during the handshake

---
 src/mg/aio/TCPSocketIFace.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 138cf20..2dbc153 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -600,7 +600,13 @@ namespace aio {
 		{
 			mg::box::Error::Ptr err;
 			if (!myCtl->DoShutdown(err))
+			{
 				ProtCloseError(mg::box::ErrorRaise(err, "shutdown"));
+				// The handshake might be still in progress. It must not go on and report
+				// the socket as connected after the error.
+				myMutex.Lock();
+				goto end;
+			}
 		}
 		if (myCtl->HasAttach())
 		{
-- 
2.43.0


From c9e7d19a646d41dfcd9f700a52154e9365f2cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:13 +0000
Subject: [PATCH 29/29] fix: apply the default trust of an SSL context

It was only remembered, while OpenSSL's own default verifies nothing. A
client without an explicit SetTrust() was connecting to any server.
---
 src/mg/net/SSLContextOpenSSL.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/net/SSLContextOpenSSL.cpp b/src/mg/net/SSLContextOpenSSL.cpp
index f480bad..fa48899 100644
--- a/src/mg/net/SSLContextOpenSSL.cpp
+++ b/src/mg/net/SSLContextOpenSSL.cpp
@@ -100,6 +100,9 @@ namespace net {
 			myConfig = SSL_CTX_new(TLS_client_method());
 		MG_BOX_ASSERT(myConfig != nullptr);
 
+		// The trust must be applied to the config too, not only be remembered. Otherwise
+		// OpenSSL's own default is used, which is to verify nothing.
+		SetTrust(SSL_TRUST_DEFAULT);
 		SSL_CTX_set_security_level(myConfig, 0);
 		// The object's lifetime is tied to SSL_CTX via its reference counter. SSL_CTX is
 		// kept alive by SSLs along with this object. Even if the object's owner
-- 
2.43.0

