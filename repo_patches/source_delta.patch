From 9c9d1fb98fb3e46b73ab342baaeb533cb0674be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 01/33] fix: accept a working directory that another process
 has just made

MakeWorkDirectory failed (and the process fell back to another directory or
stayed detached) if a second process created the same directory between its
stat and mkdir calls.
---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 8c46cc5..70018ea 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -219,7 +219,7 @@ bool MakeWorkDirectory(const char* pDirPath)
 			}
 			// Make directory
 			mode_t	old_umask = umask(0);
-			if(0 != mkdir(fullpath.c_str(), FLCK_WORK_DIRECTORY_PERMS)){
+			if(0 != mkdir(fullpath.c_str(), FLCK_WORK_DIRECTORY_PERMS) && (EEXIST != errno || 0 != stat(fullpath.c_str(), &st) || 0 == (st.st_mode & S_IFDIR))){
 				WAN_FLCKPRN("Could not make directory(%s), errno=%d", fullpath.c_str(), errno);
 				umask(old_umask);
 				return false;
-- 
2.43.0


From 0d873f5aa550a50e06abfee76f809f60528bc330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 02/33] fix: start-up of the process that created the shm file
 loses the race for the write lock

Between open(O_CREAT|O_EXCL) and F_SETLK another process can lock the file it
has just found; the creating process then gave up and stayed detached. Let the
creating process use the same lock loop as all others.
---
 lib/flckshminit.cc | 99 +++++++++++++++++++---------------------------
 1 file changed, 41 insertions(+), 58 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 1e6129b..b730c88 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -134,69 +134,52 @@ bool FlShm::InitializeShm(void)
 			umask(old_umask);
 			return false;
 		}
-		umask(old_umask);
-
-		// check lock & locking
-		struct timespec	sleeptime = {0L, 10 * 1000 * 1000};		// 10ms
-		bool			isSuccess = false;
-		for(int cnt = 0; cnt < 100; cnt++){						// total 1s
-			// try to lock write mode
-			if(FileWriteLock(FlShm::ShmFd, 0L)){
-				// re-initialize file
-				if(!FlShm::InitializeShmFile()){
-					ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					break;
-				}
-				// Change lock mode to read mode
-				if(!FileReadLock(FlShm::ShmFd, 0L)){
-					ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-					break;
-				}
-				isSuccess = true;
+	}
+	umask(old_umask);
+
+	// check lock & locking
+	//
+	// [NOTE]
+	// Another process may lock the file before this process even if this process
+	// created it, so the creating process does the same as others.
+	//
+	struct timespec	sleeptime = {0L, 10 * 1000 * 1000};		// 10ms
+	bool			isSuccess = false;
+	for(int cnt = 0; cnt < 100; cnt++){						// total 1s
+		// try to lock write mode
+		if(FileWriteLock(FlShm::ShmFd, 0L)){
+			// re-initialize file
+			if(!FlShm::InitializeShmFile()){
+				ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
 				break;
+			}
+			// Change lock mode to read mode
+			if(!FileReadLock(FlShm::ShmFd, 0L)){
+				ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
+				break;
+			}
+			isSuccess = true;
+			break;
 
-			}else{
-				// try to lock read mode
-				if(FileReadLock(FlShm::ShmFd, 0L)){
-					// attach
-					if(!FlShm::Attach()){
-						ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					}else{
-						isSuccess = true;
-					}
-					break;
+		}else{
+			// try to lock read mode
+			if(FileReadLock(FlShm::ShmFd, 0L)){
+				// attach
+				if(!FlShm::Attach()){
+					ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
+				}else{
+					isSuccess = true;
 				}
-				MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
+				break;
 			}
-			nanosleep(&sleeptime, NULL);
-		}
-		if(!isSuccess){
-			ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
-		}
-
-	}else{
-		umask(old_umask);
-
-		// lock write mode ASSAP
-		if(!FileWriteLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FLCK_CLOSE(FlShm::ShmFd);
-			return false;
-		}
-		// initialize file
-		if(!FlShm::InitializeShmFile()){
-			ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-			FlShm::Detach();
-			return false;
-		}
-		// Change lock mode to read mode
-		if(!FileReadLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
+			MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
 		}
+		nanosleep(&sleeptime, NULL);
+	}
+	if(!isSuccess){
+		ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
+		FlShm::Detach();
+		return false;
 	}
 
 	// run epoll thread
-- 
2.43.0


From 0dda518c2269365e185a579e51c85e0ed99baa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 03/33] fix: do not attach to a shm file whose initialisation
 was cut short

If the process that holds the write lock dies while it initialises the file, a
process that is between its failed F_SETLK(write) and its F_SETLK(read) got the
read lock and attached to an empty or half initialised file (SIGBUS, or lists
that were never made). The version is now stored last and checked after the
read lock has been taken; an incomplete file is initialised again.
---
 lib/flckshm.h      |  1 +
 lib/flckshminit.cc | 42 +++++++++++++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/lib/flckshm.h b/lib/flckshm.h
index bd5b067..7161bc2 100644
--- a/lib/flckshm.h
+++ b/lib/flckshm.h
@@ -116,6 +116,7 @@ class FlShm
 		static bool Detach(void);
 		static bool InitializeObject(bool is_load_env);
 		static bool InitializeShm(void);
+		static bool IsInitializedShmFile(void);
 		static bool InitializeShmFile(void);
 		static bool Destroy(void);
 
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index b730c88..33965d7 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -164,13 +164,17 @@ bool FlShm::InitializeShm(void)
 		}else{
 			// try to lock read mode
 			if(FileReadLock(FlShm::ShmFd, 0L)){
-				// attach
-				if(!FlShm::Attach()){
-					ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-				}else{
-					isSuccess = true;
+				if(FlShm::IsInitializedShmFile()){
+					// attach
+					if(!FlShm::Attach()){
+						ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
+					}else{
+						isSuccess = true;
+					}
+					break;
 				}
-				break;
+				// The process initializing the file has gone on the way, so retry from locking write mode.
+				FileUnlock(FlShm::ShmFd, 0L);
 			}
 			MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
 		}
@@ -211,6 +215,26 @@ bool FlShm::InitializeShm(void)
 	return true;
 }
 
+// [NOTE]
+// The version is set at the end of initializing, thus it is 0 until the file has
+// been initialized completely.
+//
+bool FlShm::IsInitializedShmFile(void)
+{
+	struct stat	st;
+	if(0 != fstat(FlShm::ShmFd, &st) || st.st_size < static_cast<off_t>(sizeof(FLHEAD))){
+		return false;
+	}
+	PFLHEAD	pTmpHead;
+	if(NULL == (pTmpHead = reinterpret_cast<PFLHEAD>(RawMap(FlShm::ShmFd, sizeof(FLHEAD), 0)))){
+		return true;									// attaching fails(or not) after this
+	}
+	bool	result = (0 != pTmpHead->version && sizeof(FLHEAD) <= pTmpHead->flength && pTmpHead->flength <= static_cast<size_t>(st.st_size));
+	RawUnmap(pTmpHead, sizeof(FLHEAD));
+
+	return result;
+}
+
 bool FlShm::InitializeShmFile(void)
 {
 	if(FLCK_INVALID_HANDLE == FlShm::ShmFd){
@@ -260,7 +284,6 @@ bool FlShm::InitializeShmFile(void)
 
 	strcpy(FlShm::pFlHead->szver, FLCK_FILE_VERSION_STR);
 
-	FlShm::pFlHead->version					= FLCK_FILE_VERSION;
 	FlShm::pFlHead->flength					= sz_total;
 	FlShm::pFlHead->file_lock_lockid		= FLCK_INVALID_ID;
 	FlShm::pFlHead->file_lock_list			= NULL;
@@ -281,6 +304,11 @@ bool FlShm::InitializeShmFile(void)
 		FlShm::pFlHead	= NULL;
 		return false;
 	}
+
+	// set version at last, it means that initializing is completed
+	__sync_synchronize();
+	FlShm::pFlHead->version					= FLCK_FILE_VERSION;
+
 	return true;
 }
 
-- 
2.43.0


From f99ee72a3682e4e40546d1f6db635e38b2a938d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 04/33] fix: one unlock of a recursively locked named mutex
 released every level

---
 lib/flckbaselist.tcc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 4633c7e..be063e7 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -380,10 +380,13 @@ namespace fullock
 			}else{
 				//  locked --> count down lockcnt
 				int	oldcnt = __sync_fetch_and_sub(plockcnt, 1);
-				if(oldcnt <= 1){
+				if(1 < oldcnt){
+					// still locked by this thread recursively
+					break;
+				}else{
 					if(oldcnt < 1){
 						// something wrong, but do recover...
-						__sync_val_compare_and_swap(plockcnt, oldcnt, 0);	// not check result
+						__sync_val_compare_and_swap(plockcnt, oldcnt - 1, 0);	// not check result
 					}
 					// try unlock
 					flck_mutex_t	oldval;
-- 
2.43.0


From d5651dc1866919b66e89d23c2cc780cdc29476a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 05/33] fix: a process which is still alive when its close
 event is caught was never checked again

---
 lib/flckthread.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index 2d48913..00b4ff3 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -260,7 +260,14 @@ void* FlckThread::WorkerProc(void* param)
 				// signal occurred.
 
 			}else{	// 0 == eventcnt
-				// timeouted, nothing to do
+				// [NOTE]
+				// A process closes its files before it disappears from the process list, so it could be
+				// still alive when CLOSE event was caught. Then need to check it without event too.
+				//
+				FlShm	LocalFlShm;
+				if(!LocalFlShm.CheckProcessDead()){
+					WAN_FLCKPRN("Failed to check process dead in FlShm object, but continue...");
+				}
 			}
 		}
 	}
-- 
2.43.0


From 8e594d7a8336fc4b98f073d6c3db0d2f932760e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 06/33] fix: try and timed read locks reported a conflict
 because of another reader

---
 lib/flckbaselist.tcc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index be063e7..f26d175 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -161,14 +161,16 @@ namespace fullock
 
 	inline int fl_tryrdlock_rwlock(flck_rwlock_t* plockval)
 	{
-		flck_rwlock_t	beforeval	= *plockval;
-		flck_rwlock_t	newval		= beforeval + 1;
-		if(FLCK_RWLOCK_UNLOCK > beforeval){
-			return EBUSY;
-		}
-		if(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval)){
-			return EBUSY;
-		}
+		flck_rwlock_t	newval;
+		flck_rwlock_t	beforeval;
+		do{
+			beforeval	= *plockval;
+			newval		= beforeval + 1;
+			if(FLCK_RWLOCK_UNLOCK > beforeval){
+				return EBUSY;
+			}
+			// retry when another reader(or the end of writer) switched value
+		}while(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval));
 		return 0;
 	}
 
@@ -189,6 +191,7 @@ namespace fullock
 				if(beforeval == __sync_val_compare_and_swap(plockval, beforeval, newval)){
 					break;
 				}
+				continue;		// another reader(or the end of writer) switched value, not conflict.
 			}
 
 			struct timespec	endtime;
-- 
2.43.0


From 6edf680a05decac31e7c8a417ab02d857caae8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 07/33] fix: islocked answered for the whole file instead of
 the range asked for

---
 lib/flcklistfilelock.cc | 19 +++++++++++++++++++
 lib/flcklistfilelock.h  |  1 +
 lib/flckshm.cc          |  2 +-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index 76b8a00..a2e4746 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -213,6 +213,25 @@ bool FlListFileLock::is_locked(void) const
 	return false;
 }
 
+//
+// Check only the offset locks which overlap with the range. Need to lock list before calling this.
+//
+bool FlListFileLock::is_locked(off_t offset, size_t length) const
+{
+	if(!pcurrent){
+		return false;
+	}
+	FlListOffLock	tmpobj;
+	PFLOFFLOCK		prelcur = pcurrent->offset_lock_list;
+	while(tmpobj.find(offset, length, prelcur)){
+		if(tmpobj.is_locked()){
+			return true;
+		}
+		prelcur = tmpobj.get()->next;
+	}
+	return false;
+}
+
 bool FlListFileLock::free_offset_lock_list(void)
 {
 	if(!pcurrent){
diff --git a/lib/flcklistfilelock.h b/lib/flcklistfilelock.h
index 0d9dfa9..7574051 100644
--- a/lib/flcklistfilelock.h
+++ b/lib/flcklistfilelock.h
@@ -69,6 +69,7 @@ class FlListFileLock : public fllistbasefilelock
 		}
 
 		bool is_locked(void) const;
+		bool is_locked(off_t offset, size_t length) const;
 		inline void set_protect(void) { if(pcurrent){ pcurrent->protect = true; } }
 		bool free_offset_lock_list(void);
 
diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 2674213..23f9b42 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -864,7 +864,7 @@ bool FlShm::IsLocked(int fd, off_t offset, size_t length)
 		return false;
 	}
 
-	bool	result = tglistobj.is_locked();
+	bool	result = tglistobj.is_locked(offset, length);
 	fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);			// unlock lockid
 
 	return result;
-- 
2.43.0


From 107ca66ef9a48610b58a8720098c29ac9d3cf57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 08/33] fix: a range lock refused with ENOLCK left the file and
 range entries marked as used

---
 lib/flcklistfilelock.cc | 2 ++
 lib/flcklistofflock.cc  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index a2e4746..1937f5d 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -104,6 +104,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 			// Not found, so get new offset lock and insert it.
 			if(!tglistobj.retrieve_list(FlShm::pFlHead->offset_lock_free)){
 				ERR_FLCKPRN("Could not get free offset lock structure.");
+				pcurrent->protect = false;
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
@@ -117,6 +118,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 				if(!tglistobj.insert_list(FlShm::pFlHead->offset_lock_free)){
 					ERR_FLCKPRN("Failed to insert offset lock to free list, but continue...");
 				}
+				pcurrent->protect = false;
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
diff --git a/lib/flcklistofflock.cc b/lib/flcklistofflock.cc
index bca9619..84b11e4 100644
--- a/lib/flcklistofflock.cc
+++ b/lib/flcklistofflock.cc
@@ -117,6 +117,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 		// Always get new locker object.
 		if(!tglistobj.retrieve_list(FlShm::pFlHead->locker_free)){
 			ERR_FLCKPRN("Could not get free locker structure.");
+			pcurrent->protect = false;
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
@@ -130,6 +131,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 			if(!tglistobj.insert_list(FlShm::pFlHead->locker_free)){
 				ERR_FLCKPRN("Failed to insert locker to free list, but continue...");
 			}
+			pcurrent->protect = false;
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
-- 
2.43.0


From 316ef406dc053e1f715d3cbaad33f817049bb5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 09/33] fix: a condition wait which timed out could return
 without owning its mutex

---
 lib/flcklistwaiter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index ceeee57..6b40cfa 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -93,7 +93,7 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 
 		// do lock named mutex
 		int	subresult;
-		if(0 != (subresult = tgnmtxobj.lock(timeout_usec))){
+		if(0 != (subresult = tgnmtxobj.lock(FLCK_NO_TIMEOUT))){
 			ERR_FLCKPRN("Could not lock named mutex object(error code=%d) for cond.", subresult);
 			// not need to recover on this case.
 			if(0 == result){
-- 
2.43.0


From c32cf6ca213701c825c7bc91c12323815c838a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 10/33] fix: a timed call which crossed the boundary of a
 second timed out seconds too late

---
 lib/flckutil.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/flckutil.h b/lib/flckutil.h
index 452a439..ff9010e 100644
--- a/lib/flckutil.h
+++ b/lib/flckutil.h
@@ -199,12 +199,12 @@ inline tid_t decompose_tid(flckpid_t flckpid)
 inline void SUB_TIMESPEC(const struct timespec* start, const struct timespec* end, struct timespec* result)
 {
 	if((end)->tv_nsec < (start)->tv_nsec){
-		if(1 > (end)->tv_sec){
+		if(1 > ((end)->tv_sec - (start)->tv_sec)){
 			(result)->tv_sec	= 0;
 			(result)->tv_nsec	= 0;
 			return;
 		}
-		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec - 1;
+		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec;
 		(result)->tv_nsec	= (end)->tv_nsec + (1000 * 1000 * 1000) - (start)->tv_nsec;
 	}else{
 		(result)->tv_sec	= (end)->tv_sec - (start)->tv_sec;
-- 
2.43.0


From cd21e9233a01b459e72c7c02726a8499aad35461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 11/33] fix: a signal sent to a timed condition wait which had
 just given up was lost

---
 lib/flcklistncond.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/flcklistncond.cc b/lib/flcklistncond.cc
index 372236e..941f653 100644
--- a/lib/flcklistncond.cc
+++ b/lib/flcklistncond.cc
@@ -135,6 +135,10 @@ int FlListNCond::rawlock(FLCKLOCKTYPE LockType, bool is_broadcast, PFLNAMEDMUTEX
 
 		// retrieve waiter from list
 		fl_lock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);				// relock lockid
+		if(ETIMEDOUT == result && !tglistobj.is_wait()){
+			// a signal was spent on this waiter after it gave up waiting, so it must not be lost
+			result = 0;
+		}
 		if(tglistobj.cutoff_list(pcurrent->waiter_list)){
 			// put back waiter to free
 			if(!tglistobj.insert_list(FlShm::pFlHead->waiter_free)){
-- 
2.43.0


From ac2ad5109f0b3df52ef7a8878146da1a78db04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 12/33] fix: freeing the entry of a file leaked the entries of
 its unlocked ranges

---
 lib/flckshm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 23f9b42..da117e7 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -768,6 +768,9 @@ int FlShm::RawLock(FLCKLOCKTYPE LockType, int fd, off_t offset, size_t length, t
 		// check free
 		if(FlShm::IsFreeUnitFd()){
 			if(!tglistobj.is_locked()){
+				// free all
+				tglistobj.free_offset_lock_list();
+
 				// retrieve target list
 				if(tglistobj.cutoff_list(FlShm::pFlHead->file_lock_list)){
 					// return object to free list
-- 
2.43.0


From dc6b1dd3195323a80a35ce86275327e24cf46d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 13/33] fix: a read/write lock held through a descriptor by an
 ended thread was never released

---
 lib/flckutil.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 70018ea..099975b 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -321,7 +321,8 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 	}else{
 		char	szPath[PATH_MAX];
 		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, fd);
-		if(EACCES == (result = GetFileDevNode(szPath, devid, inodeid))){
+		result = GetFileDevNode(szPath, devid, inodeid);
+		if(0 == result || EACCES == result){
 			// Need to check thread(process) running.
 			//
 			struct stat	st;
-- 
2.43.0


From 2286e2a27b8b2383d9ce693f740d0792f5f2c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 14/33] fix: a failing system call made the locks of a live
 process look abandoned

---
 lib/flckutil.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 099975b..d59b55c 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -236,6 +236,13 @@ bool MakeWorkDirectory(const char* pDirPath)
 	return true;
 }
 
+// Only these errors mean that the process, the thread or the descriptor does not exist.
+//
+static inline bool IS_NOTFOUND_ERRNO(int error)
+{
+	return (ENOENT == error || ENOTDIR == error || ESRCH == error);
+}
+
 // [NOTE]
 // stat(fstat) function call to /proc system takes average 100-150ns.
 // FindThreadProcess and GetFileDevNode functions for the load reduction
@@ -254,7 +261,7 @@ bool FindThreadProcess(pid_t pid, tid_t tid, fl_pid_cache_map_t* pcache)
 	struct stat	st;
 	sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
 	if(-1 == stat(szPath, &st)){
-		is_run = false;
+		is_run = !IS_NOTFOUND_ERRNO(errno);		// any other error does not mean that it has exited
 	}else{
 		is_run = true;
 	}
@@ -269,15 +276,16 @@ static inline int GetFileDevNode(const char* file, dev_t& devid, ino_t& inodeid)
 {
 	struct stat	st;
 	if(-1 == stat(file, &st)){
-		if(EACCES == errno){
+		if(!IS_NOTFOUND_ERRNO(errno)){
 			//MSG_FLCKPRN("Could not access stat for %s(errno:%d)", file, errno);
 			devid	= FLCK_EACCESS_ID;
 			inodeid	= FLCK_EACCESS_ID;
-		}else{	// ENOENT == errno
-			//MSG_FLCKPRN("Could not get stat for %s(errno:%d)", file, errno);
-			devid	= FLCK_INVALID_ID;
-			inodeid	= FLCK_INVALID_ID;
+			return EACCES;
 		}
+		// ENOENT == errno
+		//MSG_FLCKPRN("Could not get stat for %s(errno:%d)", file, errno);
+		devid	= FLCK_INVALID_ID;
+		inodeid	= FLCK_INVALID_ID;
 		return errno;
 	}
 	devid	= st.st_dev;
@@ -310,7 +318,7 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 		char		szPath[PATH_MAX];
 		struct stat	st;
 		sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-		if(-1 == stat(szPath, &st)){
+		if(-1 == stat(szPath, &st) && IS_NOTFOUND_ERRNO(errno)){
 			devid	= FLCK_INVALID_ID;
 			inodeid	= FLCK_INVALID_ID;
 			result	= errno;
@@ -327,7 +335,7 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 			//
 			struct stat	st;
 			sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-			if(-1 == stat(szPath, &st)){
+			if(-1 == stat(szPath, &st) && IS_NOTFOUND_ERRNO(errno)){
 				devid	= FLCK_INVALID_ID;
 				inodeid	= FLCK_INVALID_ID;
 				result	= errno;
-- 
2.43.0


From 766e98c956b451084f426423223faff9569c4a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:40 +0000
Subject: [PATCH 15/33] fix: a thread of a forked child used the thread id of
 its parent

---
 lib/flckutil.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index d59b55c..73c8300 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -585,6 +585,11 @@ class FlTidCache
 				Initialized = false;
 			}else{
 				Initialized = true;
+
+				// The thread in the forked child process has another id than the thread which called fork.
+				if(0 != (result = pthread_atfork(NULL, NULL, FlTidCache::ChildHandler))){
+					ERR_FLCKPRN("Could not set handler for forking, error code=%d.", result);
+				}
 			}
 		}
 
@@ -607,6 +612,13 @@ class FlTidCache
 			return Cache;
 		}
 
+		static void ChildHandler(void)
+		{
+			if(GetObject().Initialized){
+				pthread_setspecific(GetObject().TidKey, NULL);
+			}
+		}
+
 	public:
 		static pthread_key_t& GetTid(void)
 		{
-- 
2.43.0


From 4df6dd099b23685b23380ad63a48ce39ce22e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:29 +0000
Subject: [PATCH 16/33] fix: a forked child did not lock the shm file, and its
 handler was set again by every initialisation

---
 lib/flckshm.cc     |  7 +++++++
 lib/flckshminit.cc | 16 +++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index da117e7..72cd045 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -627,9 +627,16 @@ bool FlShm::CheckCondDeadLock(fl_pid_cache_map_t* pcache_map, flckpid_t flckpid,
 //---------------------------------------------------------
 // When the program which loads this fullock library is forked, we need to start worker thread
 // in child process.
+// And the lock to the shm file is not inherited by child process, thus it must lock again.
 //
 void FlShm::PreforkHandler(void)
 {
+	if(FLCK_INVALID_HANDLE == FlShm::ShmFd){
+		return;
+	}
+	if(!FileReadLock(FlShm::ShmFd, 0L, true)){
+		ERR_FLCKPRN("Could not lock read mode to %s in child process(%d), but continue...", FlShm::ShmPath().c_str(), getpid());
+	}
 	if(FlShm::pCheckPidThread){
 		if(!FlShm::pCheckPidThread->ReInitializeThread()){
 			ERR_FLCKPRN("Call Prefork handler and try to reinitialize thread for child process(%d), but FAILED TO RUN THREAD", getpid());
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 33965d7..472c9b4 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -201,15 +201,21 @@ bool FlShm::InitializeShm(void)
 			FlShm::Detach();
 			return false;
 		}
+	}
 
-		// [NOTE]
-		// When the program which loads this fullock library is forked, we need to start worker thread
-		// in child process.
-		// Thus we set a handler at forking, and it initializes and runs thread in child process.
-		//
+	// [NOTE]
+	// When the program which loads this fullock library is forked, we need to lock shm file and
+	// to start worker thread in child process.
+	// Thus we set a handler at forking, and it does these in child process. The handler can not
+	// be removed, so it must be set only once.
+	//
+	static bool	is_set_handler = false;
+	if(!is_set_handler){
 		int	result = pthread_atfork(NULL, NULL, PreforkHandler);
 		if(0 != result){
 			ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+		}else{
+			is_set_handler = true;
 		}
 	}
 	return true;
-- 
2.43.0


From b3b94314495bc67c54dc93327e8dc6329cda4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 17/33] fix: a forked child leaked the event handles of the
 worker thread of its parent

---
 lib/flckthread.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index 00b4ff3..698d9da 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -387,6 +387,11 @@ bool FlckThread::ReInitializeThread(void)
 		FlckThread::pThreadParam = NULL;
 	}
 
+	// close handles which are opened by the worker thread in parent process
+	FLCK_CLOSE(FlckThread::InotifyFd);
+	FLCK_CLOSE(FlckThread::EventFd);
+	FlckThread::WatchFd = FLCK_INVALID_HANDLE;
+
 	// initialize inner data
 	string	tmppath	= bup_filepath;
 	thflag			= FlckThread::FLCK_THCNTL_STOP;
-- 
2.43.0


From 944826431f708375404ee0c85792d9a1f2ea7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:59 +0000
Subject: [PATCH 18/33] fix: a signal was spent on a condition waiter which
 does not run any more

---
 lib/flcklistncond.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/flcklistncond.cc b/lib/flcklistncond.cc
index 941f653..6daa60c 100644
--- a/lib/flcklistncond.cc
+++ b/lib/flcklistncond.cc
@@ -88,9 +88,21 @@ int FlListNCond::rawlock(FLCKLOCKTYPE LockType, bool is_broadcast, PFLNAMEDMUTEX
 		}else{	// SIGNAL
 			// get end of waiter list
 			FlListWaiter	tglistobj;
-			if(!tglistobj.rfind(FLCK_NCOND_WAIT, pcurrent->waiter_list)){
-				WAN_FLCKPRN("Could not get end of waiter list, maybe no waiter.");
-				return 0;					// Success
+			while(true){
+				if(!tglistobj.rfind(FLCK_NCOND_WAIT, pcurrent->waiter_list)){
+					WAN_FLCKPRN("Could not get end of waiter list, maybe no waiter.");
+					return 0;				// Success
+				}
+				if(!FlShm::IsRobust() || !tglistobj.check_dead_lock()){
+					break;
+				}
+				// this waiter does not run any more, so the signal must not be spent on it
+				if(!tglistobj.cutoff_list(pcurrent->waiter_list)){
+					break;
+				}
+				if(!tglistobj.insert_list(FlShm::pFlHead->waiter_free)){
+					ERR_FLCKPRN("Failed to insert waiter to free list, but continue...");
+				}
 			}
 
 			// wake up waiter
-- 
2.43.0


From 32e569d4a8447358b4a4666ab543cbb60f21bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:05 +0000
Subject: [PATCH 19/33] fix: re-initialising as the first call of a process
 failed

---
 lib/flckshm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 72cd045..774400b 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -326,6 +326,9 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		}
 	}
 
+	// The singleton object must be made before destroying, because making it could attach shm file automatically.
+	FlShmHelper::Initialize();
+
 	// Destroy this
 	if(!FlShm::Destroy()){
 		ERR_FLCKPRN("Failed to destroy now fullock object.");
-- 
2.43.0


From 51f904ca54a2000a6ce08fab2f670fdd5f0b490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:12 +0000
Subject: [PATCH 20/33] fix: the stack of recursive lock objects was used
 without its lock after an unlock in switching the lock type

---
 lib/rwlockrcsv.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index e5141a3..c9d633a 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -281,6 +281,13 @@ bool FLRwlRcsv::RawReadLock(bool& is_mutex_locked)
 			return false;
 		}
 	}
+	// [NOTE]
+	// RawUnlock could unlock mutex for global stack
+	//
+	if(!is_mutex_locked){
+		FLRwlRcsv::StackLock();
+		is_mutex_locked = true;
+	}
 	lock_type = FLCK_READ_LOCK;
 
 	// check all status in global stack
@@ -369,6 +376,13 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 			return false;
 		}
 	}
+	// [NOTE]
+	// RawUnlock could unlock mutex for global stack
+	//
+	if(!is_mutex_locked){
+		FLRwlRcsv::StackLock();
+		is_mutex_locked = true;
+	}
 	lock_type = FLCK_WRITE_LOCK;
 
 	// check all status in global stack
-- 
2.43.0


From 9859d84a506934283ba37f073d455810c0a12511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:39 +0000
Subject: [PATCH 21/33] fix: recovering a recursive lock object from a failed
 write lock deadlocked

---
 lib/rwlockrcsv.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index c9d633a..36e9a30 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -457,6 +457,10 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 				break;
 			}
 		}
+		// unlock mutex for global stack, because re-locking locks it
+		FLRwlRcsv::StackUnlock();
+		is_mutex_locked = false;
+
 		// re-lock pending list(and put into global stack)
 		for(flrwlrcsv_vec_t::iterator iter = PendingStack.begin(); iter != PendingStack.end(); ++iter){
 			(*iter)->has_locker	= false;
-- 
2.43.0


From 4d3aef067c7c69c92be0b16780ef7926e68bb643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:27 +0000
Subject: [PATCH 22/33] fix: a destroyed recursive lock object which failed to
 unlock stayed in the stack

---
 lib/rwlockrcsv.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 36e9a30..a2fd3ee 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -15,6 +15,8 @@
  *
  */
 
+#include <algorithm>
+
 #include "rwlockrcsv.h"
 #include "flckutil.h"
 #include "flckdbg.h"
@@ -106,8 +108,13 @@ FLRwlRcsv::FLRwlRcsv(int fd, off_t offset, size_t length, bool is_read) : lock_t
 FLRwlRcsv::~FLRwlRcsv(void)
 {
 	bool	is_mutex_locked = false;
-	RawUnlock(is_mutex_locked);
-
+	if(!RawUnlock(is_mutex_locked)){
+		// could not unlock, and it put back own into global stack, but this object disappears.
+		flrwlrcsv_vec_t::iterator	iter = std::find(FLRwlRcsv::Stack().begin(), FLRwlRcsv::Stack().end(), this);
+		if(iter != FLRwlRcsv::Stack().end()){
+			FLRwlRcsv::Stack().erase(iter);
+		}
+	}
 	if(is_mutex_locked){
 		FLRwlRcsv::StackUnlock();
 	}
-- 
2.43.0


From 0ec744761dc7448c3641db1923976c0e383478f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:31 +0000
Subject: [PATCH 23/33] fix: threads used the shm file which another thread was
 still attaching in retry mode

---
 lib/flckshm.cc     | 12 ++++++++++--
 lib/flckshm.h      |  3 +++
 lib/flckshminit.cc | 16 ++++++++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 774400b..d1dedc7 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -188,6 +188,8 @@ size_t				FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
 size_t				FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 int					FlShm::ShmFd				= FLCK_INVALID_HANDLE;
+volatile bool		FlShm::IsAttached			= false;
+flckpid_t			FlShm::AttachLockid			= FLCK_INVALID_ID;
 std::string*		FlShm::pShmDirPath			= NULL;
 std::string*		FlShm::pShmFileName			= NULL;
 std::string*		FlShm::pShmPath				= NULL;
@@ -655,11 +657,17 @@ void FlShm::PreforkHandler(void)
 //---------------------------------------------------------
 bool FlShm::CheckAttach(void)
 {
-	if(FLCK_INVALID_HANDLE != FlShm::ShmFd){
+	if(FlShm::IsAttached){
 		return true;
 	}
 	if(NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_DENY_RETRY == FlShm::NomapMode){
-		if(FlShm::InitializeShm()){
+		// only one thread tries to attach
+		flckpid_t	flckpid = get_flckpid();
+		fl_lock_lockid(&FlShm::AttachLockid, flckpid);
+		bool		result	= (FlShm::IsAttached || FlShm::InitializeShm());
+		fl_unlock_lockid(&FlShm::AttachLockid, flckpid);
+
+		if(result){
 			// Success to initialize
 			return true;
 		}
diff --git a/lib/flckshm.h b/lib/flckshm.h
index 7161bc2..7e8a463 100644
--- a/lib/flckshm.h
+++ b/lib/flckshm.h
@@ -88,6 +88,8 @@ class FlShm
 
 		// Shared memory
 		static int				ShmFd;							// shm file descriptor
+		static volatile bool	IsAttached;						// set at the end of attaching, it means that another thread can use shm
+		static flckpid_t		AttachLockid;					// lock for attaching again(not in shm)
 		static std::string*		pShmDirPath;					// flck shm Directory path
 		static std::string*		pShmFileName;					// flck shm file name
 		static std::string*		pShmPath;						// flck shm file path
@@ -116,6 +118,7 @@ class FlShm
 		static bool Detach(void);
 		static bool InitializeObject(bool is_load_env);
 		static bool InitializeShm(void);
+		static bool RawInitializeShm(void);
 		static bool IsInitializedShmFile(void);
 		static bool InitializeShmFile(void);
 		static bool Destroy(void);
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 472c9b4..97e2fbe 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -87,6 +87,8 @@ bool FlShm::Attach(void)
 
 bool FlShm::Detach(void)
 {
+	FlShm::IsAttached = false;
+
 	// munmap
 	if(!FlShm::pShmBase){
 		WAN_FLCKPRN("Already munmap.");
@@ -112,7 +114,21 @@ bool FlShm::Detach(void)
 	return true;
 }
 
+// [NOTE]
+// FlShm::IsAttached is set after everything is ready, because other threads check it.
+//
 bool FlShm::InitializeShm(void)
+{
+	if(!FlShm::RawInitializeShm()){
+		return false;
+	}
+	__sync_synchronize();
+	FlShm::IsAttached = true;
+
+	return true;
+}
+
+bool FlShm::RawInitializeShm(void)
 {
 	if(FLCK_INVALID_HANDLE != FlShm::ShmFd){
 		ERR_FLCKPRN("Already initialized object.");
-- 
2.43.0


From 5f58b563c8dcef7e27d41a96892b5e522e1eccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:59 +0000
Subject: [PATCH 24/33] fix: retry modes never attached after the working
 directory could not be made at first

---
 lib/flckshm.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index d1dedc7..c981ad3 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -664,7 +664,15 @@ bool FlShm::CheckAttach(void)
 		// only one thread tries to attach
 		flckpid_t	flckpid = get_flckpid();
 		fl_lock_lockid(&FlShm::AttachLockid, flckpid);
-		bool		result	= (FlShm::IsAttached || FlShm::InitializeShm());
+		bool		result	= FlShm::IsAttached;
+		if(!result){
+			if(FlShm::ShmPath().empty() && FlShm::IsAutoInitialize){
+				// could not make working directory at first, so retry from it
+				result = FlShm::InitializeObject(false);
+			}else{
+				result = FlShm::InitializeShm();
+			}
+		}
 		fl_unlock_lockid(&FlShm::AttachLockid, flckpid);
 
 		if(result){
-- 
2.43.0


From b204b4a36714a369fdd2720cd7855bc55d6d6bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 25/33] fix: re-initialising kept the condition and waiter
 counts of before and checked the waiter count only with a locker count

---
 lib/flckshm.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index c981ad3..3dbd830 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -300,7 +300,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		(FLCK_INITCNT_DEFAULT != lockercnt		&& (lockercnt < FLCK_FLCKLOCKERCNT_MIN	|| FLCK_FLCKLOCKERCNT_MAX < lockercnt))	||
 		(FLCK_INITCNT_DEFAULT != nmtxcnt		&& (nmtxcnt < FLCK_FLCKNMTXCNT_MIN		|| FLCK_FLCKNMTXCNT_MAX < nmtxcnt))		||
 		(FLCK_INITCNT_DEFAULT != ncondcnt		&& (ncondcnt < FLCK_FLCKNCONDCNT_MIN	|| FLCK_FLCKNCONDCNT_MAX < ncondcnt))	||
-		(FLCK_INITCNT_DEFAULT != lockercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
+		(FLCK_INITCNT_DEFAULT != waitercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
 	{
 		ERR_FLCKPRN("Parameters are wrong: filelock cnt(%zu), offsetlock cnt(%zu), locker cnt(%zu), named mutex cnt(%zu), named cond cnt(%zu), waiter cnt(%zu)", filelockcnt, offlockcnt, lockercnt, nmtxcnt, ncondcnt, waitercnt);
 		return false;
@@ -363,6 +363,8 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 	FlShm::OffLockAreaCount		= FLCK_FLCKOFFETCNT_DEFAULT;
 	FlShm::LockerAreaCount		= FLCK_FLCKLOCKERCNT_DEFAULT;
 	FlShm::NMtxAreaCount		= FLCK_FLCKNMTXCNT_DEFAULT;
+	FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
+	FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 	// Load environment manually
 	// cppcheck-suppress unmatchedSuppression
-- 
2.43.0


From c2b00c96e122808bf4b0253a47285cae09de407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:25 +0000
Subject: [PATCH 26/33] fix: directory path which can not be resolved (no
 current directory, above the root) crashed or was ignored

---
 lib/flckshm.cc  | 8 ++++----
 lib/flckutil.cc | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 3dbd830..0824a70 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -306,14 +306,14 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		return false;
 	}
 	// check dirpath
+	string	realdirpath;
 	if(!FLCKEMPTYSTR(dirname)){
-		string	toppath;
-		if(!GetRealPath(dirname, toppath)){
+		if(!GetRealPath(dirname, realdirpath)){
 			ERR_FLCKPRN("Parameter directory path(%s) is invalid.", dirname);
 			return false;
 		}
 		// check & make dir
-		if(!MakeWorkDirectory(toppath.c_str())){
+		if(!MakeWorkDirectory(realdirpath.c_str())){
 			ERR_FLCKPRN("Directory path(%s) is invalid or no such directory(could not make it).", dirname);
 			return false;
 		}
@@ -378,7 +378,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 
 	// overwrite parameters
 	if(!FLCKEMPTYSTR(dirname)){
-		GetRealPath(dirname, FlShm::ShmDirPath());
+		FlShm::ShmDirPath() = realdirpath;
 	}
 	if(!FLCKEMPTYSTR(filename)){
 		FlShm::ShmFileName() = filename;
diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 73c8300..fd21fcf 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -128,6 +128,10 @@ bool GetRealPath(const char* pPath, string& strreal)
 	string	tmppath;
 	if('/' != pPath[0]){
 		char*	cur = get_current_dir_name();
+		if(!cur){
+			WAN_FLCKPRN("Could not get current directory, errno=%d", errno);
+			return false;
+		}
 		tmppath	= cur;
 		tmppath	+= "/";
 		tmppath	+= pPath;
@@ -158,7 +162,7 @@ bool GetRealPath(const char* pPath, string& strreal)
 		if((*iter) == "."){
 			// nothing to do
 		}else if((*iter) == ".."){
-			if(rawpathleaf.empty()){
+			if(pathleaf.empty()){
 				WAN_FLCKPRN("Path is wrong(over the root).");
 				return false;
 			}
-- 
2.43.0


From a3c6f79ecc5abdb702da2db3b68ee0f2d160a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 27/33] fix: forking while another thread is attaching left the
 child half attached and hanging

---
 lib/flckshm.cc     | 32 +++++++++++++++++++++++++++++++-
 lib/flckshm.h      |  2 ++
 lib/flckshminit.cc | 16 ----------------
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 0824a70..e14dd32 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -103,6 +103,9 @@ class FlShmHelper
 		string			ShmPath;					// flck shm file path
 
 	protected:
+		static volatile bool	is_made;			// the singleton has been made
+		static int				fork_handler;		// result of setting the handlers for forking, those are set at loading this library
+
 		FlShmHelper(void) : flckshm(this), ShmDirPath(""), ShmFileName(""), ShmPath("")
 		{
 			FlShm::pShmDirPath	= &ShmDirPath;
@@ -127,7 +130,16 @@ class FlShmHelper
 	public:
 		static bool Initialize(void)
 		{
-			(void)GetFlShmHelper();
+			if(!FlShmHelper::is_made){
+				// [NOTE]
+				// Forking waits for this lock, so a child process never has a half-made object.
+				//
+				flckpid_t	flckpid = get_flckpid();
+				fl_lock_lockid(&FlShm::AttachLockid, flckpid);
+				(void)GetFlShmHelper();
+				FlShmHelper::is_made = true;
+				fl_unlock_lockid(&FlShm::AttachLockid, flckpid);
+			}
 			return true;
 		}
 
@@ -156,6 +168,9 @@ class FlShmHelper
 		}
 };
 
+volatile bool	FlShmHelper::is_made		= false;
+int				FlShmHelper::fork_handler	= pthread_atfork(FlShm::PreforkHandler, FlShm::ParentforkHandler, FlShm::ChildforkHandler);
+
 //---------------------------------------------------------
 // FlShm : Class Variable
 //---------------------------------------------------------
@@ -636,8 +651,23 @@ bool FlShm::CheckCondDeadLock(fl_pid_cache_map_t* pcache_map, flckpid_t flckpid,
 // in child process.
 // And the lock to the shm file is not inherited by child process, thus it must lock again.
 //
+// Other threads could be attaching the shm file at forking, they do not run in child process
+// and would leave it half attached. Thus forking waits for them.
+//
 void FlShm::PreforkHandler(void)
 {
+	fl_lock_lockid(&FlShm::AttachLockid, get_flckpid());
+}
+
+void FlShm::ParentforkHandler(void)
+{
+	fl_unlock_lockid(&FlShm::AttachLockid, get_flckpid());
+}
+
+void FlShm::ChildforkHandler(void)
+{
+	FlShm::AttachLockid = FLCK_INVALID_ID;					// the thread which locked has another id in child process
+
 	if(FLCK_INVALID_HANDLE == FlShm::ShmFd){
 		return;
 	}
diff --git a/lib/flckshm.h b/lib/flckshm.h
index 7e8a463..ec758c5 100644
--- a/lib/flckshm.h
+++ b/lib/flckshm.h
@@ -113,6 +113,8 @@ class FlShm
 		static bool LoadEnv(void);
 
 		static void PreforkHandler(void);						// for forking
+		static void ParentforkHandler(void);					// for forking(parent process)
+		static void ChildforkHandler(void);						// for forking(child process)
 		static bool CheckAttach(void);
 		static bool Attach(void);
 		static bool Detach(void);
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 97e2fbe..cb84ece 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -218,22 +218,6 @@ bool FlShm::RawInitializeShm(void)
 			return false;
 		}
 	}
-
-	// [NOTE]
-	// When the program which loads this fullock library is forked, we need to lock shm file and
-	// to start worker thread in child process.
-	// Thus we set a handler at forking, and it does these in child process. The handler can not
-	// be removed, so it must be set only once.
-	//
-	static bool	is_set_handler = false;
-	if(!is_set_handler){
-		int	result = pthread_atfork(NULL, NULL, PreforkHandler);
-		if(0 != result){
-			ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
-		}else{
-			is_set_handler = true;
-		}
-	}
 	return true;
 }
 
-- 
2.43.0


From 73c93fec5a3a69c14b686a88dbc8cfccea71e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 28/33] fix: forking while another thread uses the stack of
 recursive lock objects left it locked in the child

---
 lib/rwlockrcsv.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index a2fd3ee..1df95cf 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -32,11 +32,12 @@ using namespace std;
 class FLRwlRcsvHelper
 {
 	protected:
-		int				LockVal;													// like mutex
+		static int		LockVal;													// like mutex
+		static int		ForkHandler;												// result of setting the handlers for forking
 		flrwlrcsv_vec_t	FLRwlStack;
 
 	protected:
-		FLRwlRcsvHelper(void) : LockVal(FLCK_NOSHARED_MUTEX_VAL_UNLOCKED) {}
+		FLRwlRcsvHelper(void) {}
 		virtual ~FLRwlRcsvHelper(void) {}
 
 		static FLRwlRcsvHelper& GetFlShm(void)
@@ -53,15 +54,23 @@ class FLRwlRcsvHelper
 
 		static void Lock(void)
 		{
-			while(!fullock::flck_trylock_noshared_mutex(&(GetFlShm().LockVal)));	// no call sched_yield()
+			while(!fullock::flck_trylock_noshared_mutex(&FLRwlRcsvHelper::LockVal));	// no call sched_yield()
 		}
 
 		static void Unlock(void)
 		{
-			fullock::flck_unlock_noshared_mutex(&(GetFlShm().LockVal));
+			fullock::flck_unlock_noshared_mutex(&FLRwlRcsvHelper::LockVal);
 		}
 };
 
+int	FLRwlRcsvHelper::LockVal		= FLCK_NOSHARED_MUTEX_VAL_UNLOCKED;
+
+// [NOTE]
+// Other threads could be using the stack at forking, they do not run in child process and would
+// leave it locked. Thus forking waits for them.
+//
+int	FLRwlRcsvHelper::ForkHandler	= pthread_atfork(FLRwlRcsvHelper::Lock, FLRwlRcsvHelper::Unlock, FLRwlRcsvHelper::Unlock);
+
 //---------------------------------------------------------
 // FLRwlRcsv : Class Methods
 //---------------------------------------------------------
-- 
2.43.0


From 6b5e2d98b9ef6dd4caec278b23d6eab17bc13363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 29/33] fix: the handler for forking used the thread id before
 the handler which resets it in the child was set

---
 lib/flckshm.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index e14dd32..cfa2187 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -128,6 +128,16 @@ class FlShmHelper
 		}
 
 	public:
+		// [NOTE]
+		// The handler for the thread id is set at using it first, that must be before the
+		// handlers here which use the thread id.
+		//
+		static int SetForkHandler(void)
+		{
+			(void)get_threadid();
+			return pthread_atfork(FlShm::PreforkHandler, FlShm::ParentforkHandler, FlShm::ChildforkHandler);
+		}
+
 		static bool Initialize(void)
 		{
 			if(!FlShmHelper::is_made){
@@ -169,7 +179,7 @@ class FlShmHelper
 };
 
 volatile bool	FlShmHelper::is_made		= false;
-int				FlShmHelper::fork_handler	= pthread_atfork(FlShm::PreforkHandler, FlShm::ParentforkHandler, FlShm::ChildforkHandler);
+int				FlShmHelper::fork_handler	= FlShmHelper::SetForkHandler();
 
 //---------------------------------------------------------
 // FlShm : Class Variable
-- 
2.43.0


From ac7c9da4649fc6ff1c8d025d362d475c810227da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:24 +0000
Subject: [PATCH 30/33] fix: a range reaching beyond the largest offset did not
 conflict with the ranges it covers

---
 lib/flcklistofflock.h | 13 ++++++++-----
 lib/flckutil.h        |  7 +++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/flcklistofflock.h b/lib/flcklistofflock.h
index d12ed8f..85209f3 100644
--- a/lib/flcklistofflock.h
+++ b/lib/flcklistofflock.h
@@ -24,6 +24,7 @@
 #include "flckcommon.h"
 #include "flckstructure.h"
 #include "flckshm.h"
+#include "flckutil.h"
 #include "flckdbg.h"
 
 //---------------------------------------------------------
@@ -106,13 +107,15 @@ class FlListOffLock : public fllistbaseofflock
 // cppcheck-suppress constParameterPointer
 inline int fl_compare_list_base(const PFLOFFLOCK psrc1, const PFLOFFLOCK psrc2)
 {
-	int	result = 0;
+	int		result	= 0;
+	size_t	end1	= flck_range_end(psrc1->offset, psrc1->length);
+	size_t	end2	= flck_range_end(psrc2->offset, psrc2->length);
 	if(psrc1->offset < psrc2->offset){
 		// check overlap
-		if((psrc1->offset + psrc1->length) >= (psrc2->offset + psrc2->length)){
+		if(end1 >= end2){
 			// psrc2 is inside the base
 			result = 0;
-		}else if((psrc1->offset + psrc1->length) > static_cast<size_t>(psrc2->offset)){
+		}else if(end1 > static_cast<size_t>(psrc2->offset)){
 			// psrc2 start is inside the base
 			result = 0;
 		}else{
@@ -121,10 +124,10 @@ inline int fl_compare_list_base(const PFLOFFLOCK psrc1, const PFLOFFLOCK psrc2)
 		}
 	}else if(psrc1->offset > psrc2->offset){
 		// check overlap
-		if((psrc1->offset + psrc1->length) <= (psrc2->offset + psrc2->length)){
+		if(end1 <= end2){
 			// the base is inside psrc2
 			result = 0;
-		}else if(static_cast<size_t>(psrc1->offset) < (psrc2->offset + psrc2->length)){
+		}else if(static_cast<size_t>(psrc1->offset) < end2){
 			// the base start is inside psrc2
 			result = 0;
 		}else{
diff --git a/lib/flckutil.h b/lib/flckutil.h
index ff9010e..4a347ca 100644
--- a/lib/flckutil.h
+++ b/lib/flckutil.h
@@ -58,6 +58,13 @@ template <typename T> inline T* ADDPTR(T* pointer, off_t offset)
 	return reinterpret_cast<T*>(reinterpret_cast<off_t>(pointer) + offset);
 }
 
+// End of range, the range which reaches beyond the largest value(ex. length is SIZE_MAX) ends at it
+inline size_t flck_range_end(off_t offset, size_t length)
+{
+	size_t	start = static_cast<size_t>(offset);
+	return (length <= (static_cast<size_t>(-1) - start)) ? (start + length) : static_cast<size_t>(-1);
+}
+
 #define	CVT_POINTER(ptr, type)	reinterpret_cast<type*>(ptr)
 
 #define	FLCK_Free(ptr)			if(ptr){ \
-- 
2.43.0


From 7291e78558797ec456b35151fc19e57615347825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:24 +0000
Subject: [PATCH 31/33] fix: nested recursive lock objects on an empty range or
 a range up to the end of file deadlocked

---
 lib/rwlockrcsv.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 1df95cf..e11094f 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -132,12 +132,15 @@ FLRwlRcsv::~FLRwlRcsv(void)
 bool FLRwlRcsv::compare(const FLRwlRcsv& other) const
 {
 	if(lock_tid == other.lock_tid && lock_fd == other.lock_fd){
-		if(lock_offset <= other.lock_offset){
-			if(other.lock_offset < (lock_offset + static_cast<off_t>(lock_length))){
+		// must be the same decision as that of the shared lock list
+		if(lock_offset == other.lock_offset){
+			return true;
+		}else if(lock_offset < other.lock_offset){
+			if(static_cast<size_t>(other.lock_offset) < flck_range_end(lock_offset, lock_length)){
 				return true;
 			}
 		}else{
-			if(lock_offset < (other.lock_offset + static_cast<off_t>(other.lock_length))){
+			if(static_cast<size_t>(lock_offset) < flck_range_end(other.lock_offset, other.lock_length)){
 				return true;
 			}
 		}
-- 
2.43.0


From 78d0cf43323f4e88ab2ee6ccb9b2b4094faf256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:58 +0000
Subject: [PATCH 32/33] fix: a refused condition wait with the mutex of another
 thread could take a signal

---
 lib/flcklistncond.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/flcklistncond.cc b/lib/flcklistncond.cc
index 6daa60c..77dc854 100644
--- a/lib/flcklistncond.cc
+++ b/lib/flcklistncond.cc
@@ -119,6 +119,14 @@ int FlListNCond::rawlock(FLCKLOCKTYPE LockType, bool is_broadcast, PFLNAMEDMUTEX
 			return EINVAL;					// EINVAL
 		}
 
+		// A wait with the mutex of another thread is refused before it could take a signal.
+		flck_mutex_t	mtxval = abs_nmtx->lockval;
+		if(FLCK_MUTEX_UNLOCK != mtxval && flckpid != mtxval){
+			ERR_FLCKPRN("Another process(thread) is owner of named mutex for cond.");
+			fl_unlock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// unlock lockid
+			return EPERM;					// EPERM
+		}
+
 		// Always get new waiter object.
 		FlListWaiter	tglistobj;
 		if(!tglistobj.retrieve_list(FlShm::pFlHead->waiter_free)){
-- 
2.43.0


From d2651657cf410a2ac9935eb0c5352202a59517f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:43 +0000
Subject: [PATCH 33/33] fix: a signal sent to a condition wait before it had
 released its mutex could be lost

---
 lib/flcklistwaiter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index 6b40cfa..d92d7ed 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -71,8 +71,8 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 		}
 		FlListNMtx	tgnmtxobj(to_abs(pcurrent->named_mutex));
 
-		// set lock status to wait
-		fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_WAIT);					// always returns 0
+		// The lock status is "wait" since this waiter was initialized: do not set it again here,
+		// because a signal which was already sent to it would be lost.
 
 		// do unlock named mutex
 		if(0 != (result = tgnmtxobj.unlock())){
-- 
2.43.0

