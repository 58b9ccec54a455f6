From 4e578c08dc97ec4e2b41fe62c0298a19817f52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 01/26] fix: SUB_TIMESPEC subtracted two seconds when borrowing
 from tv_sec

---
 lib/flckutil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.h b/lib/flckutil.h
index 452a439..cf106e1 100644
--- a/lib/flckutil.h
+++ b/lib/flckutil.h
@@ -204,7 +204,7 @@ inline void SUB_TIMESPEC(const struct timespec* start, const struct timespec* en
 			(result)->tv_nsec	= 0;
 			return;
 		}
-		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec - 1;
+		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec;
 		(result)->tv_nsec	= (end)->tv_nsec + (1000 * 1000 * 1000) - (start)->tv_nsec;
 	}else{
 		(result)->tv_sec	= (end)->tv_sec - (start)->tv_sec;
-- 
2.43.0


From fbab0e96b707ac8d0e002feb1b0ae5d23cdfee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 02/26] fix: unlocking a recursively locked mutex released
 every level at once

---
 lib/flckbaselist.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 4633c7e..00aa5d8 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -393,6 +393,9 @@ namespace fullock
 					}
 					// why? but do recover
 					__sync_fetch_and_add(plockcnt, 1);						// not check result
+				}else{
+					// unlocked one level of recursive lock, still locked.
+					break;
 				}
 			}
 		}while(-1 <= sched_yield());
-- 
2.43.0


From 78659ab28143ddf0a061ee64d99980f505486a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 03/26] fix: forked child kept using the thread id cached by
 its parent

---
 lib/flckutil.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 8c46cc5..bfda189 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -576,6 +576,20 @@ class FlTidCache
 				Initialized = false;
 			}else{
 				Initialized = true;
+				if(0 != (result = pthread_atfork(NULL, NULL, ForkChildHandler))){
+					ERR_FLCKPRN("Could not set handler for forking, error code=%d.", result);
+				}
+			}
+		}
+
+		//
+		// The only thread in a forked child has another thread id, but it
+		// inherits the value cached by the parent thread.
+		//
+		static void ForkChildHandler(void)
+		{
+			if(IsInit()){
+				pthread_setspecific(GetTid(), NULL);
 			}
 		}
 
-- 
2.43.0


From 35f9641697b4ac2f1b002692c3848bf3a16fdb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 04/26] fix: file and offset entries stayed protected forever
 when a lock failed for lack of units

---
 lib/flcklistfilelock.cc | 2 ++
 lib/flcklistofflock.cc  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index 76b8a00..be5aa56 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -104,6 +104,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 			// Not found, so get new offset lock and insert it.
 			if(!tglistobj.retrieve_list(FlShm::pFlHead->offset_lock_free)){
 				ERR_FLCKPRN("Could not get free offset lock structure.");
+				pcurrent->protect = false;
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
@@ -117,6 +118,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 				if(!tglistobj.insert_list(FlShm::pFlHead->offset_lock_free)){
 					ERR_FLCKPRN("Failed to insert offset lock to free list, but continue...");
 				}
+				pcurrent->protect = false;
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
diff --git a/lib/flcklistofflock.cc b/lib/flcklistofflock.cc
index bca9619..84b11e4 100644
--- a/lib/flcklistofflock.cc
+++ b/lib/flcklistofflock.cc
@@ -117,6 +117,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 		// Always get new locker object.
 		if(!tglistobj.retrieve_list(FlShm::pFlHead->locker_free)){
 			ERR_FLCKPRN("Could not get free locker structure.");
+			pcurrent->protect = false;
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
@@ -130,6 +131,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 			if(!tglistobj.insert_list(FlShm::pFlHead->locker_free)){
 				ERR_FLCKPRN("Failed to insert locker to free list, but continue...");
 			}
+			pcurrent->protect = false;
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
-- 
2.43.0


From f35818075edab191fbd4f82e731d0063ba9a5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 05/26] fix: a path climbing above the root popped an empty
 list

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index bfda189..c44cc4b 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -158,7 +158,7 @@ bool GetRealPath(const char* pPath, string& strreal)
 		if((*iter) == "."){
 			// nothing to do
 		}else if((*iter) == ".."){
-			if(rawpathleaf.empty()){
+			if(pathleaf.empty()){
 				WAN_FLCKPRN("Path is wrong(over the root).");
 				return false;
 			}
-- 
2.43.0


From cd100f3cd740d5118a454fd1f463ab315d8fe51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 06/26] fix: reinitializing checked the waiter count only when
 a locker count was given

---
 lib/flckshm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 2674213..3149ad6 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -298,7 +298,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		(FLCK_INITCNT_DEFAULT != lockercnt		&& (lockercnt < FLCK_FLCKLOCKERCNT_MIN	|| FLCK_FLCKLOCKERCNT_MAX < lockercnt))	||
 		(FLCK_INITCNT_DEFAULT != nmtxcnt		&& (nmtxcnt < FLCK_FLCKNMTXCNT_MIN		|| FLCK_FLCKNMTXCNT_MAX < nmtxcnt))		||
 		(FLCK_INITCNT_DEFAULT != ncondcnt		&& (ncondcnt < FLCK_FLCKNCONDCNT_MIN	|| FLCK_FLCKNCONDCNT_MAX < ncondcnt))	||
-		(FLCK_INITCNT_DEFAULT != lockercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
+		(FLCK_INITCNT_DEFAULT != waitercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
 	{
 		ERR_FLCKPRN("Parameters are wrong: filelock cnt(%zu), offsetlock cnt(%zu), locker cnt(%zu), named mutex cnt(%zu), named cond cnt(%zu), waiter cnt(%zu)", filelockcnt, offlockcnt, lockercnt, nmtxcnt, ncondcnt, waitercnt);
 		return false;
-- 
2.43.0


From 16804d63ce6711c5d78f2921a907d364aab7f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 07/26] fix: reinitializing did not reset the cond and waiter
 counts to their defaults

---
 lib/flckshm.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 3149ad6..545201e 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -358,6 +358,8 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 	FlShm::OffLockAreaCount		= FLCK_FLCKOFFETCNT_DEFAULT;
 	FlShm::LockerAreaCount		= FLCK_FLCKLOCKERCNT_DEFAULT;
 	FlShm::NMtxAreaCount		= FLCK_FLCKNMTXCNT_DEFAULT;
+	FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
+	FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 	// Load environment manually
 	// cppcheck-suppress unmatchedSuppression
-- 
2.43.0


From 188bbec88556ff16d833b0364efff70b883ae686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 08/26] fix: flck_read returned the allocated size instead of
 the bytes read on EAGAIN

---
 lib/flckutil.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index c44cc4b..18c57ab 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -440,6 +440,7 @@ ssize_t flck_read(int fd, unsigned char** ppbuff)
 		if(-1 == (readsize = read(fd, &pbuff[pos], pagesize))){
 			if(EAGAIN == errno){
 				//MSG_FLCKPRN("reading fd reached end(EAGAIN)");
+				buffsize = pos;
 				break;
 			}else if(EINTR == errno){
 				//MSG_FLCKPRN("break reading fd by signal, so retry to read.");
-- 
2.43.0


From c14938a924fc86b2d6924edc9077e2b266c38ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 09/26] fix: a dead no-fd lock owner was cached as running

---
 lib/flckpidcache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckpidcache.h b/lib/flckpidcache.h
index 382e2a6..443c3cf 100644
--- a/lib/flckpidcache.h
+++ b/lib/flckpidcache.h
@@ -129,7 +129,7 @@ inline bool set_no_device_cache(fl_pid_cache_map_t* pcache, pid_t pid, tid_t tid
 		return false;
 	}
 	FLPIDCACHEKEY	key(pid, tid, fd);
-	FLPIDCACHEVAL	val;				// empty
+	FLPIDCACHEVAL	val(FLCK_INVALID_ID, FLCK_INVALID_ID, false);	// empty
 	(*pcache)[key] = val;
 	return true;
 }
-- 
2.43.0


From e928a34a4e42ec1dd3823316ad4f79c173486294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 10/26] fix: a lock of a terminated thread was kept while its
 process held the fd open

---
 lib/flckutil.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 18c57ab..e3e3d4d 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -321,7 +321,8 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 	}else{
 		char	szPath[PATH_MAX];
 		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, fd);
-		if(EACCES == (result = GetFileDevNode(szPath, devid, inodeid))){
+		result = GetFileDevNode(szPath, devid, inodeid);
+		if(EACCES == result || 0 == result){
 			// Need to check thread(process) running.
 			//
 			struct stat	st;
-- 
2.43.0


From b9f0bd58f432be8bf690b60207139e13691a1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 11/26] fix: unlocking leaked the unlocked offset entries of
 the freed file entry

---
 lib/flckshm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 545201e..7365e09 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -770,6 +770,9 @@ int FlShm::RawLock(FLCKLOCKTYPE LockType, int fd, off_t offset, size_t length, t
 		// check free
 		if(FlShm::IsFreeUnitFd()){
 			if(!tglistobj.is_locked()){
+				// free all(unlocked offset entries could be left)
+				tglistobj.free_offset_lock_list();
+
 				// retrieve target list
 				if(tglistobj.cutoff_list(FlShm::pFlHead->file_lock_list)){
 					// return object to free list
-- 
2.43.0


From 7a5a80b8ee8a11194b8bd49e0125480e299b919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 12/26] fix: timed cond wait could return without owning the
 mutex

---
 lib/flcklistwaiter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index ceeee57..73ef030 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -93,7 +93,8 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 
 		// do lock named mutex
 		int	subresult;
-		if(0 != (subresult = tgnmtxobj.lock(timeout_usec))){
+		// (the timeout is only for waiting, the caller must own the mutex after this)
+		if(0 != (subresult = tgnmtxobj.lock(FLCK_NO_TIMEOUT))){
 			ERR_FLCKPRN("Could not lock named mutex object(error code=%d) for cond.", subresult);
 			// not need to recover on this case.
 			if(0 == result){
-- 
2.43.0


From 0795337db7d74e2ff4429978712eed98ae7b12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 13/26] fix: a timed out waiter swallowed the signal for
 another waiter

---
 lib/flcklistwaiter.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index 73ef030..5ea21c2 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -89,6 +89,12 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 		}else{
 			struct timespec	timeout = {(timeout_usec / (1000 * 1000)), ((timeout_usec % (1000 * 1000)) * 1000)};
 			result = fl_timedwait_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP, &timeout);
+
+			// stop waiting now, so that a signal after this goes to another waiter.
+			if(0 != result && FLCK_NCOND_UP == __sync_val_compare_and_swap(&(pcurrent->lockstatus), FLCK_NCOND_WAIT, FLCK_NCOND_UP)){
+				// already got signal, so must not lose it.
+				result = 0;
+			}
 		}
 
 		// do lock named mutex
-- 
2.43.0


From 1d2fcf877a63f94b13834112652c9dfd26262ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 14/26] fix: dead lock check could force unlock a mutex taken
 over by a live owner

---
 lib/flcklistnmtx.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/flcklistnmtx.cc b/lib/flcklistnmtx.cc
index 8a7d429..e087e1a 100644
--- a/lib/flcklistnmtx.cc
+++ b/lib/flcklistnmtx.cc
@@ -113,6 +113,11 @@ bool FlListNMtx::check_dead_lock(fl_pid_cache_map_t* pcache, flckpid_t except_fl
 		return false;
 	}
 
+	// the owner could have unlocked it(and exited) after lockval was read.
+	if(lockval != pcurrent->lockval){
+		return false;
+	}
+
 	// thread(process) does not run, so mutex is dead lock
 	// do force unlock
 	fl_force_unlock_mutex(&(pcurrent->lockval), &(pcurrent->lockcnt));
-- 
2.43.0


From 7abb4f14c5b08c34c21ec526f25b6eda4e1fec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 15/26] fix: the system page size was never asked

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index e3e3d4d..74cc650 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -542,7 +542,7 @@ size_t GetSystemPageSize(void)
 	static size_t	s_pagesize	= FLCK_DEFAULT_SYSTEM_PAGESIZE;
 	static bool		s_init		= false;
 
-	if(s_init){
+	if(!s_init){
 		long psize = sysconf(_SC_PAGE_SIZE);
 		if(-1 == psize){
 			ERR_FLCKPRN("Could not get page size(errno = %d), so return %d byte", errno, FLCK_DEFAULT_SYSTEM_PAGESIZE);
-- 
2.43.0


From 84986d65eb9078c792b1255dab0773cf74f04f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 16/26] fix: a number string with wrong characters was accepted

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 74cc650..58ba3e0 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -107,7 +107,7 @@ bool CvtNumberStringToLong(const char* str, long* presult)
 	if((ERANGE == errno && (LONG_MAX == *presult || LONG_MIN == *presult)) || (0 != errno && 0L == *presult)){
 		MSG_FLCKPRN("could not convert %s to long, because under(or over) flow", str);
 		return false;
-	}else if(!errptr){
+	}else if(!errptr || errptr == str || '\0' != *errptr){
 		MSG_FLCKPRN("could not convert %s to long, because wrong character in it.", str);
 		return false;
 	}
-- 
2.43.0


From 705b187e5b35f32a072755e403bd4cdc6a8c60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 17/26] fix: forked child did not hold the read lock of the shm
 file

---
 lib/flckshm.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 7365e09..cddd486 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -632,6 +632,11 @@ bool FlShm::CheckCondDeadLock(fl_pid_cache_map_t* pcache_map, flckpid_t flckpid,
 //
 void FlShm::PreforkHandler(void)
 {
+	// fcntl lock is not inherited, so without this the shm file could be
+	// initialized by another process after the parent exited.
+	if(FLCK_INVALID_HANDLE != FlShm::ShmFd && !FileReadLock(FlShm::ShmFd, 0L)){
+		ERR_FLCKPRN("Could not lock read mode to shm file for child process(%d), but continue...", getpid());
+	}
 	if(FlShm::pCheckPidThread){
 		if(!FlShm::pCheckPidThread->ReInitializeThread()){
 			ERR_FLCKPRN("Call Prefork handler and try to reinitialize thread for child process(%d), but FAILED TO RUN THREAD", getpid());
-- 
2.43.0


From 407460c77459b211515a8785a3551c3523a0aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 18/26] fix: islocked ignored the range and answered for the
 whole file

---
 lib/flcklistfilelock.cc | 23 +++++++++++++++++++++++
 lib/flcklistfilelock.h  |  1 +
 lib/flckshm.cc          |  2 +-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index be5aa56..f4ac6e4 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -215,6 +215,29 @@ bool FlListFileLock::is_locked(void) const
 	return false;
 }
 
+//
+// Need to lock list before calling this.
+//
+bool FlListFileLock::is_locked(off_t offset, size_t length) const
+{
+	if(!pcurrent){
+		return false;
+	}
+	// check only offset objects which the range overlaps
+	FLOFFLOCK	tmp;
+	tmp.offset	= offset;
+	tmp.length	= length;
+
+	FlListOffLock	tmpobj;
+	for(PFLOFFLOCK pabscur = to_abs(pcurrent->offset_lock_list); pabscur; pabscur = to_abs(pabscur->next)){
+		tmpobj.set(pabscur);
+		if(0 == fl_compare_list_base(&tmp, pabscur) && tmpobj.is_locked()){
+			return true;
+		}
+	}
+	return false;
+}
+
 bool FlListFileLock::free_offset_lock_list(void)
 {
 	if(!pcurrent){
diff --git a/lib/flcklistfilelock.h b/lib/flcklistfilelock.h
index 0d9dfa9..7574051 100644
--- a/lib/flcklistfilelock.h
+++ b/lib/flcklistfilelock.h
@@ -69,6 +69,7 @@ class FlListFileLock : public fllistbasefilelock
 		}
 
 		bool is_locked(void) const;
+		bool is_locked(off_t offset, size_t length) const;
 		inline void set_protect(void) { if(pcurrent){ pcurrent->protect = true; } }
 		bool free_offset_lock_list(void);
 
diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index cddd486..16ded4f 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -874,7 +874,7 @@ bool FlShm::IsLocked(int fd, off_t offset, size_t length)
 		return false;
 	}
 
-	bool	result = tglistobj.is_locked();
+	bool	result = tglistobj.is_locked(offset, length);
 	fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);			// unlock lockid
 
 	return result;
-- 
2.43.0


From 019dfcfdd254b3aa2736e124c2841dab7aaf14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 19/26] fix: the fork handler was missing without robust mode
 and set again at every reinitializing

---
 lib/flckshminit.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 1e6129b..57d0957 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -214,15 +214,21 @@ bool FlShm::InitializeShm(void)
 			FlShm::Detach();
 			return false;
 		}
+	}
 
-		// [NOTE]
-		// When the program which loads this fullock library is forked, we need to start worker thread
-		// in child process.
-		// Thus we set a handler at forking, and it initializes and runs thread in child process.
-		//
+	// [NOTE]
+	// When the program which loads this fullock library is forked, we need to start worker thread
+	// in child process.
+	// Thus we set a handler at forking, and it initializes and runs thread in child process.
+	// (the handler also locks shm file, so it is needed without worker thread. set it only once.)
+	//
+	static bool	is_set_handler = false;
+	if(!is_set_handler){
 		int	result = pthread_atfork(NULL, NULL, PreforkHandler);
 		if(0 != result){
 			ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+		}else{
+			is_set_handler = true;
 		}
 	}
 	return true;
-- 
2.43.0


From d34c282575d315d608c886a559eee58f56bcd4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 20/26] fix: a signal could still be lost to a waiter just
 timing out

---
 lib/flcklistncond.cc  | 22 ++++++++++++----------
 lib/flcklistwaiter.cc |  5 ++++-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/lib/flcklistncond.cc b/lib/flcklistncond.cc
index 372236e..d3cef79 100644
--- a/lib/flcklistncond.cc
+++ b/lib/flcklistncond.cc
@@ -76,7 +76,7 @@ int FlListNCond::rawlock(FLCKLOCKTYPE LockType, bool is_broadcast, PFLNAMEDMUTEX
 				if(tmpobj.is_wait()){
 					// wake up waiter
 					int	subresult;
-					if(0 != (subresult = tmpobj.signal())){
+					if(0 != (subresult = tmpobj.signal()) && EAGAIN != subresult){		// EAGAIN means no longer waiting
 						ERR_FLCKPRN("Failed to send signal to waiter(error code=%d).", subresult);
 						if(0 == result){
 							result = subresult;
@@ -86,17 +86,19 @@ int FlListNCond::rawlock(FLCKLOCKTYPE LockType, bool is_broadcast, PFLNAMEDMUTEX
 			}
 
 		}else{	// SIGNAL
-			// get end of waiter list
 			FlListWaiter	tglistobj;
-			if(!tglistobj.rfind(FLCK_NCOND_WAIT, pcurrent->waiter_list)){
-				WAN_FLCKPRN("Could not get end of waiter list, maybe no waiter.");
-				return 0;					// Success
-			}
+			do{
+				// get end of waiter list
+				if(!tglistobj.rfind(FLCK_NCOND_WAIT, pcurrent->waiter_list)){
+					WAN_FLCKPRN("Could not get end of waiter list, maybe no waiter.");
+					return 0;				// Success
+				}
 
-			// wake up waiter
-			if(0 != (result = tglistobj.signal())){
-				ERR_FLCKPRN("Failed to send signal to waiter.");
-			}
+				// wake up waiter
+				if(0 != (result = tglistobj.signal())){
+					ERR_FLCKPRN("Failed to send signal to waiter.");
+				}
+			}while(EAGAIN == result);			// no longer waiting, then next waiter
 		}
 
 	}else{
diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index 5ea21c2..695399b 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -59,7 +59,10 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 	int	result = 0;
 	if(FLCK_NCOND_UP == LockType){
 		// SIGNAL
-		result = fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
+		// (this waiter could have stopped waiting by timeout just now, it must not take this signal)
+		if(FLCK_NCOND_WAIT != __sync_val_compare_and_swap(&(pcurrent->lockstatus), FLCK_NCOND_WAIT, FLCK_NCOND_UP)){
+			result = EAGAIN;				// EAGAIN
+		}
 
 	}else{
 		// FLCK_NCOND_WAIT
-- 
2.43.0


From 060457fea3ae03fd48771bcd0f6bbc06822489c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 21/26] fix: a signal for a waiter which was about to wait
 could be overwritten

---
 lib/flcklistwaiter.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index 695399b..82e3152 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -74,8 +74,7 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 		}
 		FlListNMtx	tgnmtxobj(to_abs(pcurrent->named_mutex));
 
-		// set lock status to wait
-		fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_WAIT);					// always returns 0
+		// (lock status is already wait, must not set it here because a signal could have come since inserting into list)
 
 		// do unlock named mutex
 		if(0 != (result = tgnmtxobj.unlock())){
-- 
2.43.0


From 81c66ba17a5e41fd32c80ede66bb2d4111c27247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 22/26] fix: the thread control flag could go back from exit or
 finished

---
 lib/flckthread.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index 2d48913..aea3cd4 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -52,6 +52,10 @@ inline void set_val_thread_cntrl_flag(volatile FlckThread::THCNTLFLAG* pflag, Fl
 		if(resval == newval){
 			break;
 		}
+		if(FlckThread::FLCK_THCNTL_EXIT <= resval && newval < resval){
+			// the thread is exiting(or finished), then it must not be back to run/stop(or exit).
+			break;
+		}
 		oldval = resval;
 	}
 }
-- 
2.43.0


From a747769ab9d67db8677b9a47d89ceb64962e4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 23/26] fix: a path resolved to the root directory was
 normalised to an empty string

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 58ba3e0..de52e5c 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -174,7 +174,7 @@ bool GetRealPath(const char* pPath, string& strreal)
 		strreal += "/";
 		strreal += *iter;
 	}
-	if(is_last_slash){
+	if(is_last_slash || strreal.empty()){
 		strreal += "/";
 	}
 	return true;
-- 
2.43.0


From b6a7bc067e5e5d8858223c9204859f446ba6ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:20 +0000
Subject: [PATCH 24/26] fix: reinitialisation as the first use of the library
 failed because the singleton attached the default area after destroying

---
 lib/flckshm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 16ded4f..ada4605 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -326,6 +326,12 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		}
 	}
 
+	// [NOTE]
+	// If the singleton does not exist yet, it must be created here. Otherwise accessing
+	// class variables after destroying creates it, and it attaches the default shm file.
+	//
+	FlShm::InitializeSingleton(NULL);
+
 	// Destroy this
 	if(!FlShm::Destroy()){
 		ERR_FLCKPRN("Failed to destroy now fullock object.");
-- 
2.43.0


From 13608f2d30fa53ff50755915fc3ccb99e22c5ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 25/26] fix: a process which created the shared file failed to
 initialize when another process locked the file first

---
 lib/flckshminit.cc | 95 ++++++++++++++++++----------------------------
 1 file changed, 37 insertions(+), 58 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 57d0957..3753cfe 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -134,69 +134,48 @@ bool FlShm::InitializeShm(void)
 			umask(old_umask);
 			return false;
 		}
-		umask(old_umask);
-
-		// check lock & locking
-		struct timespec	sleeptime = {0L, 10 * 1000 * 1000};		// 10ms
-		bool			isSuccess = false;
-		for(int cnt = 0; cnt < 100; cnt++){						// total 1s
-			// try to lock write mode
-			if(FileWriteLock(FlShm::ShmFd, 0L)){
-				// re-initialize file
-				if(!FlShm::InitializeShmFile()){
-					ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					break;
-				}
-				// Change lock mode to read mode
-				if(!FileReadLock(FlShm::ShmFd, 0L)){
-					ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-					break;
-				}
-				isSuccess = true;
+	}
+	umask(old_umask);
+
+	// check lock & locking
+	// (another process can lock the file which this process has just created, so it takes the same way.)
+	struct timespec	sleeptime = {0L, 10 * 1000 * 1000};		// 10ms
+	bool			isSuccess = false;
+	for(int cnt = 0; cnt < 100; cnt++){						// total 1s
+		// try to lock write mode
+		if(FileWriteLock(FlShm::ShmFd, 0L)){
+			// re-initialize file
+			if(!FlShm::InitializeShmFile()){
+				ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
 				break;
+			}
+			// Change lock mode to read mode
+			if(!FileReadLock(FlShm::ShmFd, 0L)){
+				ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
+				break;
+			}
+			isSuccess = true;
+			break;
 
-			}else{
-				// try to lock read mode
-				if(FileReadLock(FlShm::ShmFd, 0L)){
-					// attach
-					if(!FlShm::Attach()){
-						ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					}else{
-						isSuccess = true;
-					}
-					break;
+		}else{
+			// try to lock read mode
+			if(FileReadLock(FlShm::ShmFd, 0L)){
+				// attach
+				if(!FlShm::Attach()){
+					ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
+				}else{
+					isSuccess = true;
 				}
-				MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
+				break;
 			}
-			nanosleep(&sleeptime, NULL);
-		}
-		if(!isSuccess){
-			ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
-		}
-
-	}else{
-		umask(old_umask);
-
-		// lock write mode ASSAP
-		if(!FileWriteLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FLCK_CLOSE(FlShm::ShmFd);
-			return false;
-		}
-		// initialize file
-		if(!FlShm::InitializeShmFile()){
-			ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-			FlShm::Detach();
-			return false;
-		}
-		// Change lock mode to read mode
-		if(!FileReadLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
+			MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
 		}
+		nanosleep(&sleeptime, NULL);
+	}
+	if(!isSuccess){
+		ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
+		FlShm::Detach();
+		return false;
 	}
 
 	// run epoll thread
-- 
2.43.0


From b89c612c33a26e092352bf7e8410ef9a3fd1a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:00 +0000
Subject: [PATCH 26/26] fix: waiting on a recursively locked mutex did not
 release all of its levels

---
 lib/flcklistnmtx.h    |  1 +
 lib/flcklistwaiter.cc | 23 +++++++++++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/flcklistnmtx.h b/lib/flcklistnmtx.h
index 270e61d..5f3c684 100644
--- a/lib/flcklistnmtx.h
+++ b/lib/flcklistnmtx.h
@@ -89,6 +89,7 @@ class FlListNMtx : public fllistbasenmtx
 
 		inline int lock(time_t timeout_usec = FLCK_NO_TIMEOUT) { return rawlock(FLCK_NMTX_LOCK, timeout_usec); }
 		inline int unlock(void) { return rawlock(FLCK_UNLOCK, FLCK_NO_TIMEOUT); }
+		inline bool is_owner(void) const { return (pcurrent && get_flckpid() == pcurrent->lockval); }
 
 		bool check_dead_lock(fl_pid_cache_map_t* pcache = NULL, flckpid_t except_flckpid = FLCK_INVALID_ID);
 };
diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index 82e3152..9724bef 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -84,6 +84,11 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 			fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
 			return result;
 		}
+		// (the caller could lock it recursively, so release all levels)
+		int	level = 1;
+		while(tgnmtxobj.is_owner() && 0 == tgnmtxobj.unlock()){
+			++level;
+		}
 
 		// do wait
 		if(FLCK_NO_TIMEOUT == timeout_usec){
@@ -100,15 +105,17 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 		}
 
 		// do lock named mutex
-		int	subresult;
-		// (the timeout is only for waiting, the caller must own the mutex after this)
-		if(0 != (subresult = tgnmtxobj.lock(FLCK_NO_TIMEOUT))){
-			ERR_FLCKPRN("Could not lock named mutex object(error code=%d) for cond.", subresult);
-			// not need to recover on this case.
-			if(0 == result){
-				result = subresult;
+		// (the timeout is only for waiting, the caller must own the mutex at all levels after this)
+		for(; 0 < level; --level){
+			int	subresult;
+			if(0 != (subresult = tgnmtxobj.lock(FLCK_NO_TIMEOUT))){
+				ERR_FLCKPRN("Could not lock named mutex object(error code=%d) for cond.", subresult);
+				// not need to recover on this case.
+				if(0 == result){
+					result = subresult;
+				}
+				return result;
 			}
-			return result;
 		}
 	}
 	return result;
-- 
2.43.0

