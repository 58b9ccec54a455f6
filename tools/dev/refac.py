#!/usr/bin/env python3
"""refac.py BATCH [DIR] : behaviour-preserving edits of a copy of /repo, to see that the contracts stay quiet.
usage: python3 tools/dev/refac.py A /tmp/rfA ; python3-vt -m vf.try1 --repo=/tmp/rfA"""
import re, subprocess, sys, os
B = {}
O, FL, NM, NC, LK, WT = ('lib/flcklist%s.cc' % x for x in ('offlock', 'filelock', 'nmtx', 'ncond', 'locker', 'waiter'))
SH, UT, TH, IN, TC = 'lib/flckshm.cc', 'lib/flckutil.cc', 'lib/flckthread.cc', 'lib/flckshminit.cc', 'lib/flckbaselist.tcc'


def fn_loop(s, start, end):
    i = s.index(start); j = s.index(end, i)
    return i, j


# ------------------------------------------------ A: records
B['A'] = [
 # helper for putting back a unit
 (O, '//---------------------------------------------------------\n// FlListOffLock class\n', '''static void put_back_locker(FlListLocker& obj, PFLLOCKER& freelist)
{
	if(!obj.insert_list(freelist)){
		ERR_FLCKPRN("Failed to insert locker to free list, but continue...");
	}
}

static inline int one_lock(FLCKLOCKTYPE LockType, flck_rwlock_t* plockval, time_t timeout_usec, int max_count)
{
	const bool is_read = (FLCK_READ_LOCK == LockType);
	if(FLCK_TRY_TIMEOUT == timeout_usec){
		return (is_read ? fl_tryrdlock_rwlock(plockval) : fl_trywrlock_rwlock(plockval));
	}
	if(FLCK_NO_TIMEOUT == timeout_usec){
		return (is_read ? fl_rdlock_rwlock(plockval, max_count) : fl_wrlock_rwlock(plockval, max_count));
	}
	struct timespec	timeout;
	timeout.tv_sec	= timeout_usec / (1000 * 1000);
	timeout.tv_nsec	= (timeout_usec % (1000 * 1000)) * 1000;
	return (is_read ? fl_timedrdlock_rwlock(plockval, &timeout) : fl_timedwrlock_rwlock(plockval, &timeout));
}

//---------------------------------------------------------
// FlListOffLock class
'''),
 (O, '''			// return object to free list
			if(!tglistobj.insert_list(FlShm::pFlHead->locker_free)){
				ERR_FLCKPRN("Failed to insert locker to free list, but continue...");
			}
		}

	}else{''', '''			put_back_locker(tglistobj, FlShm::pFlHead->locker_free);
		}

	}else{'''),
 (O, '''		bool			is_writer = true;
		FlListLocker	tglistobj;
''', '''		FlListLocker	tglistobj;
		const bool		is_writer = tglistobj.find(flckpid, fd, true, pcurrent->writer_list);
'''),
 (O, '''		if(!tglistobj.find(flckpid, fd, true, pcurrent->writer_list)){
			// second: check reader list
			if(!tglistobj.find(flckpid, fd, true, pcurrent->reader_list)){
				// not found target.
				ERR_FLCKPRN("Could not locking rwlock object for pid(%d), tid(%d), fd(%d) in reader_list(%p).", decompose_pid(flckpid), decompose_tid(flckpid), fd, pcurrent->reader_list);
				return EINVAL;				// EINVAL
			}
			is_writer = false;
		}
''', '''		if(!is_writer && !tglistobj.find(flckpid, fd, true, pcurrent->reader_list)){
			return EINVAL;				// EINVAL
		}
'''),
 ('re', O, r'''\tint	result;\n\tfor\(result = 0; 0 == result; \)\{.*?if\(0 == result\)\{\n\t\t\t// rwlock succeed\n\t\t\tbreak;\n\t\t\}''', '''	int	result;
	while(true){
		result = one_lock(LockType, &(pcurrent->lockval), timeout_usec, (FlShm::IsHighRobust() ? FlShm::GetRobustLoopCnt() : FLCK_ROBUST_CHKCNT_NOLIMIT));
		if(0 == result || ETIMEDOUT != result || FLCK_NO_TIMEOUT != timeout_usec){
			break;
		}'''),
 ('re', O, r'''		// error\n		if\(EINVAL == result\)\{.*?\n	\}\n	return result;\n\}''', '''		if(!FlShm::IsHighRobust()){
			continue;
		}
		fl_lock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);
		set_protect();
		{
			fl_pid_cache_map_t	cache_map;
			check_dead_lock(devid, inoid, &cache_map, flckpid, fd);
		}
		pcurrent->protect = false;
		fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);
	}
	return result;
}'''),
 # is_locked: while
 (FL, '''	FlListOffLock	tmpobj;
	for(PFLOFFLOCK pabscur = to_abs(pcurrent->offset_lock_list); pabscur; pabscur = to_abs(pabscur->next)){
		tmpobj.set(pabscur);
		if(tmpobj.is_locked()){
			return true;
		}
	}
	return false;''', '''	bool		found	= false;
	PFLOFFLOCK	pabscur	= to_abs(pcurrent->offset_lock_list);
	while(pabscur && !found){
		FlListOffLock	tmpobj(pabscur);
		found	= tmpobj.is_locked();
		pabscur	= to_abs(pabscur->next);
	}
	return found;'''),
 (FL, '''		if(0 == fl_compare_list_base(&tmp, pabscur) && tmpobj.is_locked()){
			return true;
		}''', '''		if(0 != fl_compare_list_base(&tmp, pabscur)){
			continue;
		}
		if(tmpobj.is_locked()){
			return true;
		}'''),
 (FL, '''		FlListOffLock	tglistobj;
		if(!tglistobj.find(offset, length, pcurrent->offset_lock_list)){
			// Not found, so''', '''		FlListOffLock	tglistobj;
		const bool		is_found = tglistobj.find(offset, length, pcurrent->offset_lock_list);
		if(is_found){
			tglistobj.set_protect();
		}else{
			// Not found, so'''),
 (FL, '''		}else{
			tglistobj.set_protect();
		}
		// clear''', '''		}
		// clear'''),
 (NM, '''	flck_mutex_t	lockval = pcurrent->lockval;
	if(lockval == except_flckpid || FLCK_MUTEX_UNLOCK == lockval){
		return false;
	}

	// check thread(process) dead.
	pid_t	pid = decompose_pid(lockval);
	tid_t	tid = decompose_tid(lockval);
	if(FindThreadProcess(pid, tid, pcache)){
		return false;
	}
''', '''	const flck_mutex_t	lockval = pcurrent->lockval;
	if(FLCK_MUTEX_UNLOCK == lockval || except_flckpid == lockval || FindThreadProcess(decompose_pid(lockval), decompose_tid(lockval), pcache)){
		return false;
	}
'''),
 ('re', NM, r'''		do\{\n			if\(FLCK_NO_TIMEOUT == timeout_usec\)\{.*?\}while\(EWOULDBLOCK == result\);\n	\}''', '''		for(;;){
			if(FLCK_TRY_TIMEOUT == timeout_usec){
				result = fl_trylock_mutex(&(pcurrent->lockval), &(pcurrent->lockcnt), flckpid);
			}else if(FLCK_NO_TIMEOUT != timeout_usec){
				struct timespec	timeout = {(timeout_usec / (1000 * 1000)), ((timeout_usec % (1000 * 1000)) * 1000)};
				result = fl_timedlock_mutex(&(pcurrent->lockval), &(pcurrent->lockcnt), flckpid, &timeout);
			}else{
				result = fl_lock_mutex(&(pcurrent->lockval), &(pcurrent->lockcnt), flckpid, (FlShm::IsHighRobust() ? FlShm::GetRobustLoopCnt() : FLCK_ROBUST_CHKCNT_NOLIMIT));
			}
			if(EWOULDBLOCK != result){
				break;
			}
			FlShm::CheckMutexDeadLock(NULL, flckpid, flckpid);
		}
	}'''),
 (LK, '''	if(!GetFileDevNode(pcurrent->flckpid, pcurrent->fd, tgdev, tgino, pcache)){
		// not found this
		return true;
	}else{
		if((static_cast<dev_t>(FLCK_EACCESS_ID) != tgdev && static_cast<ino_t>(FLCK_EACCESS_ID) != tgino) && (tgdev != devid || tgino != inoid)){''', '''	if(!GetFileDevNode(pcurrent->flckpid, pcurrent->fd, tgdev, tgino, pcache)){
		// not found this
		return true;
	}
	const bool is_unknown	= (static_cast<dev_t>(FLCK_EACCESS_ID) == tgdev || static_cast<ino_t>(FLCK_EACCESS_ID) == tgino);
	const bool is_same		= (tgdev == devid && tgino == inoid);
	{
		if(!is_unknown && !is_same){'''),
 (NC, '''			FlListWaiter	tglistobj;
			do{
				// get end of waiter list
				if(!tglistobj.rfind(FLCK_NCOND_WAIT, pcurrent->waiter_list)){
					WAN_FLCKPRN("Could not get end of waiter list, maybe no waiter.");
					return 0;				// Success
				}

				// wake up waiter
				if(0 != (result = tglistobj.signal())){
					ERR_FLCKPRN("Failed to send signal to waiter.");
				}
			}while(EAGAIN == result);			// no longer waiting, then next waiter
''', '''			FlListWaiter	tglistobj;
			while(tglistobj.rfind(FLCK_NCOND_WAIT, pcurrent->waiter_list)){
				result = tglistobj.signal();
				if(EAGAIN != result){
					return result;
				}
			}
			result = 0;
'''),
 (NC, '''	bool			is_deadlock_found = false;
	for(PFLWAITER pabsparent = NULL, pabscur = to_abs(pcurrent->waiter_list); pabscur; ){
		tmpobj.set(pabscur);
		if(tmpobj.check_dead_lock(pcache, except_flckpid)){''', '''	bool			is_deadlock_found = false;
	PFLWAITER		pabsparent	= NULL;
	PFLWAITER		pabscur		= to_abs(pcurrent->waiter_list);
	while(pabscur){
		tmpobj.set(pabscur);
		const bool	is_dead = tmpobj.check_dead_lock(pcache, except_flckpid);
		if(is_dead){'''),
]
# ------------------------------------------------ B: shm, util, thread, init
B['B'] = [
 (SH, 'int FlShm::RawLock(FLCKLOCKTYPE LockType, const char* pname, time_t timeout_usec)\n{', '''static int result_no_attach(bool is_allow)
{
	return is_allow ? 0 : ENOLCK;
}

static int find_or_make(FlListNMtx& obj, const char* pname, PFLNAMEDMUTEX& list, PFLNAMEDMUTEX& freelist)
{
	if(obj.find(pname, list)){
		return 0;
	}
	if(!obj.retrieve_list(freelist)){
		return ENOLCK;
	}
	obj.initialize(pname);
	if(!obj.insert_list(list)){
		obj.insert_list(freelist);
		return ENOLCK;
	}
	return 0;
}

int FlShm::RawLock(FLCKLOCKTYPE LockType, const char* pname, time_t timeout_usec)
{'''),
 ('all', SH, 'return ((NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_ALLOW_NORETRY == FlShm::NomapMode) ? 0 : ENOLCK);', 'return result_no_attach(NOMAP_ALLOW_NORETRY == FlShm::NomapMode || NOMAP_ALLOW_RETRY == FlShm::NomapMode);'),
 ('re', SH, r'''		if\(!tglistobj.find\(pname, FlShm::pFlHead->named_mutex_list\)\)\{\n			// Not found, so get.*?\n		\}\n		fl_unlock_lockid''', '''		result = find_or_make(tglistobj, pname, FlShm::pFlHead->named_mutex_list, FlShm::pFlHead->named_mutex_free);
		if(0 != result){
			fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);
			return result;
		}
		fl_unlock_lockid'''),
 (SH, '''	if(!tglistobj.find(devid, inodeid, FlShm::pFlHead->file_lock_list)){
		fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
		return false;
	}

	bool	result = tglistobj.is_locked(offset, length);
''', '''	bool	result = false;
	if(tglistobj.find(devid, inodeid, FlShm::pFlHead->file_lock_list)){
		result = tglistobj.is_locked(offset, length);
	}
'''),
 (SH, '''	for(PFLNAMEDMUTEX ptmp = to_abs(FlShm::pFlHead->named_mutex_list); ptmp; ptmp = to_abs(ptmp->next)){
		tmpobj.set(ptmp);
		if(tmpobj.check_dead_lock(pcache_map, except_flckpid)){
			result = true;
		}
	}''', '''	PFLNAMEDMUTEX		ptmp = to_abs(FlShm::pFlHead->named_mutex_list);
	while(ptmp){
		tmpobj.set(ptmp);
		result = tmpobj.check_dead_lock(pcache_map, except_flckpid) || result;
		ptmp = to_abs(ptmp->next);
	}'''),
 (SH, '''	if(NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_DENY_RETRY == FlShm::NomapMode){
		if(FlShm::InitializeShm()){
			// Success to initialize
			return true;
		}
		ERR_FLCKPRN("Failed to initialize.");
	}
	return false;''', '''	const bool is_retry = (NOMAP_DENY_RETRY == FlShm::NomapMode || NOMAP_ALLOW_RETRY == FlShm::NomapMode);
	return is_retry && FlShm::InitializeShm();'''),
 (SH, '''	if(FLCK_INITCNT_DEFAULT != filelockcnt){
		FlShm::FileLockAreaCount = filelockcnt;
	}
	if(FLCK_INITCNT_DEFAULT != offlockcnt){
		FlShm::OffLockAreaCount = offlockcnt;
	}
''', '''	FlShm::OffLockAreaCount = (FLCK_INITCNT_DEFAULT == offlockcnt ? FlShm::OffLockAreaCount : offlockcnt);
	FlShm::FileLockAreaCount = (FLCK_INITCNT_DEFAULT == filelockcnt ? FlShm::FileLockAreaCount : filelockcnt);
'''),
 (SH, '''	if(	(FLCK_INITCNT_DEFAULT != filelockcnt	&& (filelockcnt < FLCK_FLCKFILECNT_MIN	|| FLCK_FLCKFILECNT_MAX < filelockcnt))	||
''', '''	if(	is_bad_count(filelockcnt, FLCK_FLCKFILECNT_MIN, FLCK_FLCKFILECNT_MAX)	||
'''),
 (SH, 'bool FlShm::ReInitializeObject(', '''static bool is_bad_count(size_t cnt, size_t min, size_t max)
{
	if(FLCK_INITCNT_DEFAULT == cnt){
		return false;
	}
	return !(min <= cnt && cnt <= max);
}

bool FlShm::ReInitializeObject('''),
 (SH, '''	ROBUSTMODE	oldval	= FlShm::RobustMode;
	FlShm::RobustMode	= newval;

	if(FlShm::ROBUST_HIGH == FlShm::RobustMode){
		if(FlShm::RobustLoopCnt < FLCK_ROBUST_CHKCNT_MIN){
			FlShm::RobustLoopCnt = FLCK_ROBUST_CHKCNT_DEFAULT;
		}
	}
	return oldval;''', '''	const ROBUSTMODE	oldval = FlShm::RobustMode;
	if(FlShm::ROBUST_HIGH == newval && FlShm::RobustLoopCnt < FLCK_ROBUST_CHKCNT_MIN){
		FlShm::RobustLoopCnt = FLCK_ROBUST_CHKCNT_DEFAULT;
	}
	FlShm::RobustMode = newval;
	return oldval;'''),
 (SH, '''		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
		if(tmpenvval < FLCK_FLCKLOCKERCNT_MIN || FLCK_FLCKLOCKERCNT_MAX < tmpenvval){
			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKLOCKERCNT, pEnvVal, FLCK_FLCKLOCKERCNT_MIN, FLCK_FLCKLOCKERCNT_MAX);
		}else{''', '''		const size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
		if(FLCK_FLCKLOCKERCNT_MIN <= tmpenvval && tmpenvval <= FLCK_FLCKLOCKERCNT_MAX){'''),
 (UT, '''	bool	is_run = false;
	if(pcache){
		if(get_execution_cache(pcache, pid, tid, is_run)){
			return is_run;
		}
	}

	char		szPath[PATH_MAX];
	struct stat	st;
	sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
	if(-1 == stat(szPath, &st)){
		is_run = false;
	}else{
		is_run = true;
	}
''', '''	bool	is_run = false;
	if(pcache && get_execution_cache(pcache, pid, tid, is_run)){
		return is_run;
	}
	struct stat	st;
	char		szPath[PATH_MAX];
	sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
	is_run = (0 == stat(szPath, &st));
'''),
 (UT, '''			if(FLCK_INVALID_ID == devid && FLCK_INVALID_ID == inodeid){
				return false;
			}else{
				return true;
			}''', '''			return !(FLCK_INVALID_ID == devid && FLCK_INVALID_ID == inodeid);'''),
 (UT, '''	return (0 == result || EACCES == result);
}

bool GetFileDevNode(int fd''', '''	const bool is_ok = (EACCES == result || 0 == result);
	return is_ok;
}

bool GetFileDevNode(int fd'''),
 (UT, '''	for(read_cnt = 0L, one_read = 0L; static_cast<size_t>(read_cnt) < count; read_cnt += one_read){
		if(-1''', '''	one_read = read_cnt = 0L;
	while(static_cast<size_t>(read_cnt) < count){
		if(-1'''),
 (UT, '''		if(0 == one_read){
			break;
		}
	}
	return read_cnt;''', '''		if(0 == one_read){
			break;
		}
		read_cnt += one_read;
	}
	return read_cnt;'''),
 (UT, '''	while(true){
		if(0 == fcntl(fd, block ? F_SETLKW : F_SETLK, &fl)){
''', '''	const int cmd = (block ? F_SETLKW : F_SETLK);
	for(;;){
		if(0 == fcntl(fd, cmd, &fl)){
'''),
 (UT, '''	for(write_cnt = 0L, one_write = 0L; static_cast<size_t>(write_cnt) < count; write_cnt += one_write){
		one_write = std::min((count - static_cast<size_t>(write_cnt)), sizeof(bydata));
''', '''	for(write_cnt = 0L, one_write = 0L; static_cast<size_t>(write_cnt) < count; write_cnt += one_write){
		const size_t rest = count - static_cast<size_t>(write_cnt);
		one_write = (rest < sizeof(bydata) ? rest : sizeof(bydata));
'''),
 (UT, '''	tid_t	tid;
	if(FlTidCache::IsInit()){
		const void*	pData;
		if(NULL == (pData = pthread_getspecific(FlTidCache::GetTid()))){
			tid = gettid();
''', '''	tid_t	tid;
	if(!FlTidCache::IsInit()){
		return gettid();
	}
	{
		const void*	pData = pthread_getspecific(FlTidCache::GetTid());
		if(!pData){
			tid = gettid();
'''),
 (UT, '''			tid = static_cast<tid_t>(reinterpret_cast<ssize_t>(pData));
		}
	}else{
		tid = gettid();
	}''', '''			tid = static_cast<tid_t>(reinterpret_cast<ssize_t>(pData));
		}
	}'''),
 (TH, '''		if(in_event->mask & IN_CLOSE || in_event->mask & IN_CLOSE_NOWRITE || in_event->mask & IN_CLOSE_WRITE){
			// found close event
			MSG_FLCKPRN("Get close event(%d)", in_event->mask);
			retval = true;
		}''', '''		retval = retval || (0 != (in_event->mask & IN_CLOSE));'''),
 (TH, '''	if(FlckThread::FLCK_THCNTL_STOP != thflag){
		ERR_FLCKPRN("No worker thread is stopping(already run or exit).");
		return false;
	}
	// set flag run to first.
	set_run_thread_cntrl_flag(&thflag);

	return true;''', '''	const bool is_stop = (FlckThread::FLCK_THCNTL_STOP == thflag);
	if(is_stop){
		set_run_thread_cntrl_flag(&thflag);
	}
	return is_stop;'''),
 (IN, '''	size_t	sz_head		= sizeof(FLHEAD);
	size_t	sz_filelock	= sizeof(FLFILELOCK)	* FlShm::FileLockAreaCount;
''', '''	size_t	sz_filelock	= FlShm::FileLockAreaCount * sizeof(FLFILELOCK);
	const size_t	sz_head	= sizeof(FLHEAD);
'''),
 (IN, '''	for(int cnt = 0; cnt < 100; cnt++){						// total 1s
''', '''	int cnt = 0;
	while(cnt++ < 100){						// total 1s
'''),
 (IN, '''	if(FlShm::pCheckPidThread){
		FlShm::pCheckPidThread->Exit();
		FLCK_Delete(FlShm::pCheckPidThread);
	}''', '''	FlckThread*	pworker = FlShm::pCheckPidThread;
	if(NULL != pworker){
		pworker->Exit();
		delete pworker;
		FlShm::pCheckPidThread = NULL;
	}'''),
]
# ------------------------------------------------ C: primitives and lists
B['C'] = [
 (TC, '''			beforeval	= *plockval;
			newval		= beforeval + 1;
		}while((FLCK_RWLOCK_UNLOCK > beforeval || beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval)) && -1 <= sched_yield());
		return 0;''', '''			beforeval	= *plockval;
			newval		= beforeval + 1;
			if(FLCK_RWLOCK_UNLOCK <= beforeval && __sync_bool_compare_and_swap(plockval, beforeval, newval)){
				return 0;
			}
			sched_yield();
		}while(true);'''),
 (TC, '''		if(FLCK_RWLOCK_UNLOCK > beforeval){
			return EBUSY;
		}
		if(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval)){
			return EBUSY;
		}
		return 0;''', '''		const bool is_got = (FLCK_RWLOCK_UNLOCK <= beforeval && beforeval == __sync_val_compare_and_swap(plockval, beforeval, newval));
		return is_got ? 0 : EBUSY;'''),
 (TC, '''		int			cnt = 0;
		do{
			if(FLCK_ROBUST_CHKCNT_NOLIMIT != max_count && max_count < cnt){
				return ETIMEDOUT;
			}else{
				cnt++;
			}
		}while(FLCK_RWLOCK_UNLOCK != __sync_val_compare_and_swap(plockval, FLCK_RWLOCK_UNLOCK, FLCK_RWLOCK_WLOCK) && -1 <= sched_yield());
		return 0;''', '''		for(int cnt = 0; FLCK_ROBUST_CHKCNT_NOLIMIT == max_count || cnt <= max_count; ++cnt){
			if(FLCK_RWLOCK_UNLOCK == __sync_val_compare_and_swap(plockval, FLCK_RWLOCK_UNLOCK, FLCK_RWLOCK_WLOCK)){
				return 0;
			}
			sched_yield();
		}
		return ETIMEDOUT;'''),
 (TC, '''			beforeval		= *plockval;
			if(FLCK_RWLOCK_UNLOCK == beforeval){
				// already unlocked
				break;
			}else if(FLCK_RWLOCK_WLOCK >= beforeval){
				beforeval	= FLCK_RWLOCK_WLOCK;
				newval		= FLCK_RWLOCK_UNLOCK;
			}else{
				newval		= beforeval - 1;
			}''', '''			beforeval		= *plockval;
			if(FLCK_RWLOCK_UNLOCK == beforeval){
				return 0;
			}
			const bool is_writer = (FLCK_RWLOCK_WLOCK >= beforeval);
			newval		= (is_writer ? FLCK_RWLOCK_UNLOCK : beforeval - 1);
			beforeval	= (is_writer ? FLCK_RWLOCK_WLOCK : beforeval);'''),
 (TC, '''			if(0 <= oldcnt){
				// success to count up --> check lockval(this is failed but get old value)
				if(lockid == __sync_val_compare_and_swap(plockval, lockid, lockid)){
					// success to lock
					return 0;
				}
			}
''', '''				if(0 <= oldcnt && lockid == __sync_val_compare_and_swap(plockval, lockid, lockid)){
					return 0;
				}
'''),
 (TC, '''		for(st_ptr_type pabstarget = to_abs(preltop); pabstarget; pabstarget = to_abs(pabstarget->next)){
			if(0 == fl_compare_list_base(pbase, pabstarget)){
				lastfound = pabstarget;
			}
		}
		if(nullval != lastfound){''', '''		st_ptr_type	pabstarget = to_abs(preltop);
		while(pabstarget){
			if(0 == fl_compare_list_base(pbase, pabstarget)){
				lastfound = pabstarget;
			}
			pabstarget = to_abs(pabstarget->next);
		}
		if(nullval != lastfound){'''),
 (TC, '''		st_ptr_type	oldreltop;
		do{
			oldreltop		= preltop;
			pcurrent->next	= oldreltop;
		}while(oldreltop != __sync_val_compare_and_swap(&preltop, oldreltop, newreltop));

		return true;''', '''		while(true){
			st_ptr_type	oldreltop = preltop;
			pcurrent->next	= oldreltop;
			if(__sync_bool_compare_and_swap(&preltop, oldreltop, newreltop)){
				return true;
			}
		}'''),
 (TC, '''		st_ptr_type	prev= nullval;
		for(size_t cnt = 0; cnt < count; ++cnt){
			if(prev){
				prev->next = to_rel(ptr);
			}
			ptr->next	= nullval;
			prev		= ptr++;
		}
		return true;''', '''		for(size_t cnt = 0; cnt < count; ++cnt){
			ptr[cnt].next = (cnt + 1 < count ? to_rel(&ptr[cnt + 1]) : nullval);
		}
		return true;'''),
 (TC, '''			struct timespec	endtime;
			if(-1 == clock_gettime(CLOCK_MONOTONIC, &endtime)){
				return EBUSY;
			}
			if(IS_OVER_TIMESPEC(&starttime, &endtime, limittime)){
				return ETIMEDOUT;
			}
			sched_yield();
		}
		return 0;
	}

	inline int fl_force_set_cond''', '''			struct timespec	endtime;
			int	res = clock_gettime(CLOCK_MONOTONIC, &endtime);
			if(-1 == res || IS_OVER_TIMESPEC(&starttime, &endtime, limittime)){
				return (-1 == res ? EBUSY : ETIMEDOUT);
			}
			sched_yield();
		}
		return 0;
	}

	inline int fl_force_set_cond'''),
 (TC, '''		for(oldstatus1 = *plockstatus; oldstatus1 != (oldstatus2 = __sync_val_compare_and_swap(plockstatus, oldstatus1, newstatus)); oldstatus1 = oldstatus2){
			sched_yield();
		}''', '''		oldstatus1 = *plockstatus;
		while(true){
			oldstatus2 = __sync_val_compare_and_swap(plockstatus, oldstatus1, newstatus);
			if(oldstatus1 == oldstatus2){
				break;
			}
			oldstatus1 = oldstatus2;
			sched_yield();
		}'''),
]

OH, FH, LH, NH, WH, UH = 'lib/flcklistofflock.h', 'lib/flcklistfilelock.h', 'lib/flcklistlocker.h', 'lib/flcklistnmtx.h', 'lib/flcklistwaiter.h', 'lib/flckutil.h'
# ------------------------------------------------ D: records again, comparators, primitives
B['D'] = [
 (O, '//---------------------------------------------------------\n// FlListOffLock class\n', '''static void check_locker_list(PFLLOCKER& list, PFLLOCKER& freelist, flck_rwlock_t* plockval, dev_t devid, ino_t inoid, fl_pid_cache_map_t* pcache, flckpid_t except_flckpid, int except_fd)
{
	FlListLocker	tmpobj;
	PFLLOCKER		pnext;
	for(PFLLOCKER pabscur = to_abs(list); pabscur; pabscur = pnext){
		pnext = to_abs(pabscur->next);
		tmpobj.set(pabscur);
		if(!tmpobj.check_dead_lock(devid, inoid, pcache, except_flckpid, except_fd)){
			continue;
		}
		if(!tmpobj.cutoff_list(list)){
			continue;
		}
		if(tmpobj.is_locked()){
			fl_unlock_rwlock(plockval);
		}
		tmpobj.insert_list(freelist);
	}
}

//---------------------------------------------------------
// FlListOffLock class
'''),
 ('re', O, r'''	FlListLocker	tmpobj;\n\n	// check reader list\n	for\(PFLLOCKER pabsparent.*?	return !is_locked\(\);''', '''	check_locker_list(pcurrent->reader_list, FlShm::pFlHead->locker_free, &(pcurrent->lockval), devid, inoid, pcache, except_flckpid, except_fd);
	check_locker_list(pcurrent->writer_list, FlShm::pFlHead->locker_free, &(pcurrent->lockval), devid, inoid, pcache, except_flckpid, except_fd);
	return !is_locked();'''),
 (O, '''		// Always get new locker object.
''', '''		PFLLOCKER&		mylist = (FLCK_READ_LOCK == LockType ? pcurrent->reader_list : pcurrent->writer_list);
'''),
 ('all', O, '(FLCK_READ_LOCK == LockType ? pcurrent->reader_list : pcurrent->writer_list))', 'mylist)'),
 (FL, '//---------------------------------------------------------\n// FlListFileLock class\n', '''static void free_if_unused(FlListOffLock& obj, PFLOFFLOCK& list, PFLOFFLOCK& freelist)
{
	if(obj.is_locked() || !obj.cutoff_list(list)){
		return;
	}
	if(!obj.insert_list(freelist)){
		ERR_FLCKPRN("Failed to insert offset lock to free list, but continue...");
	}
}

//---------------------------------------------------------
// FlListFileLock class
'''),
 ('re', FL, r'''		if\(FlShm::IsFreeUnitOffset\(\)\)\{\n			if\(!tglistobj.is_locked\(\)\)\{.*?\n			\}\n		\}\n''', '''		if(FlShm::IsFreeUnitOffset()){
			free_if_unused(tglistobj, pcurrent->offset_lock_list, FlShm::pFlHead->offset_lock_free);
		}
'''),
 ('re', FL, r'''					if\(!tglistobj.is_locked\(\)\)\{.*?\n					\}\n''', '''					free_if_unused(tglistobj, pcurrent->offset_lock_list, FlShm::pFlHead->offset_lock_free);
'''),
 ('re', FL, r'''	for\(PFLOFFLOCK pabsparent = NULL, pabscur = to_abs\(pcurrent->offset_lock_list\); pabscur; \)\{.*?	return !is_locked\(\);''', '''	for(PFLOFFLOCK pnext, pabscur = to_abs(pcurrent->offset_lock_list); pabscur; pabscur = pnext){
		pnext = to_abs(pabscur->next);
		tmpobj.set(pabscur);
		if(tmpobj.check_dead_lock(pcurrent->dev_id, pcurrent->ino_id, pcache, except_flckpid, except_fd) && tmpobj.cutoff_list(pcurrent->offset_lock_list)){
			tmpobj.insert_list(FlShm::pFlHead->offset_lock_free);
		}
	}
	return !is_locked();'''),
 ('re', LH, r'''	if\(psrc1->flckpid < psrc2->flckpid\)\{.*?\n	return 0;''', '''	if(psrc1->flckpid != psrc2->flckpid){
		return (psrc1->flckpid < psrc2->flckpid ? -1 : 1);
	}
	if(psrc1->fd != psrc2->fd){
		return (psrc1->fd < psrc2->fd ? -1 : 1);
	}
	if(psrc1->locked != psrc2->locked){
		return (psrc1->locked ? -1 : 1);
	}
	return 0;'''),
 ('re', OH, r'''	int	result = 0;\n	if\(psrc1->offset < psrc2->offset.*?\n	return result;''', '''	if(psrc1->offset == psrc2->offset){
		return 0;
	}
	const size_t	end1 = psrc1->offset + psrc1->length;
	const size_t	end2 = psrc2->offset + psrc2->length;
	if(psrc1->offset > psrc2->offset){
		return (end1 <= end2 || static_cast<size_t>(psrc1->offset) < end2) ? 0 : -1;
	}
	return (end2 <= end1 || static_cast<size_t>(psrc2->offset) < end1) ? 0 : 1;'''),
 ('re', FH, r'''	int result = 0;\n	if\(psrc1->dev_id.*?\n	return result;''', '''	if(psrc1->dev_id == psrc2->dev_id && psrc1->ino_id == psrc2->ino_id){
		return 0;
	}
	if(psrc1->dev_id != psrc2->dev_id){
		return (psrc1->dev_id < psrc2->dev_id ? 1 : -1);
	}
	return (psrc1->ino_id < psrc2->ino_id ? 1 : -1);'''),
 (NH, '''			FLNAMEDMUTEX 	tmp;
			if(!FLCKEMPTYSTR(pname)){
				tmp.name[FLCK_NAMED_MUTEX_MAXLENGTH] = '\\0';
				strncpy(tmp.name, pname, FLCK_NAMED_MUTEX_MAXLENGTH);
				tmp.hash = flck_fnv_hash(&tmp.name[0], strlen(tmp.name));
			}else{
				tmp.name[0]	= '\\0';
				tmp.hash	= 0;
			}
''', '''			FLNAMEDMUTEX 	tmp;
			const bool		is_empty = FLCKEMPTYSTR(pname);
			if(is_empty){
				tmp.hash	= 0;
				tmp.name[0]	= '\\0';
			}else{
				strncpy(tmp.name, pname, FLCK_NAMED_MUTEX_MAXLENGTH);
				tmp.name[FLCK_NAMED_MUTEX_MAXLENGTH] = '\\0';
				tmp.hash = flck_fnv_hash(tmp.name, strlen(tmp.name));
			}
'''),
 (WT, '''		if(FLCK_NCOND_WAIT != __sync_val_compare_and_swap(&(pcurrent->lockstatus), FLCK_NCOND_WAIT, FLCK_NCOND_UP)){
			result = EAGAIN;				// EAGAIN
		}
''', '''		return (__sync_bool_compare_and_swap(&(pcurrent->lockstatus), FLCK_NCOND_WAIT, FLCK_NCOND_UP) ? 0 : EAGAIN);
'''),
 ('re', WT, r'''	if\(flckpid == except_flckpid\)\{.*?	return true;''', '''	return (flckpid != except_flckpid && !FindThreadProcess(decompose_pid(flckpid), decompose_tid(flckpid), pcache));'''),
 (NC, '''		if(tglistobj.cutoff_list(pcurrent->waiter_list)){
			// put back waiter to free
			if(!tglistobj.insert_list(FlShm::pFlHead->waiter_free)){
				ERR_FLCKPRN("Failed to insert waiter to free list, but continue...");
			}
		}else{
			ERR_FLCKPRN("Could not retrieve waiter from list, but continue...");
			if(0 == result){
				result = ENOLCK;			// ENOLCK
			}
		}
''', '''		const bool is_cut = tglistobj.cutoff_list(pcurrent->waiter_list);
		if(is_cut){
			tglistobj.insert_list(FlShm::pFlHead->waiter_free);
		}
		if(!is_cut && 0 == result){
			result = ENOLCK;			// ENOLCK
		}
'''),
 (UH, '''	if((end)->tv_nsec < (start)->tv_nsec){
		if(1 > (end)->tv_sec){
			(result)->tv_sec	= 0;
			(result)->tv_nsec	= 0;
			return;
		}
		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec;
		(result)->tv_nsec	= (end)->tv_nsec + (1000 * 1000 * 1000) - (start)->tv_nsec;
	}else{
		(result)->tv_sec	= (end)->tv_sec - (start)->tv_sec;
		(result)->tv_nsec	= (end)->tv_nsec - (start)->tv_nsec;
	}''', '''	const bool is_borrow = ((end)->tv_nsec < (start)->tv_nsec);
	if(is_borrow && (end)->tv_sec <= 0){
		(result)->tv_sec	= 0;
		(result)->tv_nsec	= 0;
		return;
	}
	(result)->tv_sec	= (end)->tv_sec - (start)->tv_sec;
	(result)->tv_nsec	= (end)->tv_nsec - (start)->tv_nsec;
	if(is_borrow){
		(result)->tv_sec	-= 1;
		(result)->tv_nsec	+= 1000 * 1000 * 1000;
	}'''),
 (UH, '''	if((limit)->tv_sec > subtime.tv_sec){
		return false;
	}else if((limit)->tv_sec < subtime.tv_sec){
		return true;
	}

	if((limit)->tv_nsec > subtime.tv_nsec){
		return false;
	}
	return true;''', '''	if(subtime.tv_sec != (limit)->tv_sec){
		return subtime.tv_sec > (limit)->tv_sec;
	}
	return subtime.tv_nsec >= (limit)->tv_nsec;'''),
 (UH, '''	return ((static_cast<flckpid_t>(getpid()) << 32) | (static_cast<flckpid_t>(get_threadid()) & 0xFFFFFFFF));''', '''	const flckpid_t	tid = static_cast<flckpid_t>(static_cast<uint32_t>(get_threadid()));
	return (static_cast<flckpid_t>(getpid()) << 32) + tid;'''),
 ('re', TC, r'''(inline void fl_lock_lockid.*?)		for\(int cnt = 0; FLCK_INVALID_ID != \(oldval1 = __sync_val_compare_and_swap\(pflckpid, FLCK_INVALID_ID, newid\)\); \+\+cnt\)\{\n			if\(oldval1 == newid\)\{\n				// already lockid is newid.\n				break;\n			\}else if\(oldval1 != oldval2\)\{''', '''inline void fl_lock_lockid(flckpid_t* pflckpid, flckpid_t newid)
	{
		flckpid_t	oldval1;
		flckpid_t	oldval2 = FLCK_INVALID_ID;
		for(int cnt = 0; true; ++cnt){
			oldval1 = __sync_val_compare_and_swap(pflckpid, FLCK_INVALID_ID, newid);
			if(FLCK_INVALID_ID == oldval1 || oldval1 == newid){
				return;
			}
			if(oldval1 != oldval2){'''),
 ('re', TC, r'''		do\{\n			// do unlock\n			if\(FLCK_MUTEX_UNLOCK == \*plockval\)\{.*?\n		\}while\(-1 <= sched_yield\(\)\);\n		return 0;''', '''		for(;;){
			const flckpid_t	owner = *plockval;
			if(FLCK_MUTEX_UNLOCK == owner){
				return 0;
			}
			if(lockid != owner){
				return EPERM;
			}
			int	oldcnt = __sync_fetch_and_sub(plockcnt, 1);
			if(1 < oldcnt){
				return 0;
			}
			if(oldcnt < 1){
				__sync_val_compare_and_swap(plockcnt, oldcnt, 0);
			}
			flck_mutex_t	oldval = __sync_val_compare_and_swap(plockval, lockid, FLCK_MUTEX_UNLOCK);
			if(lockid == oldval || FLCK_MUTEX_UNLOCK == oldval){
				return 0;
			}
			__sync_fetch_and_add(plockcnt, 1);
			sched_yield();
		}'''),
 ('re', TC, r'''		st_ptr_type\*	ptroldnext	= &preltop;\n		bool			is_restart	= false;.*?\n		return false;''', '''		st_ptr_type*	ptroldnext	= &preltop;
		st_ptr_type		pabstarget	= to_abs(preltop);
		while(pabstarget){
			if(pabstarget != pcurrent){
				ptroldnext	= &(pabstarget->next);
				pabstarget	= to_abs(pabstarget->next);
				continue;
			}
			newrelnext = pcurrent->next;
			if(__sync_bool_compare_and_swap(ptroldnext, oldrelnext, newrelnext)){
				pcurrent->next = nullval;
				return true;
			}
			ptroldnext	= &preltop;
			pabstarget	= to_abs(preltop);
		}
		return false;'''),
]
# ------------------------------------------------ E: shm, util, thread, init again
B['E'] = [
 ('re', SH, r'''	for\(PFLFILELOCK pParent = NULL, ptmp = to_abs\(FlShm::pFlHead->file_lock_list\); ptmp; \)\{.*?\n	\}\n	fl_unlock_lockid''', '''	for(PFLFILELOCK pNext, ptmp = to_abs(FlShm::pFlHead->file_lock_list); ptmp; ptmp = pNext){
		pNext = to_abs(ptmp->next);
		tmpobj.set(ptmp);
		if(!tmpobj.check_dead_lock(pcache_map, except_flckpid)){
			continue;
		}
		result = true;
		if(tmpobj.cutoff_list(FlShm::pFlHead->file_lock_list)){
			tmpobj.insert_list(FlShm::pFlHead->file_lock_free);
		}
	}
	fl_unlock_lockid'''),
 (SH, 'int FlShm::RawLock(FLCKLOCKTYPE LockType, int fd, off_t', '''static void free_file_entry(FlListFileLock& obj, PFLFILELOCK& list, PFLFILELOCK& freelist)
{
	if(obj.is_locked()){
		return;
	}
	obj.free_offset_lock_list();
	if(obj.cutoff_list(list) && !obj.insert_list(freelist)){
		ERR_FLCKPRN("Failed to insert file lock to free list, but continue...");
	}
}

int FlShm::RawLock(FLCKLOCKTYPE LockType, int fd, off_t'''),
 ('re', SH, r'''			if\(!tglistobj.is_locked\(\)\)\{\n				// free all\(unlocked.*?\n			\}\n		\}''', '''			free_file_entry(tglistobj, FlShm::pFlHead->file_lock_list, FlShm::pFlHead->file_lock_free);
		}'''),
 ('re', SH, r'''					if\(!tglistobj.is_locked\(\)\)\{\n						// free all\n.*?\n					\}\n				\}''', '''					free_file_entry(tglistobj, FlShm::pFlHead->file_lock_list, FlShm::pFlHead->file_lock_free);
				}'''),
 (SH, '''		if(is_broadcast){
			result = tglistobj.broadcast();
		}else{
			result = tglistobj.signal();
		}''', '''		result = (is_broadcast ? tglistobj.broadcast() : tglistobj.signal());'''),
 (SH, '''	if(FLCK_INVALID_ID == flckpid){
		flckpid	= get_flckpid();
	}
	fl_lock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);''', '''	flckpid = (FLCK_INVALID_ID == flckpid ? get_flckpid() : flckpid);
	fl_lock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);'''),
 (SH, 'bool FlShm::LoadEnv(void)\n{', '''static void load_count(const char* pname, size_t min, size_t max, size_t& count)
{
	const char*	pval = getenv(pname);
	if(!pval){
		return;
	}
	size_t	val = static_cast<size_t>(atoi(pval));
	if(min <= val && val <= max){
		count = val;
	}
}

bool FlShm::LoadEnv(void)
{'''),
 ('re', SH, r'''	// FLCKFILECNT\n	if\(NULL == .*?	// FLCKFREEUNITMODE\n''', '''	load_count(FlShm::FLCKFILECNT, FLCK_FLCKFILECNT_MIN, FLCK_FLCKFILECNT_MAX, FlShm::FileLockAreaCount);
	load_count(FlShm::FLCKOFFETCNT, FLCK_FLCKOFFETCNT_MIN, FLCK_FLCKOFFETCNT_MAX, FlShm::OffLockAreaCount);
	load_count(FlShm::FLCKLOCKERCNT, FLCK_FLCKLOCKERCNT_MIN, FLCK_FLCKLOCKERCNT_MAX, FlShm::LockerAreaCount);
	load_count(FlShm::FLCKNMTXCNT, FLCK_FLCKNMTXCNT_MIN, FLCK_FLCKNMTXCNT_MAX, FlShm::NMtxAreaCount);
	load_count(FlShm::FLCKNCONDCNT, FLCK_FLCKNCONDCNT_MIN, FLCK_FLCKNCONDCNT_MAX, FlShm::NCondAreaCount);
	load_count(FlShm::FLCKWAITERCNT, FLCK_FLCKWAITERCNT_MIN, FLCK_FLCKWAITERCNT_MAX, FlShm::WaiterAreaCount);

	// FLCKFREEUNITMODE
'''),
 (SH, '''		}else if(0 == strcasecmp(pEnvVal, FLCK_NOMAPMODE_ALLOW_STR)){
			MSG_FLCKPRN("ENV %s value %s, set to mode: NOMAP_ALLOW.", FlShm::FLCKNOMAPMODE, pEnvVal);
			FlShm::NomapMode = FlShm::NOMAP_ALLOW;
		}else if(0 == strcasecmp(pEnvVal, FLCK_NOMAPMODE_DENY_STR)){
			MSG_FLCKPRN("ENV %s value %s, set to mode: NOMAP_DENY.", FlShm::FLCKNOMAPMODE, pEnvVal);
			FlShm::NomapMode = FlShm::NOMAP_DENY;
		}''', '''		}else if(0 == strcasecmp(pEnvVal, FLCK_NOMAPMODE_DENY_STR)){
			FlShm::NomapMode = FlShm::NOMAP_DENY;
		}else if(0 == strcasecmp(pEnvVal, FLCK_NOMAPMODE_ALLOW_STR)){
			FlShm::NomapMode = FlShm::NOMAP_ALLOW;
		}'''),
 ('re', SH, r'''	// set dirpath as default\n	\{\n.*?\n	\}\n''', '''	// set dirpath as default
	{
		struct stat	st;
		bool		is_dir = (0 == stat(DEFAULT_SHM_ANTPICKAX_DIRPATH, &st) && 0 != (st.st_mode & S_IFDIR));
		string		toppath(is_dir ? DEFAULT_SHM_ANTPICKAX_DIRPATH : DEFAULT_SHM_SUB_DIRPATH);
		toppath				+= "/" DEFAULT_SHM_DIRNAME;
		FlShm::ShmDirPath()	 = toppath;
	}
'''),
 (UT, '''	if(IS_FLCK_RWLOCK_NO_FD(fd)){
		// [NOTE]
		// fd is FLCK_RWLOCK_NO_FD, it means rwlock with no-fd 
		//
		devid	= FLCK_EACCESS_ID;
		inodeid	= FLCK_EACCESS_ID;
	}else{
		struct stat	st;
		if(-1 == fstat(fd, &st)){''', '''	if(IS_FLCK_RWLOCK_NO_FD(fd)){
		inodeid	= FLCK_EACCESS_ID;
		devid	= FLCK_EACCESS_ID;
		return true;
	}
	{
		struct stat	st;
		if(0 != fstat(fd, &st)){'''),
 (UT, '''		if(EACCES == result || 0 == result){
			// Need to check thread(process) running.
			//
			struct stat	st;
			sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
			if(-1 == stat(szPath, &st)){
				devid	= FLCK_INVALID_ID;
				inodeid	= FLCK_INVALID_ID;
				result	= errno;
			}
		}''', '''		struct stat	st;
		if(0 == result || EACCES == result){
			sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
			if(0 != stat(szPath, &st)){
				result	= errno;
				devid	= FLCK_INVALID_ID;
				inodeid	= FLCK_INVALID_ID;
			}
		}'''),
 ('re', UT, r'''	if\(\(ERANGE == errno.*?\n	return true;''', '''	const bool	is_range = (ERANGE == errno && (LONG_MAX == *presult || LONG_MIN == *presult)) || (0 != errno && 0L == *presult);
	const bool	is_char  = (!errptr || errptr == str || '\\0' != *errptr);
	return !(is_range || is_char);'''),
 (UT, '''		if(0 <= readsize && readsize < pagesize){
			buffsize = pos + readsize;
			break;
		}

		if(buffsize < (pos + readsize + pagesize)){
			// reallocate
			buffsize = pos + readsize + pagesize;
''', '''		const ssize_t next = pos + readsize;
		if(0 <= readsize && readsize < pagesize){
			buffsize = next;
			break;
		}

		if(buffsize < (next + pagesize)){
			// reallocate
			buffsize = next + pagesize;
'''),
 (UT, '''	if(!s_init){
		long psize = sysconf(_SC_PAGE_SIZE);
		if(-1 == psize){
			ERR_FLCKPRN("Could not get page size(errno = %d), so return %d byte", errno, FLCK_DEFAULT_SYSTEM_PAGESIZE);
		}else{
			s_pagesize = static_cast<size_t>(psize);
		}
		s_init = true;
	}
	return static_cast<size_t>(s_pagesize);''', '''	if(s_init){
		return s_pagesize;
	}
	long psize = sysconf(_SC_PAGE_SIZE);
	if(-1 != psize){
		s_pagesize = static_cast<size_t>(psize);
	}
	s_init = true;
	return s_pagesize;'''),
 (TH, '''	for(unsigned char* ptr = pevent; (ptr + sizeof(struct inotify_event)) <= (pevent + bytes); ptr += sizeof(struct inotify_event) + ev_len){
		in_event = reinterpret_cast<struct inotify_event*>(ptr);
		if(!in_event){
			ev_len = 0;
			continue;
		}
''', '''	for(ssize_t pos = 0; pos + static_cast<ssize_t>(sizeof(struct inotify_event)) <= bytes; pos += sizeof(struct inotify_event) + ev_len){
		in_event = reinterpret_cast<struct inotify_event*>(pevent + pos);
'''),
 (TH, '''	for(result = EBUSY; 0 != result; ){
		// [NOTE]
		// Using "nonportable" pthread_tryjoin_np function to avoid blocking by pthread_join.
		//
		if(0 != (result = pthread_tryjoin_np(pthreadid, &pretval))){
			if(EBUSY == result){''', '''	while(0 != (result = pthread_tryjoin_np(pthreadid, &pretval))){
		{
			if(EBUSY == result){'''),
 (TH, '''	PFLCKTHPARAM	oldparam = reinterpret_cast<PFLCKTHPARAM>(FlckThread::pThreadParam);
	if(oldparam){
		FLCK_Free(oldparam->pfilepath);
		FLCK_Delete(oldparam);
		FlckThread::pThreadParam = NULL;
	}
''', '''	PFLCKTHPARAM	oldparam = reinterpret_cast<PFLCKTHPARAM>(FlckThread::pThreadParam);
	FlckThread::pThreadParam = NULL;
	if(oldparam){
		free(oldparam->pfilepath);
		delete oldparam;
	}
'''),
 (TH, '''				for(int cnt = 0; cnt < eventcnt; cnt++){
					pthread_testcancel();									// check cancel
''', '''				int	cnt = -1;
				while(++cnt < eventcnt){
					pthread_testcancel();									// check cancel
'''),
 (SH, '''	if(FlShm::pCheckPidThread){
		if(!FlShm::pCheckPidThread->ReInitializeThread()){
			ERR_FLCKPRN("Call Prefork handler and try to reinitialize thread for child process(%d), but FAILED TO RUN THREAD", getpid());
		}
		if(!FlShm::pCheckPidThread->Run()){
			ERR_FLCKPRN("Call Prefork handler and try to run thread for child process(%d), but FAILED TO RUN THREAD", getpid());
		}
	}''', '''	FlckThread*	pworker = FlShm::pCheckPidThread;
	if(!pworker){
		return;
	}
	pworker->ReInitializeThread();
	pworker->Run();'''),
 (IN, '''	if(FLCK_INVALID_HANDLE == (FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CREAT | O_EXCL, FLCK_SHM_PERMS))){
		if(EEXIST != errno){
			ERR_FLCKPRN("Failed to open(create) %s(errno=%d).", FlShm::ShmPath().c_str(), errno);
			umask(old_umask);
			return false;
		}
		// already file exists
		if(FLCK_INVALID_HANDLE == (FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR, FLCK_SHM_PERMS))){
			ERR_FLCKPRN("Failed to open %s(errno=%d).", FlShm::ShmPath().c_str(), errno);
			umask(old_umask);
			return false;
		}
	}
	umask(old_umask);
''', '''	FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CREAT | O_EXCL, FLCK_SHM_PERMS);
	if(FLCK_INVALID_HANDLE == FlShm::ShmFd && EEXIST == errno){
		// already file exists
		FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR, FLCK_SHM_PERMS);
	}
	umask(old_umask);
	if(FLCK_INVALID_HANDLE == FlShm::ShmFd){
		return false;
	}
'''),
 (IN, '''	size_t	length = pTmpHead->flength;

	// munmap
	RawUnmap(pTmpHead, sizeof(FLHEAD));

	// remmap
	if(NULL == (FlShm::pShmBase = RawMap(FlShm::ShmFd, length, 0))){
		ERR_FLCKPRN("Failed to mmap FlShm::ShmFd(%d), size(%zu)", FlShm::ShmFd, length);
		return false;
	}
	FlShm::pFlHead = reinterpret_cast<PFLHEAD>(FlShm::pShmBase);

	return true;''', '''	const size_t	length = pTmpHead->flength;
	RawUnmap(pTmpHead, sizeof(FLHEAD));

	FlShm::pShmBase = RawMap(FlShm::ShmFd, length, 0);
	if(FlShm::pShmBase){
		FlShm::pFlHead = reinterpret_cast<PFLHEAD>(FlShm::pShmBase);
	}
	return (NULL != FlShm::pShmBase);'''),
]


def main():
    b, d = sys.argv[1], sys.argv[2]
    src = os.environ.get('SRC', '/repo')
    if os.path.exists(d):
        subprocess.check_call(['rm', '-rf', d])
    subprocess.check_call(['cp', '-a', src, d])
    bad = 0
    for n, e in enumerate(B[b]):
        mode = 'one'
        if e[0] in ('re', 'all'):
            mode, e = e[0], e[1:]
        p = os.path.join(d, e[0]); t = open(p).read()
        if mode == 're':
            if not re.search(e[1], t, re.S): print('NOT FOUND', n, e[0]); bad = 1; continue
            t = re.sub(e[1], lambda m: e[2], t, count=1, flags=re.S)
        else:
            if e[1] not in t: print('NOT FOUND', n, e[0], e[1][:60]); bad = 1; continue
            t = t.replace(e[1], e[2]) if mode == 'all' else t.replace(e[1], e[2], 1)
        open(p, 'w').write(t)
    sys.exit(bad)


main()
