A=['FlListNMtx::']; W=['FlListWaiter::']; C=['FlListNCond::']; G=['CheckMutexDead','CheckCondDead']; R=['RawLock(flck_lock_type, char']
M=[
('a1','flcklistnmtx.cc','}while(EWOULDBLOCK == result);','}while(false);',A),
('a2','flcklistnmtx.cc','(timeout_usec % (1000 * 1000)) * 1000','(timeout_usec % (1000 * 1000)) * 100',A),
('a3','flcklistnmtx.cc','}while(EWOULDBLOCK == result);','}while(EWOULDBLOCK == result || (ETIMEDOUT == result && FlShm::IsHighRobust()));',A),
('a4','flcklistnmtx.cc','''	if(lockval != pcurrent->lockval){
		return false;
	}''','',A),
('a5','flcklistnmtx.cc','lockval == except_flckpid || FLCK_MUTEX_UNLOCK == lockval','FLCK_MUTEX_UNLOCK == lockval',A),
('a6','flcklistnmtx.cc','FlShm::CheckMutexDeadLock(NULL, flckpid, flckpid)','FlShm::CheckMutexDeadLock(NULL, flckpid)',A),
('w1','flcklistwaiter.cc','''			if(0 != result && FLCK_NCOND_UP == __sync''','''			if(ETIMEDOUT == result && FLCK_NCOND_UP == __sync''',W),
('w2','flcklistwaiter.cc','tgnmtxobj.lock(FLCK_NO_TIMEOUT)','tgnmtxobj.lock(timeout_usec)',W),
('w3','flcklistwaiter.cc','				result = 0;','				result = result;',W),
('w4','flcklistwaiter.cc','''		if(FLCK_NCOND_WAIT != __sync_val_compare_and_swap(&(pcurrent->lockstatus), FLCK_NCOND_WAIT, FLCK_NCOND_UP)){
			result = EAGAIN;''','''		fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
		if(false){
			result = EAGAIN;''',W),
('c1','flcklistncond.cc','}while(EAGAIN == result);','}while(false);',C),
('c2','flcklistncond.cc','if(0 != (subresult = tmpobj.signal()) && EAGAIN != subresult){','if(0 != (subresult = tmpobj.signal())){ if(EAGAIN == subresult) break;',C),
('c3','flcklistncond.cc','tglistobj.initialize(flckpid, FLCK_NCOND_WAIT, abs_nmtx, false);','tglistobj.initialize(flckpid, FLCK_NCOND_UP, abs_nmtx, false);',C),
('c4','flcklistncond.cc','result = tglistobj.wait(timeout_usec);','result = tglistobj.wait(); if(0 == timeout_usec) result = 0;',C),
('c5','flcklistncond.cc','''				pabscur	= to_abs(pabsparent->next);
''','''				pabscur	= NULL;
''',C),
('c6','flcklistncond.cc','tmpobj.check_dead_lock(pcache, except_flckpid)','tmpobj.check_dead_lock(pcache)',C),
('g1','flckshm.cc','ptmp = to_abs(FlShm::pFlHead->named_mutex_list); ptmp; ptmp = to_abs(ptmp->next)','ptmp = to_abs(FlShm::pFlHead->named_mutex_list); ptmp && !result; ptmp = to_abs(ptmp->next)',G),
('g2','flckshm.cc','ptmp = to_abs(FlShm::pFlHead->named_cond_list); ptmp; ptmp = to_abs(ptmp->next)','ptmp = to_abs(FlShm::pFlHead->named_cond_list); ptmp && !result; ptmp = to_abs(ptmp->next)',G),
('r1','flckshm.cc','if(0 != (result = tglistobj.lock(timeout_usec))){','if(0 != (result = tglistobj.lock())){',R),
('r2','flckshm.cc','FlListNMtx		tglistmtxobj;\n		if(!tglistmtxobj.find(pmutexname','FlListNMtx		tglistmtxobj;\n		if(!tglistmtxobj.find(pcondname',R),
('r3','flckshm.cc','''			// initialize
			tglistobj.initialize(pname);
''','''			// initialize
			tglistobj.initialize(pname + 1);
''',R),
('r4','flckshm.cc','''				ERR_FLCKPRN("Could not get free named cond structure.");
				fl_unlock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);	// unlock lockid
''','',R),
('r5','flckshm.cc','''	if(FLCK_NCOND_UP == LockType){
		// SIGNAL or BROADCAST
		fl_lock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// lock lockid for top manually.(keep to lock)
''','''	if(FLCK_NCOND_UP == LockType){
		if(!FlShm::pFlHead->named_cond_list){
			return 0;
		}
		// SIGNAL or BROADCAST
		fl_lock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// lock lockid for top manually.(keep to lock)
''',R),
('r6','flckshm.cc','if(is_broadcast){\n			result','if(is_broadcast && FlShm::pFlHead->waiter_free){\n			result',R),
]
