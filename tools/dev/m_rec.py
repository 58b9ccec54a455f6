OD=['FlListOffLock::dolock']; OR=['FlListOffLock::rawlock']; OC=['FlListOffLock::check_dead']; LC=['FlListLocker::check_dead']; FC=['FlListFileLock::check_dead']
RF=['FlShm::RawLock(flck_lock_type, int']; FR=RF; FF=['free_offset']; FL=['free_locker']; IL=['is_locked']; CP=['CheckFileLockDeadLock']; Q=['FlShm::IsLocked']
O='flcklistofflock.cc'; F='flcklistfilelock.cc'; S='flckshm.cc'; L='flcklistlocker.cc'
M=[
('o1',O,'if(!tglistobj.find(flckpid, fd, true, pcurrent->reader_list)){','if(!tglistobj.find(flckpid, fd, false, pcurrent->reader_list)){',OR),
('o2',O,'tglistobj.cutoff_list((is_writer ? pcurrent->writer_list : pcurrent->reader_list))','tglistobj.cutoff_list(pcurrent->reader_list)',OR),
('o3',O,'''			pcurrent->protect = false;
			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
			return ENOLCK;					// ENOLCK
		}
		// initialize''','''			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
			return ENOLCK;					// ENOLCK
		}
		// initialize''',OR),
('o4',O,'tglistobj.initialize(flckpid, fd, false);','tglistobj.initialize(flckpid, fd, true);',OR),
('o5',O,'''		// clear protect flag(because locker list is existed now)
		pcurrent->protect = false;
''','',OR),
('o6',O,'''					if(!tglistobj.insert_list(FlShm::pFlHead->locker_free)){
						ERR_FLCKPRN("Failed to insert locker to free list, but continue...");
					}
				}
			}
			fl_unlock''','''				}
			}
			fl_unlock''',OR),
('o7',O,'if(tglistobj.find(flckpid, fd, false, (FLCK_READ','if(ETIMEDOUT != result && tglistobj.find(flckpid, fd, false, (FLCK_READ',OR),
('o8',O,'		// set lock flag\n		tglistobj.set_lock();','		// set lock flag\n		if(FLCK_READ_LOCK != LockType) tglistobj.set_lock();',OR),
('o9',O,'check_dead_lock(devid, inoid, &cache_map, flckpid, fd);','check_dead_lock(devid, inoid, &cache_map);',OD),
('oa',O,'''					set_protect();

''','''
''',OD),
('ob',O,'''				if(tmpobj.is_locked()){''','''				if(!tmpobj.is_locked()){''',OC),
('oc',O,'''				pabscur = to_abs(pcurrent->writer_list);
			}''','''				pabscur = NULL;
			}''',OC),
('od',O,'return !is_locked();','return true;',OC),
('oe',O,'''	pcurrent->reader_list = NULL;
''','',FL),
('of',O,'''				pabscur	= to_abs(pabsparent->next);''','''				pabscur	= to_abs(pabscur->next);''',OC),
('l1',L,'if(pcurrent->flckpid == except_flckpid && pcurrent->fd == except_fd){','if(pcurrent->flckpid == except_flckpid){',LC),
('l2',L,'(tgdev != devid || tgino != inoid)','(tgdev != devid && tgino != inoid)',LC),
('l3',L,'static_cast<dev_t>(FLCK_EACCESS_ID) != tgdev && static_cast<ino_t>(FLCK_EACCESS_ID) != tgino','static_cast<dev_t>(FLCK_EACCESS_ID) != tgdev || true',LC),
('f1',F,'''				pcurrent->protect = false;
				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
				return ENOLCK;					// ENOLCK
			}
			// initialize''','''				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
				return ENOLCK;					// ENOLCK
			}
			// initialize''',FR),
('f2',F,'tglistobj.initialize(offset, length, true, true);','tglistobj.initialize(offset, length, true, false);',FR),
('f3',F,'''		}else{
			tglistobj.set_protect();
		}''','''		}''',FR),
('f4',F,'if(FlShm::IsFreeUnitOffset()){\n			if(!tglistobj.is_locked()){','if(FlShm::IsFreeUnitOffset()){\n			if(true){',FR),
('f5',F,'if(tglistobj.find(offset, length, pcurrent->offset_lock_list)){\n					if(!tglistobj.is_locked()){','if(tglistobj.find(offset, length, pcurrent->offset_lock_list)){\n					if(FLCK_READ_LOCK == LockType || !tglistobj.is_locked()){',FR),
('f6',F,'tglistobj.initialize(offset, length, true, true);','tglistobj.initialize(offset, (0 == length ? 1 : length), true, true);',FR),
('f7',F,'''	if(pcurrent->protect){
		return true;
	}''','',IL),
('f8',F,'if(0 == fl_compare_list_base(&tmp, pabscur) && tmpobj.is_locked()){','if(offset == pabscur->offset && tmpobj.is_locked()){',IL),
('f9',F,'''				if(!tmpobj.insert_list(FlShm::pFlHead->offset_lock_free)){
					ERR_FLCKPRN("Failed to insert offset lock to free list, but continue...");
				}
			}
			// set next''','''			}
			// set next''',FC),
('fa',F,'''		tmpobj.free_locker_list();
''','',FF),
('fb',F,'''				pabscur	= to_abs(pabsparent->next);''','''				pabscur	= NULL;''',FC),
('fc',F,'tglistobj.lock(LockType, pcurrent->dev_id, pcurrent->ino_id, flckpid, fd, timeout_usec)','tglistobj.lock(LockType, pcurrent->dev_id, pcurrent->ino_id, flckpid, fd, (timeout_usec < 0 ? timeout_usec : 0))',FR),
('s1',S,'				tglistobj.free_offset_lock_list();\n\n				// retrieve target list','				// retrieve target list',RF),
('s2',S,'''			tglistobj.initialize(devid, inodeid, true, true);''','''			tglistobj.initialize(devid, inodeid, true, false);''',RF),
('s3',S,'''			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);			// unlock lockid
			return result;''','''			return result;''',RF),
('s4',S,'''			if(!tglistobj.is_locked()){
				// free all(unlocked''','''			if(!tglistobj.is_locked(offset, length)){
				// free all(unlocked''',RF),
('s5',S,'tmpobj.check_dead_lock(pcache_map, except_flckpid)){\n			// retrieve','tmpobj.check_dead_lock(pcache_map)){\n			// retrieve',CP),
('s6',S,'				ptmp = to_abs(pParent->next);','				ptmp = NULL;',CP),
('s7',S,'bool	result = tglistobj.is_locked(offset, length);','bool	result = tglistobj.is_locked();',Q),
('s8',S,'''	if(!tglistobj.find(devid, inodeid, FlShm::pFlHead->file_lock_list)){
		fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
		return false;''','''	if(!tglistobj.find(devid, inodeid, FlShm::pFlHead->file_lock_list)){
		return false;''',Q),
('s9',S,'''			if(FlShm::IsFreeUnitFd()){
				fl_lock_lockid''','''			if(ETIMEDOUT == result && FlShm::IsFreeUnitFd()){
				fl_lock_lockid''',RF),
('sa',S,'if(0 != (result = tglistobj.unlock(flckpid, fd, offset, length))){','if(0 != (result = tglistobj.unlock(flckpid, fd, offset, length)) && EINVAL != result){',RF),
('sb',F,'''			if(FlShm::IsFreeUnitOffset()){
				fl_lock_lockid''','''			if(ENOLCK != result && FlShm::IsFreeUnitOffset()){
				fl_lock_lockid''',RF),
('sc',F,'''				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);	// unlock lockid
			}
			return result;''','''				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);	// unlock lockid
				return (EBUSY == result ? ETIMEDOUT : result);
			}
			return result;''',RF),
]
