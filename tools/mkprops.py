import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ['C API return codes in lib/fullock.h'],hook_needed=None)))
BL='lib/flckbaselist.tcc'
p('P01','Reader/writer exclusion on a locked file range',
 'While a write lock on a range of a file is held, no other read or write lock of that range is granted, and while read locks are held no write lock is granted; readers share. Every successful lock or unlock changes the set of holders by exactly its own hold, and a failed, timed-out or busy request leaves it unchanged. Unlocking something the caller does not hold is refused and affects nobody.',
 ['schedules','inputs','histories'],'every interleaving of any number of threads and processes issuing lock, try, timed and unlock requests, any number of retries',
 'The tests sample a few schedules of one or two workers; a lost update, a wrong comparison on an intermediate value or a non-atomic step only shows in rare interleavings or with particular holder counts.',
 [BL,'lib/flcklistofflock.cc','lib/flcklistofflock.h','lib/flcklistfilelock.cc','lib/flckshm.cc','lib/fullock.cc'],
 [('atomic reader/writer word','fl_*_rwlock in lib/flckbaselist.tcc'),('locker bookkeeping around it','FlListOffLock::rawlock/dolock'),('entry points','FlShm::RawLock(fd..)')])
p('P02','Named mutex: one owner, recursive, owner-only release',
 'At any time at most one thread of any process owns a named mutex. The owner may lock it again without blocking and keeps it until it has unlocked as many times as it locked; a thread that is not the owner can never release it and is told so. A failed, busy or timed-out lock request does not change ownership.',
 ['schedules','inputs','histories'],'every interleaving of lock, try, timed and unlock calls of any number of threads/processes, and every recursion depth',
 'Tests lock at most one or two levels deep with a couple of workers and rarely hit the windows between the owner word and the count word.',
 [BL,'lib/flcklistnmtx.cc','lib/flcklistnmtx.h','lib/flckshm.cc'],
 [('owner word + recursion count','fl_lock_mutex, fl_trylock_mutex, fl_timedlock_mutex, fl_unlock_mutex'),('named entry','FlListNMtx::rawlock, FlShm::RawLock(name)')])
p('P03','Condition variables: wait, signal, broadcast',
 'A wait releases the named mutex while it waits, and whenever it returns after having waited, signalled or timed out, the caller owns the mutex again. A signal wakes the longest-waiting waiter and no other, a broadcast wakes every waiter, and a signal aimed at one waiter is never lost to a waiter that is no longer waiting. Waiting ends only because of a signal, a broadcast or the timeout.',
 ['schedules','histories','inputs'],'every interleaving of waiters, signallers and mutex users, any number of waiters',
 'Tests use a handful of waiters with long sleeps between wait and signal, so order of wake-up and the timeout/signal race are never exercised.',
 ['lib/flcklistncond.cc','lib/flcklistwaiter.cc','lib/flcklistwaiter.h',BL,'lib/flckshm.cc'],
 [('status word','fl_wait_cond, fl_timedwait_cond, fl_force_set_cond'),('waiter list, oldest last','FlListNCond::rawlock, fl_list_base::rfind'),('mutex hand-over','FlListWaiter::rawlock')])
p('P04','Try never waits; timed waits are exact; untimed never times out',
 'A try request answers at once; a timed request never reports a timeout before the requested number of microseconds has elapsed on the monotonic clock, and stops retrying once it has; an untimed request never reports a timeout. A timeout leaves no trace of the request.',
 ['inputs','schedules'],'every timeout value, every clock reading (second borrow, boundaries) and every schedule',
 'Elapsed-time arithmetic is wrong only for particular sub-second combinations, and tests never measure the time that passed.',
 ['lib/flckutil.h',BL,'lib/flcklistofflock.cc','lib/flcklistnmtx.cc','lib/flcklistwaiter.cc','lib/flckshm.cc'],
 [('elapsed-time comparison','SUB_TIMESPEC, IS_OVER_TIMESPEC in lib/flckutil.h'),('deadline loops','fl_timed* in lib/flckbaselist.tcc'),('microsecond conversion','FlListOffLock::dolock, FlListNMtx::rawlock, FlListWaiter::rawlock')])
p('P05','Lock requests conflict exactly by file and byte range',
 'Requests whose byte ranges on the same file overlap contend with one another, whatever descriptor, path or process they come through. Requests on different files, or on ranges no lock in use connects, never block each other.',
 ['inputs','histories'],'every pair of 64-bit offsets and lengths (no wrap-around), every file identity, and every history of earlier ranges',
 'Tests use a few fixed ranges; off-by-one at adjoining ranges, containment one way round, or a device/inode mix-up need specific inputs.',
 ['lib/flcklistofflock.h','lib/flcklistfilelock.h','lib/flcklistfilelock.cc','lib/flckutil.cc'],
 [('range comparison','fl_compare_list_base(FLOFFLOCK)'),('file identity comparison','fl_compare_list_base(FLFILELOCK), GetFileDevNode(fd)'),('search','fl_list_base::find')])
p('P06','Locks of dead owners are recovered, live ones never touched',
 'When a thread or process ends, or closes the file, while it holds or waits for a lock, the next recovery pass gives back exactly what it held, whatever it was; other requests can then succeed. Nothing held or awaited by a thread that is still running with the file open is ever released, removed or counted down by recovery.',
 ['crash_points','schedules','histories'],'every set of dead and live owners, every death between API calls or while waiting, every interleaving with live users',
 'Recovery tests kill one owner in one state; mixtures of dead and live lockers, list positions and concurrent unlocks are not sampled.',
 ['lib/flcklistofflock.cc','lib/flcklistfilelock.cc','lib/flcklistlocker.cc','lib/flcklistnmtx.cc','lib/flcklistncond.cc','lib/flcklistwaiter.cc','lib/flckshm.cc','lib/flckutil.cc','lib/flckpidcache.h'],
 [('death test','FindThreadProcess, GetFileDevNode(pid,tid,fd)'),('per-object recovery','check_dead_lock methods'),('recovery pass','FlShm::CheckFileLockDeadLock, CheckMutexDeadLock, CheckCondDeadLock')])
p('P07','Shared lock units are conserved; exhaustion is reported',
 'Every unit of the shared area is at all times either free or in exactly one place of use; after any sequence of operations in which all locks were released, as many can be taken again as at the start, within the configured reuse mode. When no unit is left the request fails with the no-locks error, leaves every existing lock untouched, and works again once units return.',
 ['histories','schedules','inputs'],'every history of successful, failing and exhausted requests, in each reuse mode',
 'Leaks appear only after many operations or on error paths (exhaustion in the middle of a multi-level allocation), which tests hit at one level at a time.',
 [BL,'lib/flcklistofflock.cc','lib/flcklistfilelock.cc','lib/flcklistncond.cc','lib/flckshm.cc'],
 [('free lists','fl_list_base::insert_list, retrieve_list, cutoff_list'),('release on failure and on unlock','FlListOffLock::rawlock, FlListFileLock::rawlock, FlShm::RawLock')])
p('P08','Internal list locks: exclusive, always released, stolen only from dead',
 'Every change to the shared lists is made by the one thread that has the list locked, every operation leaves it unlocked on every return path, and it is taken over from another thread only if that thread no longer exists.',
 ['schedules','crash_points','inputs'],'every interleaving, every return path of every operation, every holder that dies',
 'A missing release on a rare error path hangs only the next caller after that path; a takeover from a live holder needs a precise schedule.',
 [BL,'lib/flckshm.cc','lib/flcklistfilelock.cc','lib/flcklistofflock.cc','lib/flcklistncond.cc'],
 [('list lock','fl_lock_lockid, fl_unlock_lockid'),('callers','FlShm::RawLock, IsLocked, Check*DeadLock, rawlock methods')])
p('P09','The locked-state query answers for the range asked',
 'Asking whether a range of a file is locked answers yes exactly when some lock that overlaps that range is held or being requested at that moment, and changes nothing.',
 ['inputs','histories'],'every range, every set of held locks on the file, every reuse mode',
 'The tests ask about one range with zero or one lock on the file.',
 ['lib/flckshm.cc','lib/flcklistfilelock.cc','lib/flcklistofflock.h'],
 [('query','FlShm::IsLocked, FlListFileLock::is_locked'),('entry state','FlListOffLock::is_locked')])
p('P10','Invalid or unattached use gives the documented answer',
 'When the shared area is not attached, every lock request answers success or the no-locks error, and the query unlocked or locked, as the selected mode says, with an attach attempt first in the retry modes; a missing name is refused as invalid. In none of these cases is shared state touched.',
 ['configurations','inputs'],'every combination of no-map mode, attach result, call and argument validity',
 'The tests always run attached; only the default mode is sampled.',
 ['lib/flckshm.cc','lib/flckshm.h','lib/fullock.cc'],
 [('attach check','FlShm::CheckAttach'),('result selection','FlShm::RawLock, FlShm::IsLocked'),('mode setters','fullock_set_*_nomap')])
p('P11','Owners and named objects are identified exactly',
 'Two different threads of any processes never share an owner identity, the identity survives being packed and unpacked, and after a fork the child is a different owner than its parent. Two names denote the same object exactly when their first 63 characters are equal, and cached facts about one thread or descriptor are never used for another.',
 ['inputs','histories'],'every process/thread id pair, every descriptor, every pair of names, every fork history',
 'Tests use small ids, short names and never a fork followed by use of the cached identity.',
 ['lib/flckutil.h','lib/flckutil.cc','lib/flckpidcache.h','lib/flcklistnmtx.h','lib/flcklistncond.h'],
 [('identity packing','compose_flckpid, decompose_pid, decompose_tid, get_flckpid'),('thread id cache','get_threadid, FlTidCache'),('cache key','fl_pid_cache_key::operator<'),('name comparison','fl_compare_list_base(FLNAMEDMUTEX/FLNAMEDCOND)')])
p('P12','The shared area is laid out and attached consistently',
 'For every configured set of counts the six unit pools and the header are disjoint, aligned and inside the file, each pool starts as one chain of exactly the configured number of units, and all lists start empty. An area is initialised only by a process no other process is sharing it with, an area of a newer version is refused, and an existing area is attached at its recorded size.',
 ['configurations','fault_sequences'],'every count configuration in the accepted range and every failure of a system call while attaching',
 'Tests use the default or one tiny configuration; overlap shows only when a pool is used to its end.',
 ['lib/flckshminit.cc',BL,'lib/flckutil.h','lib/flckshm.cc'],
 [('layout','FlShm::InitializeShmFile'),('pool chains','fl_list_base::initialize(ptr,count), FlShm::MakeList*'),('attach','FlShm::Attach, FlShm::InitializeShm'),('use marker','FileReadLock/FileWriteLock')])
p('P13','Configuration is validated and takes effect as given',
 'Counts outside the documented limits are refused by reinitialisation before anything is torn down, and accepted ones become exactly the values in force, unspecified ones falling back to their defaults; invalid environment values are ignored. Each mode setter selects exactly its mode, and the robust check count is changed only in high robust mode and never below the minimum.',
 ['inputs','configurations'],'every argument combination and every environment value',
 'Tests call a few valid combinations.',
 ['lib/flckshm.cc','lib/fullock.cc','lib/flckshm.h','lib/flckutil.cc'],
 [('argument check','FlShm::ReInitializeObject'),('environment','FlShm::LoadEnv, CvtNumberStringToLong'),('setters','FlShm::Set*, fullock_set_*')])
p('P14','Recursive lock objects release with their last user',
 'A thread that locks overlapping ranges of one descriptor through several lock objects never blocks on itself, and the underlying lock is released exactly when the last of these objects is unlocked or destroyed. Unlocking one object never releases what another still uses.',
 ['histories','schedules'],'every nesting and order of lock and unlock of any number of objects and threads',
 'Tests nest two or three objects in one order.',
 ['lib/rwlockrcsv.cc','lib/rwlockrcsv.h'],
 [('master/pending graph','FLRwlRcsv::RawReadLock, RawWriteLock, RawUnlock')])
p('P15','File I/O helpers transfer everything or report failure',
 'A positioned read or write helper that reports a count has transferred exactly that many bytes at consecutive positions, a zero fill that reports success has written the whole range, and whole-file reading returns exactly the bytes read. Interruptions and short transfers never lose or repeat data, and a failure is reported as such.',
 ['fault_sequences','inputs'],'every sequence of short transfers, interruptions and errors, every size and offset',
 'Short transfers and errors do not occur on the test machine.',
 ['lib/flckutil.cc'],
 [('transfer loops','flck_pread, flck_pwrite, flck_fill_zero, flck_read'),('advisory lock helper','RawFileLock')])
p('P16','The recovery worker runs while robust mode needs it',
 'When robust mode is on, a worker notices every close of the shared file and runs a recovery pass; stopping, exiting and forking leave it stopped, finished or restarted as asked. Its control state only moves forward from exit to finished.',
 ['schedules','fault_sequences'],'every interleaving of worker and controlling thread, every event batch',
 'Tests start it and end it once.',
 ['lib/flckthread.cc'],
 [('control flag','set_*_thread_cntrl_flag'),('event scan','FlckThread::CheckEvent'),('life cycle','FlckThread::Run, Stop, Exit, ReInitializeThread')])
p('P17','Paths are normalised inside the root',
 'Normalising a path removes every current- and parent-directory step, is idempotent, and refuses a path that climbs above the root. The working directory is created only at the normalised path.',
 ['inputs'],'every path string',
 'Tests use a few plain paths.',
 ['lib/flckutil.cc'],
 [('normalisation','GetRealPath'),('creation','MakeWorkDirectory')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
