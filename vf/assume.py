"""Everything the proofs take on trust, reported in the evidence."""
TRUSTED = [
    'vf/symex.py, vf/contract.py, vf/regions.py: the symbolic executor over LLVM IR, its rely/guarantee regions and its invariant inference (invariants are guessed, then proved inductive)',
    'clang 18 front end (the IR is what the compiler makes of the source, before optimisation)',
    'z3 (and cvc5 where z3 gives no answer, and as a second opinion in the thorough tier)',
]
L2 = [
    'rely: the internal list locks are taken, held and given up as their own contracts state (P08); what they guard is known only while held, and any history of the others keeps the monitor invariant',
    'rely: a thread keeps the descriptor of a request open until the request returned; otherwise recovery may take its records',
    'FlListThread::Find / process lookup by assumed contract: false only for a thread that does not exist, always for one gone before the call',
    'the list template functions (insert, retrieve, find, cut) are replaced by their contracts, each proved in c_list over abstract membership (owner-of-unit map and position), not over a reachability predicate',
]
ASSUMPTIONS = {
    '*': [
        'atomic operations and plain accesses to shared words are sequentially consistent',
        'fewer than 2^28 simultaneous readers / recursion levels of one word',
        'shared memory pointers do not alias local variables; the area is not written by code outside the library',
        'a process/thread id is not reused while something recorded under it remains',
        'partial correctness: termination of retry loops is not proved (bounded retries and clock use at every retry are)',
        'the extraction drops: debug-print calls (dead at the default level), exception unwinding paths, function-local static guards',
    ],
    'P01': L2 + ['a thread uses one descriptor for one hold: its record is found by thread, descriptor and locked state'],
    'P02': L2 + ['flck_fnv_hash is a function of the bytes of the name; strncpy, strlen as documented'],
    'P03': L2 + ['flck_fnv_hash is a function of the bytes of the name; strncpy, strlen as documented', 'the waiting thread owns the named mutex when it calls wait'],
    'P05': L2 + ['the range comparison is symmetric (follows from its own contract for ranges of at least one byte)', 'fstat answers the device and inode of the descriptor'],
    'P06': L2 + ['stat of /proc/PID/task/TID fails only for a thread that does not exist', 'no thread dies between the atomic change of a lock word and the record of it (recorded finding), nor inside an internal list update (recorded finding)'],
    'P07': L2 + ['no thread dies inside an internal list update (recorded finding)'],
    'P08': L2[1:3] + ['stat of /proc/PID/task/TID fails only for a thread that does not exist'],
    'P09': L2 + ['fstat answers the device and inode of the descriptor'],
    'P04': L2 + ['clock_gettime(CLOCK_MONOTONIC) is monotone and below 2^40 s'],
    'P10': ['InitializeShm answers whether the area was attached'],
    'P11': ['std::map finds exactly the value last stored under an equal key (its operator< is under contract)', 'strncmp, stat, fstat, sprintf, gettid, getpid, pthread_getspecific/setspecific as documented', 'descriptor -1 is never asked for together with the execution cache'],
    'P12': ['open, umask, ftruncate, mmap, munmap, fcntl locks, close, pthread_atfork, operator new as documented; at most 16384 units per pool; both mappings of the file show the same bytes',
            'one thread at a time initialises, reinitialises or destroys the area', 'unmapping the area does not fail (otherwise it stays known)'],
    'P16': ['pthread_*, epoll, inotify, nanosleep, strdup, operator new as documented; cancellation ends the thread through its registered handler',
            'epoll reports the data registered; flck_read by its contract (P15)', 'pthread_cancel of the own worker does not fail when the area is destroyed', 'the content and order of notifications is what the kernel wrote'],
    'P13': ['std::string operations are uninterpreted functions of the texts; getenv, strcasecmp, atoi, strtol, stat as documented', 'Destroy, MakeWorkDirectory, GetRealPath and InitializeShm by contract'],
    'P15': ['read, pread, pwrite, malloc, realloc, free as documented (any short count, any error at any call)', 'pwrite of a positive count does not return 0'],
}
