"""What each property's check runs: driver, scenarios, sanitizer variants, delay-injection levels.

iters is the number of iterations per scenario in the 'plain' variant without
noise; other variants are scaled down (they are slower).  Everything is bounded
by case counts, never by time.
"""

def J(driver, scenarios, variants='asan plain', noises='0 2 3', iters=100, **kw):
    return dict(driver=driver, scenarios=scenarios.split(), variants=variants.split(),
                noises=[int(n) for n in noises.split()], iters=iters, **kw)


CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, rule, jobs, **kw):
    CHECKS[pid] = dict(rule=rule, jobs=jobs, **kw)


check('C08', 'random ref/unref/weak-reference programs against a counting model, and threads racing weak gets, sets and clears '
      'with the last unref; one case is one program or race, distinct by its sequence of observed outcomes',
      [J('object', 'model', 'asan plain', '0', 4000),
       J('object', 'gauntlet gauntlet-set gauntlet-detach pair complete-vs-release', 'asan plain tsan', '0 2 3', 1500, heavy=0.6)])

check('C01', 'threads complete, cancel, discard, read and drop one future at once; every reader must see pending or the one winning '
      'outcome, never another; distinct by winner, number of competitors and observed read histories',
      [J('future', 'settle', 'asan plain tsan noev', '0 2 3', 2500, heavy=0.4),
       J('future', 'seq', 'asan plain', '0', 3000),
       # what a settled future passes on it keeps
       J('future', 'attach tree-mt', 'asan plain', '0 3', 600, heavy=0.4)])
check('C02', 'dependents of many kinds (futures, sets, fibers, blocks, delayed) attach before, while and after another thread completes '
      'their future, others leave meanwhile; each must be told exactly once and find the outcome readable; distinct by kinds and phases',
      [J('future', 'attach nested', 'asan plain tsan noev', '0 2 3', 2000, heavy=0.4),
       J('future', 'crowd', 'asan plain tsan', '0', 120)])
check('C03', 'random trees of then/catch/finally/_loop blocks with random callback results against a reference interpreter; distinct by '
      'tree shape, outcomes and completion order',
      [J('future', 'tree', 'asan plain', '0', 3000),
       J('future', 'tree-mt', 'asan plain tsan', '0 2 3', 1200, heavy=0.4),
       J('future', 'long', 'asan plain', '0', 100),
       J('future', 'long-pass', 'plain', '0', 1)])
check('C04', 'blocks attached on the main and pool schedulers and completed from other threads; monitors thread, overlap, number and '
      'order of callback runs and data destruction; distinct by schedule of attach, completion and release',
      [J('future', 'where deep', 'asan plain tsan noev', '0 2 3', 1500, heavy=0.4),
       J('future', 'tree', 'asan plain', '0', 2000)])

check('C05', 'all/any/first/all_race (array and varargs) over random inputs, presettled ones and repeats included, completed in random order, '
      'and trees of sets, against a reference after every step; distinct by form, size and outcome sequence',
      [J('combi', 'order', 'asan plain noev', '0', 12000),
       J('combi', 'nested', 'asan plain', '0', 8000),
       J('combi', 'wide', 'asan plain', '0', 200)])
check('C06', 'inputs of sets completed on 2-4 threads, half the time while the set is being built and read; outcome must be one that a serial '
      'order of completions consistent with each thread gives; distinct by deciding threads',
      [J('combi', 'race', 'asan plain tsan noev', '0 2 3', 2200, heavy=0.35)])
check('C07', 'random graphs of blocks, sets and delayed futures over cancellable sources against a model of who depends on what, and threads '
      'leaving, deciding and completing at once; distinct by operation sequence or by cancelled sets',
      [J('combi', 'graph', 'asan plain', '0', 20000),
       J('combi', 'withdraw decided', 'asan plain tsan noev', '0 2 3', 2500, heavy=0.4),
       J('combi', 'wide', 'asan plain', '0', 120),
       J('future', 'long-drop', 'plain', '0', 1)])
check('C29', 'delayed futures over promises, settled futures, blocks and sets, released, completed and read in random order and from 2-3 threads; '
      'distinct by kinds, order and outcome',
      [J('combi', 'delseq', 'asan plain', '0', 10000),
       J('combi', 'delayed', 'asan plain tsan noev', '0 2 3', 2500, heavy=0.35)])
check('C28', 'random and edge values of 17 types and errors in through promises, ready-made futures and fibers, out through get_value and every '
      'dex_await_*, right and wrong type, in and outside fibers, with ownership counted; distinct by type, way in and way out',
      [J('values', 'values', 'asan plain noev', '0', 9000),
       J('values', 'owner', 'asan plain', '0', 4000),
       J('values', 'shared', 'asan plain tsan', '0 3', 3000)])

check('C10', 'threads and fibers send tagged values and receive them singly or all at once; history checked for invented, lost, repeated and '
      'reordered values (per sender, and against real time); random single-thread programs against a reference queue; distinct by who received what',
      [J('channel', 'model', 'asan plain', '0', 2500),
       J('channel', 'volume', 'asan plain', '0', 120),
       J('channel', 'mpmc fibers', 'asan plain tsan noev', '0 2 3', 1500, heavy=0.3)])
check('C11', 'state of every send and receive compared with a reference queue after each step; on threads an online monitor of resolved sends '
      'against receives started plus capacity, and a balance of both once quiet; distinct by capacity and observed states',
      [J('channel', 'model', 'asan plain', '0', 3500),
       J('channel', 'volume', 'asan plain', '0', 150),
       J('channel', 'mpmc fibers', 'asan plain tsan noev', '0 2 3', 1200, heavy=0.3)])
check('C12', 'either or both sides closed, or the channel released, at random points of programs and against running senders and receivers; '
      'real-time order of each call and the close decides what it may return; distinct by close and outcome history',
      [J('channel', 'model', 'asan plain', '0', 2500),
       J('channel', 'volume', 'asan plain', '0', 120),
       J('channel', 'close release', 'asan plain tsan noev', '0 2 3', 2000, heavy=0.3)])
check('C13', 'receive_all against the reference queue, and from several threads mixed with receive, sends and closes; content, order and '
      'uniqueness of every set and the senders moved up are checked; distinct by set contents',
      [J('channel', 'model', 'asan plain', '0', 2500),
       J('channel', 'volume', 'asan plain', '0', 200),
       J('channel', 'all-mt', 'asan plain tsan noev', '0 2 3', 2500, heavy=0.3)])

check('C14', 'programs of fibers that await futures of every kind completed by other fibers, threads and the pool, on the main scheduler and on '
      'pools, each step of every fiber logged against its program; fairness bound between runnable fibers; distinct by interleaving of steps',
      [J('fiber', 'programs herd', 'asan plain tsan noev', '0 2 3', 2000, heavy=0.3),
       J('fiber', 'fair', 'asan plain tsan', '0 2 3', 400, heavy=0.4)])
check('C15', 'fibers whose future is discarded or dropped before they start, while they run, while they wait, twice, and against completions on '
      'other threads; what each await returns is compared with the order of discard and completion; distinct by histories',
      [J('fiber', 'discard', 'asan plain tsan noev', '0 2 3', 2500, heavy=0.3),
       J('fiber', 'discard-seq', 'asan plain', '0 3', 6000)])
check('C16', 'stacks of edge and random sizes measured, written end to end and read back, guard pages probed in a child, mappings counted, stack '
      'pools against a model, fibers of every stack size filling their stack while switching, churn of thousands; distinct by sizes and reuse',
      [J('fiber', 'stack-api stack-pool stack-fibers', 'asan plain', '0 3', 700),
       J('fiber', 'stack-churn', 'asan plain', '0 3', 700)])
check('C17', 'threads, the pool, and running items push to the main scheduler; monitors thread, order per pusher, exactly-once and torn items; a '
      'sleeping loop must be woken for each kind of work; distinct by order of items',
      [J('scheduler', 'main-push main-wake', 'asan plain tsan noev', '0 2 3', 1000, heavy=0.35)])
check('C18', 'items and fibers pushed to pools of 1-8 workers from threads, items and other pools, in bursts and as a trickle onto idle pools, and '
      'pools released with work queued; exactly-once, torn items, thread, stalls; distinct by threads that ran items',
      [J('scheduler', 'pool-once pool-trickle pool-release pool-gang pool-cross', 'asan plain tsan noev', '0 2 3', 800, heavy=0.35)])
check('C19', 'the work-stealing deque driven directly: one owner against a reference deque, owner against 1-6 thieves around empty and around '
      'growth, and pool workers; each item out exactly once and whole, order per thief; distinct by who took what',
      [J('scheduler', 'wsq-seq', 'asan plain', '0', 4000),
       J('scheduler', 'wsq-steal wsq-pool', 'asan plain tsan', '0 2 3', 2500, heavy=0.3)])
check('C20', 'posts of one and many by threads against waits by fibers and callbacks, and closing where the semaphore keeps its waits itself: no wait without a post, '
      'no post lost, posts kept for later waits; on the eventfd and io_uring paths and the fallback; distinct by history of posts and waits',
      [J('scheduler', 'sema sema-seq', 'asan plain tsan noev nouring', '0 2 3', 1500, heavy=0.35),
       J('scheduler', 'sema-close', 'noev nouring', '0 2 3', 1000, heavy=0.5)])

check('C21', 'requests on memory files, pipes, sockets, devices and bad descriptors, one and hundreds outstanding, from the main loop, fibers on the pool '
      'and other threads, each compared with the system call on a twin descriptor (count, bytes, guard bytes, file, position, error); io_uring and '
      'thread backends, with failing system calls injected; I/O after thread pools were released on any thread; distinct by results',
      [J('aio', 'file fds deep cross blocked faults', 'asan plain nouring', '0 3', 1000, heavy=0.6),
       J('aio', 'deep cross blocked', 'tsan noev', '0 2 3', 1000, heavy=0.25),
       J('aio', 'huge', 'plain nouring', '0', 1000),
       J('scheduler', 'pool-release', 'asan nouring', '0 2', 600)])

check('C22', 'up to 80 timeouts made in every way, postponed, discarded and released at random while the loop runs, each round checked against their '
      'deadlines; timeouts moved, left and dropped by threads while they expire; on pools while the main loop stands still; edge deadlines; sources counted; '
      'distinct by order of expiry',
      [J('event', 'timeouts', 'asan plain tsan', '0 3', 1500, heavy=0.6),
       J('event', 'edges', 'asan plain', '0', 300),
       J('event', 'timeout-race timeout-drop', 'asan plain tsan noev', '0 2 3', 1500, heavy=0.4),
       J('event', 'timeout-pool', 'asan plain tsan', '0 2 3', 500, heavy=0.5)])
check('C23', 'random programs of creation, delivery and release of futures for six signals against a model, and release racing delivery; '
      'sources counted; distinct by signals delivered',
      [J('event', 'signals', 'asan plain tsan', '0 3', 3000, heavy=0.5),
       J('event', 'signal-race', 'asan plain tsan', '0 2 3', 1500, heavy=0.5)])
check('C24', 'random programs of creation, cancellation, reset and release against a model, and threads creating, releasing and cancelling at once; '
      'handlers and references left on the GCancellable counted; distinct by cancellation history',
      [J('event', 'cancel-seq', 'asan plain', '0', 4000),
       J('event', 'cancel-race', 'asan plain tsan noev', '0 2 3', 1500, heavy=0.5)])

check('C25', 'DexAsyncPair over a scripted asynchronous object with every return type, finishing at once, later, on another thread or never, cancelled, '
      'dropped and raced; each outcome, cancellation and reference compared with the script; distinct by script and history',
      [J('async', 'pair pair-return', 'asan plain noev', '0 3', 2500),
       J('async', 'pair-race', 'asan plain tsan noev', '0 2 3', 2500, heavy=0.4)])
check('C26', 'DexAsyncResult around futures of every outcome, finished from its callback, later, twice or never, on the main context and on others, '
      'cancelled before, during and after; callback count and thread, tag, user data, value and references; distinct by history',
      [J('async', 'result', 'asan plain noev', '0 3', 2500),
       J('async', 'result-values', 'asan plain', '0', 2000),
       J('async', 'result-race', 'asan plain tsan noev', '0 2 3', 2500, heavy=0.4)])
check('C27', 'random programs of wrapped file, stream, socket, resolver, subprocess and D-Bus operations from the main loop, a fiber and a pool fiber '
      'against the synchronous GIO calls on a twin directory, stream or connection: results, errors, side effects, priority; operations dropped '
      'midway must be cancelled; distinct by transcript',
      [J('gio', 'files streams net dbus bus', 'asan plain noev', '0 3', 900),
       J('gio', 'drop', 'asan plain noev', '0 2 3', 1200, heavy=0.6)])
check('C31', 'random programs that put objects into values and futures, copy, collect, read, reset and drop them, with each finalization predicted by a '
      'count of the references held, and threads copying one value at once; distinct by operation sequence',
      [J('object', 'gvalue', 'asan plain', '0', 40000),
       J('object', 'gvalue-mt', 'asan plain tsan', '0 2 3', 6000, heavy=0.5)])
check('C32', 'items, callbacks, fibers and plain threads over the main scheduler, the default pool and a pool of their own, each asked where it is before '
      'and after it waits; distinct by the mix of work',
      [J('scheduler', 'who', 'asan plain tsan noev', '0 2 3', 3000, heavy=0.4)])
check('C33', 'fresh processes whose 2-8 threads make their first use of 20 parts of the library at the same moment, the same one most of the time; each '
      'outcome checked and shared things compared; distinct by what was used first',
      [J('cold', 'cold', 'asan plain noev', '0 2 3', 300, heavy=0.7),
       J('cold', 'cold', 'tsan', '0 3', 400, heavy=0.7)])
L = dict(leak=True)
check('C09', 'the programs of all drivers under AddressSanitizer, LeakSanitizer at the end of each run, with payloads, data, sources, descriptors and '
      'objects counted per case; distinct by the history of each case',
      [J('future', 'settle attach nested where deep tree tree-mt', 'asan noev', '0 3', 900, **L),
       J('future', 'crowd', 'asan', '0', 40, **L), J('combi', 'wide', 'asan', '0', 40, **L), J('channel', 'volume', 'asan', '0', 40, **L),
       J('combi', 'order nested graph withdraw decided delseq delayed', 'asan noev', '0 3', 900, **L),
       J('values', 'values owner shared', 'asan noev', '0', 1500, **L),
       J('channel', 'model close release all-mt mpmc fibers', 'asan noev', '0 3', 700, **L),
       J('fiber', 'discard discard-seq programs', 'asan', '0 3', 700, **L),
       J('scheduler', 'main-push pool-release sema sema-seq', 'asan nouring', '0 3', 400, **L),
       J('event', 'timeouts timeout-race timeout-drop signals cancel-seq cancel-race', 'asan', '0 3', 600, **L),
       J('async', 'pair pair-race pair-return result result-race', 'asan', '0 3', 900, **L),
       J('aio', 'file fds deep blocked', 'asan nouring', '0', 250, **L),
       J('gio', 'files streams net dbus drop', 'asan', '0', 400, **L)],
      only=r'san:|ubsan:|abort|lsan-leak|glog-critical|.*-leak$|.*live|destroy|double-|payload-|finalize-|use-after|object-storage|callback-after-destroy|ownership|source-left|handler-left|item-(torn|twice)')
check('C30', 'the threaded scenarios of all drivers under ThreadSanitizer (races, lock order) with and without injected delays, and under Address- and '
      'UndefinedBehaviorSanitizer; a report inside the library, a crash or a deadlock counts; distinct by the history of each case',
      [J('future', 'settle attach nested tree-mt where deep', 'tsan', '0 2 3', 900, heavy=0.4),
       J('combi', 'race withdraw decided delayed', 'tsan', '0 2 3', 900, heavy=0.4),
       J('values', 'shared', 'tsan', '0 3', 900),
       J('object', 'gauntlet gauntlet-set gauntlet-detach pair complete-vs-release', 'tsan', '0 3', 900),
       J('channel', 'mpmc fibers close release all-mt', 'tsan', '0 2 3', 700, heavy=0.4),
       J('fiber', 'programs herd discard', 'tsan', '0 2 3', 600, heavy=0.4),
       J('scheduler', 'main-push pool-once pool-release wsq-steal wsq-pool sema', 'tsan', '0 2 3', 500, heavy=0.4),
       J('aio', 'deep cross blocked', 'tsan', '0 3', 400),
       J('event', 'timeouts timeout-race timeout-drop signals signal-race cancel-race', 'tsan', '0 2 3', 700, heavy=0.4),
       J('async', 'pair-race result-race', 'tsan', '0 2 3', 900, heavy=0.4),
       J('future', 'settle attach tree-mt', 'asan', '2', 500), J('combi', 'race withdraw', 'asan', '2', 500), J('channel', 'mpmc release', 'asan', '2', 400),
       J('fiber', 'programs discard', 'asan', '2', 400), J('scheduler', 'pool-once pool-release sema', 'asan', '2', 300), J('event', 'timeout-drop cancel-race', 'asan', '2', 400),
       J('aio', 'file fds', 'asan nouring', '0', 200), J('values', 'values', 'asan', '0', 900)],
      only=r'san:|ubsan:|abort|hang')
