import json
def P(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None))
TX="inc/Tecs_transaction.hh";ST="inc/Tecs_storage.hh";LK="inc/Tecs_lock.hh";EN="inc/Tecs_entity.hh";OB="inc/Tecs_observer.hh";EV="inc/Tecs_entity_view.hh";PE="inc/Tecs_permissions.hh";TR="inc/Tecs_tracing.hh";EC="inc/Tecs.hh";SRC="src/Tecs.cc"
locks=dict(name="readers / writer words",meaning="per-component reader count and writer phase (free, locked, committing)",where=ST)
buf=dict(name="read and write copies",meaning="every component, every list of valid entities and the entity table exist twice; commit exchanges them",where=ST)
props=[
P("C01","Every transaction reads one stable committed snapshot",
 "Everything a transaction reads of data it did not itself modify - component values, existence, membership lists, globals - comes from one state that had been committed when the transaction acquired its permissions. Repeating a read gives the same answer until the transaction ends, no value is ever half-written, and nothing another transaction has not committed is ever visible.",
 ["schedules","programs","histories"],"all interleavings of any number of transactions with any permission sets, at the granularity of single atomic operations and memory accesses",
 "The tests run a handful of fixed two- and three-thread scripts separated by sleeps; they reach a few of the interleavings and never stop a commit half way.",
 [ST,TX,LK,EN],[("reader/writer/commit lock per component","ComponentIndex::ReadLock, WriteLock, CommitLock"),("double-buffered storage exchanged at commit","Transaction destructor")],[locks,buf]),
P("C02","A commit becomes visible atomically across everything it changed",
 "All changes made by one transaction - to several component types, several entities, entity creation and removal, membership lists and globals - become visible to any other transaction together or not at all. No observer can see a state that contains part of a commit, or a later commit without an earlier one that preceded it in real time.",
 ["schedules","programs","histories"],"all interleavings of commits with the lock acquisition of other transactions, all combinations of component types",
 "Tests check one cross-component pair with a timing loop; the property quantifies over every point between the acquisitions and releases of a multi-component commit and every set of components.",
 [TX,ST],[("all commit locks are taken before anything is exchanged","Transaction destructor"),("permissions are acquired together or rolled back","Transaction constructor")],[locks]),
P("C03","Writers of the same data exclude each other; no update is lost",
 "At most one transaction at a time holds write permission for a given component type, and at most one may add or remove. A writer always starts from the latest committed value, and every committed write stays in effect until a later transaction overwrites it: concurrent read-modify-write transactions never lose an update.",
 ["schedules","programs","histories"],"all interleavings of two or more writers with overlapping or identical permissions, including writers that change nothing",
 "The tests count increments in one benchmark-like loop under the operating system's scheduler; losing an update needs a specific interleaving inside lock acquisition or commit, or a buffer that was not brought up to date afterwards.",
 [ST,TX],[("exclusive writer word","ComponentIndex::WriteLock/WriteUnlock"),("write copy is brought up to date before the write lock is released","Transaction destructor")],[locks,buf]),
P("C04","A transaction sees its own changes and, separately, the previous state",
 "Inside a transaction, reads through the lock and through narrower writable or readable locks derived from it see all of that transaction's own earlier changes; 'previous' reads and a read-only derived lock see exactly the state before them. Neither view is disturbed by later operations of the same transaction or by other transactions.",
 ["programs","histories","schedules"],"all sequences of operations inside a transaction, in every permission set, against any concurrent activity",
 "Tests check single steps; the property ranges over all operation sequences (remove, re-add, overwrite, storage growth, derived locks) and over concurrent commits of the data that is only read.",
 [LK,EN,TX],[("permission bits select the read or write copy","Lock, Entity::Get/Has/Exists and the previous-state variants"),("removed and re-added components are reset","Entity::Get, Lock::RemoveComponents")],[buf]),
P("C05","Changes commit exactly when the last lock handle is released",
 "A transaction's changes become visible no earlier than the release of the last copy of its lock (including converted copies and exception unwinding) and no later than the return of that release; every transaction that starts afterwards sees them. The commit waits until every transaction still reading the old state of the changed data has finished.",
 ["schedules","histories","programs"],"all release orders of lock copies, all interleavings of the release with readers starting and finishing",
 "Tests use one reference-count scenario; real-time visibility and waiting for readers need checking against every instant of the commit.",
 [TX,LK,ST],[("shared ownership of the transaction by lock copies","Lock"),("readers drain before the exchange","ComponentIndex::CommitLock")],[locks]),
P("C06","Concurrent transactions are free of data races",
 "Any number of threads may run transactions, use entity handles, membership lists and their own observers concurrently without additional synchronisation, and no two unordered conflicting memory accesses ever happen, under the memory orders the code actually requests. This covers component data, bookkeeping, event queues and trace buffers.",
 ["schedules","programs"],"all interleavings and all permission combinations, under the C++ memory model rather than one processor's",
 "The suite is run without a race detector, and a race shows only if both accesses happen and the ordering between them is missing; x86 hides weakened memory orders completely.",
 [ST,TX,LK,OB,TR],[("acquire/release operations on the lock words","ComponentIndex"),("entity table locked by every transaction","Transaction constructor")],[locks]),
P("C07","Transactions never deadlock and never lose a wake-up",
 "Provided every transaction eventually ends and no thread nests transactions on one instance, every transaction start and every commit completes within a bounded number of steps of fair scheduling, whatever the permission sets, the order of arrival and the delays suffered before. No waiter stays asleep after the condition it waits for has become true.",
 ["schedules","programs","configurations"],"all mixes of permission sets, all interleavings, spurious failures and wake-ups, with blocking-wait and yield-based waiting",
 "A missed wake-up or a lock-order cycle needs a window of a few instructions; the suite would simply pass unless it happened to hit it, and the waiting path is rarely reached because spinning usually succeeds.",
 [TX,ST],[("block only while holding nothing, otherwise roll back","Transaction constructor"),("notify after every change of a lock word","ComponentIndex unlock functions")],[locks]),
P("C08","Writers do not block readers until they commit",
 "A transaction that only reads can start, run and finish while any number of writers hold uncommitted changes to the same data, and transactions whose permissions do not conflict never wait for each other. A writer that changed nothing, and component types a writer did not touch, never wait for readers at the end of the transaction: they are available to others at once, even while the commit of other types has to wait.",
 ["schedules","programs","configurations"],"a writer stopped for arbitrarily long at any point between start and release, all non-conflicting permission combinations",
 "Tests demonstrate a few pairs with sleeps; they cannot distinguish 'did not wait' from 'waited briefly'.",
 [ST,TX],[("reads are refused only while committing","ComponentIndex::ReadLock"),("untouched components are released without commit","Transaction destructor")],[locks]),
P("C09","A commit is not starved by a continuous stream of readers",
 "Once a transaction is releasing its changes, its commit completes as soon as the transactions that were already reading finish, even if overlapping new readers keep arriving forever. After the commit the waiting readers proceed.",
 ["schedules","programs"],"unbounded streams of overlapping readers under any fair schedule",
 "One timing test uses overlapping sleeps; starvation depends on arrival patterns it cannot control.",
 [ST],[("new readers wait while a commit is pending","ComponentIndex::CommitLock, ReadLock")],[locks]),
P("C10","Entity handles are never confused with another entity",
 "A handle returned for a new entity differs from every handle ever returned before by that instance and carries that instance's identity; once its entity is destroyed, the handle never becomes valid again even though its slot is reused, and a handle of another instance or a null handle is never valid. Destroyed slots are reused before new storage is allocated.",
 ["histories","programs","schedules"],"all histories of creation and destruction in any number of transactions and threads, over slot reuse and storage growth",
 "Tests destroy and re-create once; uniqueness and no-resurrection range over histories, batches and interleaved transactions.",
 [LK,EN,TX],[("generation counter per slot, free list rebuilt at commit","Lock::NewEntity, PreCommitAddRemoveMetadata")],[dict(name="free list",meaning="slots that may be reused, with the generation their next owner gets",where=EC)]),
P("C11","Membership lists, queries and values always agree",
 "In every snapshot and after every step of a modifying transaction, the list of all entities and the list of entities with a component contain exactly the entities that exist or have that component, once each, and agree with existence and possession queries and with which reads succeed. This holds for every way of walking a list - forwards, backwards, by index, through sub-ranges and iterator arithmetic.",
 ["histories","programs","schedules"],"all histories of add/remove/destroy operations, in one or several transactions, seen by any transaction holding any permissions",
 "Tests count entities after a few operations and only walk lists forwards.",
 [TX,LK,EN,EV],[("lists rebuilt at commit and maintained during the transaction","PreCommitAddRemove, Lock, Entity"),("bounds arithmetic of views","EntityView")],[buf]),
P("C12","Lists stay usable while their entities are added and removed",
 "A list obtained from a lock keeps its length and the position of its elements until the transaction ends, even while entities and components are added, removed or destroyed through it or through references into it; removed elements turn into null entities and nothing else changes. Operations applied through a reference into a list act on exactly the entity referred to when the operation was called.",
 ["programs","histories"],"all interleavings of walking a list with adding, removing and destroying, across storage growth",
 "Tests remove each element in order and add once; combinations of multi-component removal, growth and held lists are not covered.",
 [LK,EN,EV],[("removed entries are nulled in place, additions appended","Lock::RemoveComponents, Entity::Destroy")],[]),
P("C13","Every observer sees every committed change exactly once, in order",
 "An observer receives one event for each entity creation/destruction or component addition/removal of the watched kind committed while it is registered - with the right entity and the value at commit (for removals, the last committed value) - and no others. Events arrive in commit order, changes cancelled within one transaction produce none, each observer is independent of the others, and an observer that was stopped, or whose instance is gone, says so and receives nothing more.",
 ["histories","schedules","programs"],"all histories of commits and polls by any number of observers in any number of threads",
 "Tests poll a fixed script single-threaded; loss, duplication or reordering shows only under particular commit/poll histories.",
 [TX,OB,LK,EC],[("events queued by comparing old and new state, delivered under the commit lock","PreCommitAddRemove*, ObserverList")],[dict(name="event queues",meaning="one per observer plus one being written",where=EC)]),
P("C14","Polling inside a transaction has a fixed cut-off",
 "Within one transaction an observer yields exactly the events committed before that transaction started that were not yet consumed: events of the transaction itself and of commits that come later never appear, and once the queue reports empty it stays empty until the transaction ends. Nothing available is withheld.",
 ["schedules","histories"],"all interleavings of polling with concurrent structural commits",
 "Tests never poll while another thread commits.",
 [OB,TX],[("commit of events waits for all transactions reading the entity table","Transaction destructor")],[]),
P("C15","Rejected operations are reported and change nothing",
 "Using a handle whose entity does not exist, reading a component or global that is absent without permission to add it, indexing outside a list and starting a second transaction are all reported by an exception, never by undefined behaviour. The rejected operation has no effect: the transaction continues, commits its other changes and no other transaction can tell that it happened.",
 ["inputs","histories","programs"],"all stale, null, foreign and out-of-range arguments to every operation at any moment of any history",
 "Tests check that a few null-entity calls throw; the absence of side effects on lists, commits and other threads is never looked at.",
 [EN,LK,EV,TX],[("validity checks before any modification","Entity, Lock, EntityView")],[]),
P("C16","Failed allocations and throwing components leave a consistent world",
 "If an allocation or a component's copy fails inside a transaction start or inside an operation of a running transaction, the exception reaches the caller and the operation has no observable effect (only removing several components at once may have removed the first ones): no permission stays held by a failed start, lists, queries and values still agree, and the transaction can continue and commit. Leaving a transaction by exception commits and releases like a normal end.",
 ["fault_sequences","schedules","programs"],"a failure at every allocation or component copy of every operation, together with any concurrent activity",
 "No test injects a failure.",
 [LK,EN,TX,OB],[("grow first, then mark","Lock::NewEntity, Entity::Set/Get"),("a failed start releases what it acquired","Transaction constructor")],[]),
P("C17","Nested transactions on one instance are rejected, others are allowed",
 "Starting a transaction on an instance while the same thread already has one active on it is rejected and leaves the active transaction unharmed; after it ends - normally, by exception, or after failed starts - the thread can start again. Transactions of one thread on different instances may overlap up to the configured limit, and other threads are never affected.",
 ["programs","histories","schedules","configurations"],"all nestings and orders of ending across instances and threads, with starts that fail",
 "Tests nest once; bookkeeping errors show after particular sequences of overlapping and failing starts.",
 [TX,SRC],[("per-thread table of active instances","BaseTransaction")],[dict(name="active transactions",meaning="instances this thread has a transaction on",where=SRC)]),
P("C18","A dynamic lock grants a request exactly when its transaction allows it",
 "A dynamically typed lock always yields a lock for requested permissions that the lock it was built from carries, whatever static permissions it was declared with, and never for permissions its transaction does not hold - a read-only derived lock never gives write access. Permission to add and remove is never obtained from permission to write. A granted lock behaves like the corresponding static one and keeps the transaction alive.",
 ["configurations","programs"],"all combinations of source, declared and requested permissions",
 "Tests try two combinations.",
 [LK,PE],[("permission bit sets compared with the request","DynamicLock::TryLock"),("static subset rules","is_lock_subset, is_add_remove_allowed")],[]),
P("C19","Global components follow the same transactional rules",
 "A global component exists for everybody exactly from the commit of the transaction that first sets it until the commit of the one that removes it, holds the last committed value, and is subject to the same snapshot, exclusion, previous-state and event rules as entity components. A read-only request for a missing global never creates it.",
 ["histories","schedules","programs"],"all histories of setting, changing, reading and removing globals in all permission sets",
 "Tests run one single-threaded sequence per global.",
 [LK,TX,EC],[("global presence bits committed with the entity table","Transaction destructor"),("global access functions","Lock::Get/Set/Unset/Has")],[dict(name="global presence bits",meaning="which globals exist, read and write copy",where=EC)]),
P("C20","A performance trace records exactly what happened",
 "Between starting and stopping a trace, every transaction start/end and every lock, wait, commit and unlock of every component is recorded once, with the right thread and a time that never decreases within a thread, up to the capacity; recorded per-component orders obey the locking rules. A trace may be started at any moment: transactions that begin after that are recorded in full, and starting a trace that is running (or stopping one that is not) is refused and disturbs nothing. Tracing never changes what transactions do.",
 ["schedules","histories","configurations"],"all interleavings of traced transactions, with and without overflow of the event buffers",
 "No test enables tracing; lost or overwritten slots need concurrent recording.",
 [TR,ST,TX,EC],[("atomic slot index, event written in its own slot","TraceInfo::Trace"),("trace calls between acquisition and release","ComponentIndex")],[]),
P("C21","Component values are created and destroyed exactly once; nothing is kept",
 "Every component value the system copies is eventually destroyed exactly once and never used afterwards; when an entity, component or global is removed and the removal committed, no copy of its value remains anywhere except in undelivered events. When an instance is destroyed everything it allocated is released, and no access ever leaves the memory it owns.",
 ["histories","schedules","fault_sequences"],"all histories, including storage growth, removal, stopped observers and failed operations",
 "Tests use trivially destructible components and no leak or bounds checking.",
 [TX,LK,EN,ST],[("reset on removal, both copies brought up to date","Lock::RemoveComponents, Transaction destructor")],[buf]),
P("C22","Transaction ids are unique and increase with time",
 "No two transactions of a process have the same id, also across instances, threads and failed starts, and a transaction started after another one's start had returned has a larger id. All lock handles of one transaction report the same id.",
 ["schedules","histories"],"all interleavings of transaction starts on any instances",
 "Tests print one id.",
 [TX,LK,SRC],[("one atomic counter","BaseTransaction")],[]),
P("C23","Instances are isolated from each other",
 "Operations on one instance never affect, block on or become visible in another, even if the same threads use both with interleaved or overlapping transactions; each instance has its own identity, which appears in its handles. A handle used with the wrong instance is treated as not existing.",
 ["schedules","programs","configurations"],"all interleavings of transactions on several instances of the same or different type",
 "Tests create a second instance once.",
 [EC,EN,TX],[("instance identity in generation bits","Entity, ECS::GetInstanceId"),("all state is per instance","ECS")],[]),
P("C24","Handles survive conversion to and from integers",
 "Converting an entity handle to its integer form and back gives an equal handle, equality, ordering and hashing agree with each other, and index, generation and instance identity can be recovered for every configuration of the field widths.",
 ["inputs","configurations"],"all handle values and field-width configurations",
 "Tests convert a few handles.",
 [EN],[("field packing","Entity")],[]),
P("C25","Access without permission does not compile",
 "A program that reads, writes, adds or removes through a lock whose static permissions do not include that access is rejected by the compiler, and every access permitted by the documentation compiles.",
 ["programs","configurations"],"all client programs and permission sets",
 "Tests can only contain programs that compile.",
 [PE,LK,EN],[("static assertions on permission traits","Lock, Entity")],[]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
try:
    import jsonschema
except ImportError:
    jsonschema = None
sch=json.load(open("/root/.vp/PROPERTIES.schema.json")) if jsonschema else None
for p in props if jsonschema else []: jsonschema.validate(p,sch)
print(len(props))
