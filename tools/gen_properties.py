#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that it stays reviewable)."""
import json, os
P = []
DB='src/polodb_core/db/'; VM='src/polodb_core/vm/'; CO='src/polodb_core/coll/'; IX='src/polodb_core/index/'; TX='src/polodb_core/transaction/'; SV='src/polodb/'
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Acknowledged writes survive process crashes and power loss",
 "Once an insert, update, delete, collection or index operation issued outside a transaction, or the commit of a transaction, has returned success, its whole effect is still present after any later process crash or power loss and reopening of the database. This holds whatever other operations, flushes or compactions are in progress at the crash and however many crashes and reopenings follow one another.",
 ["crash_points","histories","schedules","fault_sequences"],
 "every history of operations, every crash instant (any file-system call or scheduling point, also during open and recovery), every subset of not-yet-synced file blocks that the power loss drops or tears",
 "The tests never stop the process, never drop unsynced data and never reopen after anything but a clean close.",
 [DB+'rocksdb_transaction.rs',DB+'rocksdb_options.rs',DB+'rocksdb_wrapper.rs',CO+'collection.rs',TX+'transaction.rs'],
 [("synchronous write options on every transaction","src/polodb_core/db/rocksdb_transaction.rs RocksDBTransactionInner::new"),("commit before the operation returns","src/polodb_core/macros.rs try_db_op"),("write-ahead-log recovery at open","src/polodb_core/db/rocksdb_wrapper.rs open")],
 [("acknowledged history","operations whose call returned Ok before the crash","client side")],["documents, index-backed lookups and collection list after reopening"])
p("C02","Operations and transactions are all-or-nothing across crashes",
 "After a crash at any point and reopening, every operation outside a transaction (including one that touches many documents, builds or drops an index, or drops a collection) and every explicit transaction is either entirely visible or entirely absent, and a transaction that was not committed is entirely absent. The effect on documents, on their index entries and on the collection list never disagree with each other, and the reopened database accepts new work.",
 ["crash_points","histories","schedules","fault_sequences"],
 "every crash instant inside insert_many, update_many, delete_many, create_index, drop_index, drop, explicit transactions and concurrent combinations of them",
 "No test crashes in the middle of an operation; a partial state can only be observed by cutting the execution at each internal step.",
 [DB+'db_inner.rs',CO+'collection.rs',CO+'txn_collection.rs',TX+'transaction.rs',TX+'transaction_inner.rs',IX+'index_builder.rs'],
 [("one storage transaction per operation, committed once at the end","src/polodb_core/macros.rs try_db_op; src/polodb_core/coll/collection.rs"),("document, index and catalogue keys written in the same storage transaction","src/polodb_core/db/db_inner.rs insert_one_with_meta, create_single_index, drop_collection_internal")],
 [],["documents, index-backed lookups and collection list after reopening"])
p("C03","Transactions are isolated until commit and leave no trace when undone",
 "Nothing written inside an uncommitted transaction is visible to any other reader, while the transaction itself always sees its own writes (inserts, updates, deletes, collection and index creation) in every kind of read; commit makes all of them visible at one instant. A transaction that is rolled back or dropped without commit, by any thread and after any mix of successful or failed operations, leaves documents, indexes and the collection list exactly as if it had never run. Several threads may use one transaction together; once it is committed it takes no further write.",
 ["histories","schedules"],
 "every interleaving of several concurrent transactions and auto-committed operations on shared and disjoint documents, every operation mix before commit, rollback or drop",
 "The tests run one transaction at a time on one thread and check two or three fixed sequences.",
 [TX+'transaction.rs',TX+'transaction_inner.rs',CO+'txn_collection.rs',DB+'rocksdb_transaction.rs',DB+'db_inner.rs'],
 [("all reads and writes of a transaction go through one storage transaction","src/polodb_core/coll/txn_collection.rs"),("rollback on drop","src/polodb_core/transaction/transaction_inner.rs Drop")],
 [],["results of find, find_one, count_documents and list_collection_names inside and outside the transaction"])
p("C04","Concurrent updates of the same document are never lost",
 "When several threads update or delete the same documents at the same time, every acknowledged update takes effect on top of the others: the final state equals some one-after-another execution of the acknowledged operations, for example N acknowledged increments add exactly N times the step, and a document is deleted by at most one acknowledged delete. The reported matched, modified and deleted counts agree with that one-after-another execution.",
 ["schedules","histories"],
 "every interleaving of the internal steps of concurrent update_one, update_many, delete_one and delete_many calls, on and off explicit transactions",
 "The tests are single threaded; a lost update needs a preemption between the read and the write of one call.",
 [VM+'vm.rs',VM+'codegen.rs',VM+'subprogram.rs',DB+'db_inner.rs',DB+'rocksdb_transaction.rs'],
 [("storage-level locking of the written keys until commit","src/polodb_core/db/rocksdb_transaction.rs"),("update and delete programs","src/polodb_core/vm/subprogram.rs compile_update, compile_delete; src/polodb_core/vm/vm.rs")],
 [],["final documents and per-call result counts"])
p("C05","A collection never holds or acknowledges two documents with one _id",
 "For every collection, at most one of any set of inserts with the same _id is acknowledged while the document exists, no matter how they are interleaved, retried, batched or placed in transactions; all the others fail with a duplicate-key error or a lock conflict and change nothing. An acknowledged insert is never overwritten by a later insert.",
 ["schedules","histories","inputs"],
 "every interleaving of concurrent insert_one, insert_many and upsert calls with colliding _id values, in and out of transactions, with deletes in between and across reopenings",
 "The tests insert the duplicate only after the first insert has returned, on the same thread.",
 [DB+'db_inner.rs',DB+'rocksdb_transaction.rs'],
 [("existence check on the primary key before writing it","src/polodb_core/db/db_inner.rs insert_one_with_meta")],
 [],["insert results and the stored documents"])
p("C06","A unique index admits at most one document per value at every time",
 "While a unique index exists, no committed state contains two documents with the same indexed value: an insert, update or upsert that would create a second one fails with a duplicate-key error or lock conflict and changes nothing, under every interleaving, inside transactions and across crashes. Creating a unique index over a collection that already holds duplicates fails and leaves no index, and values freed by a delete or update can be used again.",
 ["schedules","histories","crash_points"],
 "every interleaving of writers with colliding values, every order of index creation against inserts, updates and deletes, and every history of frees and reuses of a value",
 "The tests insert two fixed duplicates one after the other.",
 [IX+'index_helper.rs',IX+'index_builder.rs',DB+'db_inner.rs',VM+'subprogram.rs'],
 [("uniqueness check before writing an index entry","src/polodb_core/index/index_helper.rs"),("index maintenance around every update and delete","src/polodb_core/vm/subprogram.rs")],
 [],["operation results; documents grouped by the indexed value"])
p("C07","Index-backed queries return exactly what a full scan would",
 "At every moment and for every query, the documents returned when an index exists on a queried field are the same as those returned by the same query evaluated over all documents without that index, in ascending as well as filtered, sorted, limited and nested-field forms. This stays true after any history of inserts, updates, deletes, failed or rolled-back operations, index creations and drops (also concurrent with writers) and after crashes.",
 ["histories","schedules","crash_points","inputs"],
 "every history of writes and index creations/drops, every interleaving of an index build with writers, every crash point in between",
 "The tests look up two or three fixed documents right after inserting them; stale or missing entries only appear after longer or concurrent histories.",
 [IX+'index_helper.rs',IX+'index_builder.rs',VM+'codegen.rs',VM+'subprogram.rs',VM+'vm.rs',DB+'db_inner.rs'],
 [("index entry inserted/removed with each document write","src/polodb_core/index/index_helper.rs; src/polodb_core/vm/vm.rs DeleteIndex/InsertIndex"),("index-backed query plan","src/polodb_core/vm/codegen.rs emit_query_layout")],
 [],["find results through the index against a scan of all documents"])
p("C08","A failed operation changes nothing, in and outside a transaction",
 "When an operation returns an error (a duplicate key in the middle of a batch, an operator that does not apply to one of many documents, an invalid name or a lock conflict), no part of it is visible: documents, index entries and the collection list are as before. Inside a transaction, the operations before and after the failed one are unaffected: committing the transaction afterwards stores all of them and nothing of the failed one. After a storage failure inside the operation, either nothing of it or the whole of it is there, also after reopening. Later operations on the same collection work normally and hold no leftover locks.",
 ["histories","schedules","inputs","fault_sequences"],
 "every failing position inside a multi-document operation, every error cause including lock timeouts and injected storage errors, every following operation",
 "The tests check that the error is returned, rarely what the failed call left behind, and never under contention or storage errors.",
 ['src/polodb_core/macros.rs',CO+'collection.rs',CO+'txn_collection.rs',DB+'db_inner.rs',TX+'transaction_inner.rs'],
 [("rollback of the storage transaction on every error path","src/polodb_core/macros.rs try_db_op; src/polodb_core/transaction/transaction_inner.rs"),("undoing a failed statement of a transaction","src/polodb_core/transaction/transaction_inner.rs run_statement")],
 [],["state before and after the failing call"])
p("C09","Storage errors are reported and never turn into wrong answers",
 "When the file system returns an error, a short read or write, or no space, an operation either returns an error or the correct complete answer: it never returns a truncated or empty result as success, never reports an acknowledged write that is later lost, and never panics or corrupts other data. After the fault has gone and the database is reopened, all acknowledged data is present and the database accepts new work.",
 ["fault_sequences","histories","crash_points"],
 "every file-system call of open, reads, commits, flushes and compactions failing with any of the injected error kinds, once or persistently, in any combination with later crashes",
 "The tests run on a healthy disk only.",
 [DB+'rocksdb_iterator.rs','src/polodb_core/cursor.rs',VM+'vm.rs',DB+'rocksdb_transaction.rs',DB+'rocksdb_wrapper.rs',DB+'db_inner.rs'],
 [("error status of storage iterators","src/polodb_core/db/rocksdb_iterator.rs error"),("error results of storage calls","src/polodb_core/db/rocksdb_transaction.rs check_err")],
 [],["results of operations during the fault; contents after reopening"])
p("C10","Iterating a cursor while others write yields each document correctly once",
 "A find cursor or a multi-document update or delete that runs while other threads insert, update and delete returns or touches every document that matches throughout exactly once, never returns a document twice, and never returns a document in a state that was not committed or that does not match the query. A multi-document update whose own writes change the queried or indexed field never visits a document twice.",
 ["schedules","histories"],
 "every placement of concurrent commits between the steps of a scan, over full, primary-key and index scans, inside and outside transactions",
 "The tests drain each cursor before doing anything else.",
 ['src/polodb_core/cursor.rs',VM+'vm.rs',IX+'index_helper.rs',DB+'client_cursor.rs',DB+'rocksdb_iterator.rs'],
 [("storage iterator with a fixed view","src/polodb_core/db/rocksdb_iterator.rs"),("query loop","src/polodb_core/vm/vm.rs")],
 [],["documents returned by the cursor; matched and modified counts"])
p("C11","Operations always finish, also under conflicts and deadlocks",
 "Every operation returns a result or an error within a bounded time once it is allowed to run: conflicting writers and crosswise-locking transactions end with a lock-conflict error for some of them rather than a hang, and no operation crashes or panics. As soon as the conflicting transactions are finished, dropped or rolled back, the same documents can be written again.",
 ["schedules","histories"],
 "every interleaving of conflicting transactions, cursors and single operations over shared documents, with the clock running at any speed",
 "The tests never have two writers in flight.",
 [TX+'transaction.rs',TX+'transaction_inner.rs',DB+'rocksdb_transaction.rs',CO+'collection.rs',DB+'rocksdb_wrapper.rs'],
 [("storage lock timeout","src/polodb_core/db/rocksdb_transaction.rs transaction options"),("locks released at commit, rollback and drop","src/polodb_core/transaction/transaction_inner.rs")],
 [],["completion of every call within a bounded number of steps and of simulated seconds"])
p("C12","Automatically generated _id values never collide",
 "Every document inserted without an _id (or with a null _id) gets a fresh _id that is reported in the result and stored, differs from every other _id generated by any thread, process run or connection, and never causes a duplicate-key failure. This holds under concurrency, across restarts and when the system clock stands still or jumps backwards.",
 ["schedules","histories","configurations"],
 "every interleaving of concurrent inserts, every clock behaviour (standing still, jumping backwards or forwards) and every restart point",
 "The tests insert a few documents on one thread with an advancing clock.",
 [DB+'db_inner.rs',SV+'handlers/insert_handler.rs'],
 [("identifier generation when _id is missing","src/polodb_core/db/db_inner.rs fix_doc")],
 [],["inserted ids in results and stored documents"])
p("C13","A database path has one owner and survives any open/close sequence",
 "While a database is open, a second open of the same path fails without disturbing the first; after the last handle is dropped, the path can be opened again and holds exactly the committed contents, for every sequence and interleaving of opens, clones, drops and operations on several threads. A collection handle used after its database was closed reports an error instead of crashing, and closing a database never loses committed data.",
 ["histories","schedules"],
 "every order of open, clone, use, drop and reopen over several threads and paths, including drops racing with operations",
 "The tests open once, or reopen once on one thread.",
 [DB+'db.rs',DB+'rocksdb_wrapper.rs',CO+'collection.rs','src/polodb_core/utils/file_lock.rs'],
 [("storage lock file","src/polodb_core/db/rocksdb_wrapper.rs open"),("weak handles from collections to the database","src/polodb_core/coll/collection.rs")],
 [],["open results, operations on stale handles, contents after reopening"])
p("C14","Collections are independent and appear and vanish as a whole",
 "Operations on one collection never change the documents, indexes or existence of another, whatever their names (including names that are prefixes of each other, empty-looking or non-ASCII). Creating, listing and dropping collections is atomic under every interleaving: a created or written-to collection is listed exactly once, of several concurrent creations of one name at most one succeeds, and a dropped collection leaves no document and no index behind when a collection of that name is created again.",
 ["histories","schedules","inputs"],
 "every history and interleaving of create, implicit create, drop, list and data operations over collections with related names",
 "The tests use one or two unrelated names on one thread.",
 [DB+'db_inner.rs',CO+'collection_info.rs',CO+'collection.rs','src/polodb_core/utils/bson.rs','src/polodb_core/cursor.rs'],
 [("key prefix per collection","src/polodb_core/utils/bson.rs stacked_key"),("catalogue entry read and written in the same storage transaction","src/polodb_core/db/db_inner.rs internal_create_collection, drop_collection_internal")],
 [],["list_collection_names, contents of every collection"])
p("C15","Every operation behaves like the documented sequential database",
 "For any sequence of operations (inserts, updates, upserts, deletes, finds, counts, sorting and paging, aggregations, index and collection management, transactions), each result and the final contents equal those of a simple in-memory model of the documented API. Splitting the sequence by closing and reopening, forcing flushes and compactions, or moving a part into a committed transaction does not change any result.",
 ["histories","inputs","configurations"],
 "every operation sequence over generated documents and queries, every placement of restarts, flushes, compactions and transaction boundaries in it",
 "The tests check isolated calls on fresh collections; state carried over between many operations and restarts is not explored.",
 [DB+'db_inner.rs',VM+'vm.rs',VM+'codegen.rs',VM+'subprogram.rs',CO+'collection.rs',CO+'txn_collection.rs','src/polodb_core/action/find.rs','src/polodb_core/action/aggregate.rs'],
 [("query and update compiler","src/polodb_core/vm/codegen.rs"),("virtual machine","src/polodb_core/vm/vm.rs")],
 [],["results of all calls"])
p("C16","The server sends exactly one matching reply per request, in order",
 "On every connection, each well-formed request receives exactly one complete reply that names that request as the one it answers, in the order of the requests, with ok=1 or an error document. This holds however the bytes of the requests are cut, delayed or pipelined by the network, however many other connections are active, and also when a command is unknown or fails.",
 ["schedules","inputs","fault_sequences"],
 "every fragmentation and delay of the byte streams, every interleaving of the connections' tasks, every mix of valid, failing and unknown commands",
 "The existing tests drive the server with one well-behaved client, whole messages and no crash.",
 [SV+'main.rs',SV+'wire/header.rs',SV+'wire/message.rs',SV+'handlers/mod.rs',SV+'handlers/find_handler.rs'],
 [("request framing and the reply header","src/polodb/main.rs; src/polodb/wire"),("command dispatch","src/polodb/handlers")],
 [],["bytes sent back on each connection"])
p("C17","Server cursors hand out every result exactly once and stay separate",
 "The batches of a find or aggregate command and its getMore commands together contain exactly the matching documents, each exactly once, for every batch size and however many cursors are opened, advanced, exhausted, killed and interleaved on one or many connections. A cursor never yields documents of another one, an exhausted result is announced with cursor id 0, and using an exhausted, killed or unknown cursor is an error reply.",
 ["histories","schedules","inputs"],
 "every interleaving of openings, getMores and killCursors over several cursors and connections, every batch size",
 "The existing tests drive the server with one well-behaved client, whole messages and no crash.",
 [SV+'handlers/find_handler.rs',SV+'handlers/get_more_handler.rs',SV+'handlers/kill_cursors_handler.rs',SV+'handlers/aggregate_handler.rs',SV+'app_context.rs'],
 [("table of open cursors","src/polodb/app_context.rs")],
 [],["reply batches and cursor ids"])
p("C18","Server transactions follow their session and are isolated",
 "Commands carrying a session in a transaction (insert, find, update, delete, aggregate) read and write inside that session's transaction: other sessions see nothing before commitTransaction succeeds and everything after, and nothing at all after abortTransaction. A session can run one transaction after another, several sessions can run at once, and sessions with different identifiers never share a transaction.",
 ["histories","schedules"],
 "every interleaving of several sessions' transactions and of commands without a session, over several connections, with commits, aborts and reuses in any order",
 "The existing tests drive the server with one well-behaved client, whole messages and no crash.",
 [SV+'session_context.rs',SV+'app_context.rs',SV+'handlers/insert_handler.rs',SV+'handlers/update_handler.rs',SV+'handlers/delete_handler.rs',SV+'handlers/find_handler.rs'],
 [("session table","src/polodb/app_context.rs; src/polodb/session_context.rs"),("commit and abort handlers","src/polodb/handlers")],
 [],["replies of all connections"])
p("C19","One broken client never affects the server or other clients",
 "A client that disconnects at any byte, sends malformed, oversized, truncated or random frames, or stops reading, never crashes the server, never delays other connections beyond a bound, and never changes data except through its complete well-formed requests. Other connections keep getting correct replies, and new connections are accepted.",
 ["inputs","fault_sequences","schedules"],
 "every disconnect and reset point, every corruption of header and body bytes, with any number of healthy connections alongside",
 "The existing tests drive the server with one well-behaved client, whole messages and no crash.",
 [SV+'main.rs',SV+'wire/header.rs',SV+'wire/message.rs',SV+'checked.rs'],
 [("per-connection task and error handling","src/polodb/main.rs"),("bounded frame decoding","src/polodb/wire")],
 [],["replies on healthy connections while and after others misbehave"])
p("C20","Writes acknowledged by the server survive a server crash",
 "After the server process is killed or the machine loses power at any moment and the server is started again on the same path, every write whose successful reply was sent to a client is present, every write statement of a request is applied completely or not at all, and the server accepts connections and serves requests. Writes of uncommitted session transactions are absent.",
 ["crash_points","histories","schedules"],
 "every crash instant during request processing and startup, with several clients in flight",
 "The existing tests drive the server with one well-behaved client, whole messages and no crash.",
 [SV+'main.rs',SV+'handlers/insert_handler.rs',SV+'handlers/update_handler.rs',SV+'handlers/delete_handler.rs',DB+'rocksdb_transaction.rs'],
 [("reply only after the operation committed","src/polodb/handlers")],
 [],["replies before the crash; contents read through the restarted server"])
p("C21","Ordering of encoded keys equals ordering of values",
 "For any two values usable as an _id or indexed value, the stored key bytes compare in the same order as the values and are equal only for equal values.",
 ["inputs"],"all pairs of values","A sample of pairs is tested.",
 ['src/polodb_core/utils/bson.rs'],[("key encoding","src/polodb_core/utils/bson.rs stacked_key")])
p("C22","Wire messages decode to what was encoded",
 "Every message that the server can send decodes, byte for byte, to the same message, and decoding any byte string terminates with a message or an error.",
 ["inputs"],"all byte strings and all messages","A few fixed messages are tested.",
 [SV+'wire/message.rs',SV+'wire/header.rs',SV+'checked.rs'],[("codec","src/polodb/wire/message.rs")])
p("C23","Python values round-trip through the binding",
 "Every Python value of a supported type stored through the Python package is read back equal, and an unsupported value raises an exception without storing anything.",
 ["inputs"],"all nested values of supported and unsupported types","The Python tests use a handful of values.",
 ['py-polodb/src/helper_type_translator.rs'],[("type translation","py-polodb/src/helper_type_translator.rs")])
p("C24","Line-diff assertions report exactly the differing lines",
 "The line-difference helper reports a difference if and only if its two inputs differ, and its output lists exactly the lines to remove and add.",
 ["inputs"],"all pairs of texts","A few fixed texts are tested.",
 ['src/polodb_line_diff/lib.rs'],[("diff algorithm","src/polodb_line_diff/lib.rs")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
