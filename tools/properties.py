MC = "exhaustive enumeration of executions of the real code (stateless model checking) against a reference model"
ALLREPO = "The code under test is the real one, built from /repo's working tree; only the unavailable module github.com/continusec/objecthash is a stand-in (standin/objecthash). "
WEB = "The JavaScript is the file embedded from /repo, run in node with a stand-in for XMLHttpRequest and window (mc/browser/harness.js). "

# ---------------------------------------------------------------- logs
p("L01", "Log tree heads are the RFC 6962 roots of the entries, at every size",
  "For a user log, a map's mutation log and a map's tree head log of any size n, the tree head reported for every size from 1 to n is the RFC 6962 Merkle tree hash of the first entries in order, and asking for the latest head reports size n and that root. A head once reported for a size never changes as the log grows, and negative or too large sizes are answered with an error.",
  ["inputs", "histories"], "every log size, every requested size and every append history",
  NOTEST + "the algorithm's carries, odd sizes and historical sizes depend on the bit pattern of every size.",
  [V+"insertion_log.go", V+"service_log_tree_hash.go", V+"util_fetch_proofs.go", V+"util_service_data.go", "merkle/util_merkle.go"],
  [("frontier stack collapse on append", V+"insertion_log.go writeOutLogTreeNodes"), ("root stored per size", V+"util_service_data.go writeLogRootHashBySize")],
  check="core", technique=MC, note=ALLREPO + "Bounded by the tree sizes stated in the evidence.")
p("L02", "Every entry has a verifiable inclusion proof at every size that covers it",
  "For every log of size n, every tree size t up to n and every entry with index below t, the inclusion proof served by leaf hash and by index is the RFC 6962 audit path and is accepted by the library's verifier against the head for t. A leaf hash that was never added gets a not-found error, and an index or tree size outside the log gets an error rather than a proof.",
  ["inputs", "histories"], "every (size, tree size, index) triple, for the three kinds of log",
  NOTEST + "proofs at historical sizes combine stored and recomputed subtrees in ways that depend on all three numbers.",
  [V+"service_log_inclusion_proof.go", V+"util_fetch_proofs.go", V+"api_highlevel_log.go", "merkle/util_merkle.go"],
  [("range list per RFC 6962", "merkle/util_merkle.go Path"), ("recomputation of imperfect subtrees", V+"util_fetch_proofs.go calcSubTreeHash")],
  check="core", technique=MC, note=ALLREPO + "Bounded by the tree sizes stated in the evidence.")
p("L03", "Every pair of log sizes has a verifiable consistency proof",
  "For every log of size n and every pair of sizes 0 < m < t <= n the served consistency proof is the RFC 6962 proof between the two and is accepted by the library's verifier and consistency helpers against the two heads. Requests whose sizes are not such a pair are answered with an error, except that a second size of zero means the latest.",
  ["inputs", "histories"], "every pair of sizes, for the three kinds of log",
  NOTEST + "there are quadratically many pairs with distinct proof shapes.",
  [V+"service_log_consistency_proof.go", V+"util_fetch_proofs.go", V+"api_highlevel_log.go", "merkle/util_merkle.go"],
  [("range list per RFC 6962", "merkle/util_merkle.go SubProof"), ("client side ordering and comparison of heads", V+"api_highlevel_log.go VerifyConsistency")],
  check="core", technique=MC, note=ALLREPO + "Bounded by the tree sizes stated in the evidence.")
p("L04", "The log inclusion verifier accepts exactly the valid proofs",
  "The client-side verifier of log inclusion proofs accepts a proof if and only if the proof has exactly the RFC 6962 audit path length for its index and tree size, its sizes agree with the head, and it recomputes the head's root from the leaf hash. It rejects, without crashing or hanging, any other combination of index, size, path, leaf hash and head, including negative, overflowing and inconsistent numbers.",
  ["inputs"], "all (index, size) pairs with all mutations of the honest path up to the stated bounds, and sizes up to 2^63-1",
  NOTEST + "soundness is a statement about all wrong proofs.",
  [V+"service_log_inclusion_proof.go", "merkle/util_merkle.go"],
  [("recomputation of the root along the path", V+"service_log_inclusion_proof.go VerifyLogInclusionProof")],
  check="core", technique=MC, note=ALLREPO + "SHA-256 is assumed collision free.")
p("L05", "The log consistency verifier accepts exactly the valid proofs",
  "The client-side verifier of log consistency proofs accepts a proof if and only if it has the RFC 6962 proof length for its two sizes, its sizes agree with the two heads with 0 < first < second, and it recomputes both roots. It rejects, without crashing or hanging, any other combination, including negative, overflowing and inconsistent numbers.",
  ["inputs"], "all (first, second) pairs with all mutations of the honest path up to the stated bounds, and sizes up to 2^63-1",
  NOTEST + "soundness is a statement about all wrong proofs.",
  [V+"service_log_consistency_proof.go", "merkle/util_merkle.go"],
  [("simultaneous recomputation of both roots", V+"service_log_consistency_proof.go VerifyLogConsistencyProof")],
  check="core", technique=MC, note=ALLREPO + "SHA-256 is assumed collision free.")
p("L06", "An entry is sequenced once, in order, keeping its first data",
  "Adding an entry whose leaf input is already in the log is acknowledged with the same leaf hash but changes neither the size, the root, the entry's index nor its stored data; adding a new one appends it at the end. Logs are independent: the same entry in another log has no effect.",
  ["histories", "inputs"], "every sequence of additions over a small alphabet up to the stated depth, and re-adding every entry of a long log",
  NOTEST + "duplicates at every distance and in every order must be tried.",
  [V+"insertion_log.go", V+"service_log_add_entry.go"],
  [("lookup of the leaf hash before appending", V+"insertion_log.go addEntryToLog")],
  check="core", technique=MC, note=ALLREPO)
p("L07", "Log entries are returned completely, in order and as added",
  "For every log and every range within it, fetching, streaming and auditing the entries of that range yields exactly the entries in index order with the leaf input, extra data and format they were added with; ranges outside the log are answered with an error. Auditing the entries between any two honest heads succeeds and presents each entry to the caller once with its index. A stream or audit that its caller ends early leaves nothing running.",
  ["inputs", "histories"], "every range in small logs, and every range with end points around the batching thresholds in long ones",
  NOTEST + "batching, early stops and the rebuilt frontier of the audit depend on the range.",
  [V+"service_log_fetch_entries.go", V+"api_highlevel_wrapper.go", V+"api_highlevel_log.go"],
  [("batched streaming", V+"api_highlevel_wrapper.go Entries"), ("frontier rebuilt from an inclusion proof", V+"api_highlevel_log.go VerifyEntries")],
  check="core", technique=MC, note=ALLREPO)

# ---------------------------------------------------------------- maps
p("M01", "A map at every size is what replaying its mutations in order gives",
  "At every tree size a map holds for every key exactly the value obtained by applying the first mutations in order: set stores the value, delete (or setting an empty value) removes it, and update stores it only if the current leaf hash equals the stated previous one. Values of all earlier sizes stay readable and unchanged whatever is mutated later, including the extra data and format of the value current at that size when leaf inputs differ.",
  ["histories", "inputs"], "every sequence of mutations over a universe of keys with chosen shared path prefixes, to the stated depth, read at every historical size",
  NOTEST + "the copy-on-write tree has cases (fork, split, rewrite, tombstone, no-op) that only particular histories reach.",
  [V+"insertion_map.go", V+"service_map_get_value.go", V+"service_map_set_value.go", V+"util_service_data.go"],
  [("copy-on-write path rewriting", V+"insertion_map.go setMapValue"), ("descent to the fork", V+"insertion_map.go descendToFork")],
  check="core", technique=MC, note=ALLREPO + "Two values with the same leaf input but different extra data share storage: the last written extra data is what is served (by design; leaf input is what is authenticated).")
p("M02", "A map's root hash commits to exactly its contents",
  "At every tree size the map's root hash is the root of the 256-level sparse Merkle tree over the SHA-256 paths of the keys, whose leaf is the leaf hash of the key's value or the default for an absent key. In particular it depends only on the current contents and not on the history, and the root for a size never changes afterwards.",
  ["histories", "inputs"], "every sequence of mutations over a universe of keys with chosen shared path prefixes, to the stated depth, at every historical size",
  NOTEST + "structurally different trees with the same contents must hash the same for every history.",
  [V+"insertion_map.go", V+"util_fetch_proofs.go", V+"service_map_tree_hash.go", "merkle/util_merkle.go"],
  [("compressed leaf hashing", V+"util_fetch_proofs.go calcNodeHash"), ("ancestor rewriting", V+"insertion_map.go writeAncestors")],
  check="core", technique=MC, note=ALLREPO)
p("M03", "Map values, present or absent, come with verifying proofs at every size",
  "For every key, present, absent or deleted, and every tree size of a map, the value served comes with an audit path that verifies against the map head of that size and equals the sibling hashes of the key's path (defaults left empty). Negative and too large sizes are answered with an error.",
  ["histories", "inputs"], "every mutation sequence to the stated depth, every historical size, every key of a universe that includes absent keys diverging at chosen depths",
  NOTEST + "non-inclusion proofs have several shapes that depend on where the path leaves the tree.",
  [V+"service_map_get_value.go", V+"util_fetch_proofs.go", V+"util_path.go"],
  [("manufactured proof for a differing leaf", V+"service_map_get_value.go MapGetValue"), ("verification", V+"service_map_get_value.go VerifyMapInclusionProof")],
  check="core", technique=MC, note=ALLREPO)
p("M04", "The map proof verifier accepts exactly the valid proofs",
  "The client-side verifier of map values accepts a response if and only if its tree size equals the map head's, its audit path has one element per bit of the key path, and hashing the value's leaf hash with the path (empty elements standing for defaults) along the key's path gives the map head's root. It rejects anything else without crashing.",
  ["inputs"], "all single and some double mutations of honest proofs: each of the 256 elements, lengths, value, key, sizes, root, missing parts",
  NOTEST + "soundness is a statement about all wrong proofs.",
  [V+"service_map_get_value.go", "merkle/util_merkle.go"],
  [("recomputation of the root", V+"service_map_get_value.go VerifyMapInclusionProof")],
  check="core", technique=MC, note=ALLREPO + "SHA-256 is assumed collision free.")
p("M05", "Every map mutation is logged once and gets one matching tree head",
  "Each acknowledged mutation appends exactly one entry to the map's mutation log, recording the requested action, key, value and previous hash under the leaf hash that was acknowledged, and exactly one entry to its tree head log. The k-th tree head entry states the map root and the mutation log head at size k, and mutation log entries stay readable and valid whatever values the map stores later.",
  ["histories", "inputs"], "every mutation sequence to the stated depth, including no-op mutations and values chosen to equal earlier mutation log entries",
  NOTEST + "the three structures share one namespace and one size.",
  [V+"insertion_log.go", V+"insertion_map.go", V+"service_map_set_value.go", V+"util_json.go"],
  [("mutation applied to both logs and the map", V+"insertion_log.go applyLogAddEntry")],
  check="core", technique=MC, note=ALLREPO)
p("M06", "Verified map states exist for every pair of honest sizes",
  "For an honest map a client can obtain a verified map state for every size and for the latest, from no previous state or from the state of any other size, older or newer, and the state is the map head of that size included in the returned tree head log head. For an empty map and no previous state the result is no state and no error. If some answers come from replicas that are behind, the result is an error or still such a state or head, and the latest one is never older than the previous one passed in.",
  ["histories", "inputs"], "every pair (previous size, requested size) of a map, while it grows",
  NOTEST + "the shortcut and the fallback paths depend on the pair of sizes.",
  [V+"api_highlevel_map.go", V+"service_map_tree_hash.go"],
  [("consistency with the previous state and inclusion in the tree head log", V+"api_highlevel_map.go VerifiedMapState")],
  check="core", technique=MC, note=ALLREPO)

# ---------------------------------------------------------------- auditing and clients
p("A01", "Auditing an honest map succeeds and reports exactly the effective mutations",
  "Auditing any honest map between any two of its states succeeds, and the audit callback is called once, in order, with index, key and value, for exactly those mutations examined that change the map's root, as documented. The leaf data callback is called for the value of every mutation that has one. When the map grows during the audit, or some answers come from replicas that are behind, the audit may fail, but still reports only effective mutations, once and in order.",
  ["histories", "inputs"], "every mutation sequence to the stated depth, every pair of audited states, every callback combination",
  NOTEST + "which mutations are effective depends on the entire history.",
  [V+"util_map_audit.go", V+"api_highlevel_map.go"],
  [("replay into an in-memory tree", V+"util_map_audit.go addMutationToTree"), ("comparison of successive roots", V+"util_map_audit.go ProcessUntilAtLeast")],
  check="core", technique=MC, note=ALLREPO)
p("A02", "Auditing detects every dishonest map",
  "A map audit succeeds only if every audited tree head log entry states the root obtained by replaying the mutation log prefix it names and that prefix's own log head. Every deviation of the server from that (a wrong root or head, an altered, dropped, repeated or reordered entry, a fork between requests, malformed data) makes the audit fail with an error, and never a crash or a hang.",
  ["inputs", "fault_sequences"], "every single deviation of a lying server at every response of the audit, from a menu of deviations",
  NOTEST + "every position and kind of lie must be tried.",
  [V+"util_map_audit.go", V+"api_highlevel_map.go", V+"api_highlevel_log.go", V+"util_json.go"],
  [("validation of each tree head entry", V+"util_map_audit.go CheckTreeHeadEntry"), ("validation of mutations", V+"util_json.go ValidateJSONLeafDataFromMutation")],
  check="core", technique="exhaustive enumeration of server deviations against the real client code", note=ALLREPO)
p("C01", "Verifying clients never accept a lie",
  "With a server that may answer anything, every tree head, entry, map value or map state that the verifying client calls return without error is consistent with the previously trusted state passed in, and proven by the hashes returned: values belong to the key under the given map head, heads extend the previous ones, supplied inclusion proofs hold. A server that forks, rolls back or alters history is answered with an error.",
  ["inputs", "fault_sequences"], "every single (thorough: double) deviation at every response of each client call, from a menu of field alterations, stale, forked and cross-object answers",
  NOTEST + "the lies are chosen by an adversary.",
  [V+"api_highlevel_log.go", V+"api_highlevel_map.go", V+"service_log_inclusion_proof.go", V+"service_log_consistency_proof.go", V+"service_map_get_value.go"],
  [("verification of every response", V+"api_highlevel_map.go VerifiedMapState"), ("verification of every response", V+"api_highlevel_log.go VerifiedTreeHead")],
  check="core", technique="exhaustive enumeration of server deviations against the real client code", note=ALLREPO)
p("C02", "No server response crashes or hangs a client",
  "Whatever well-typed responses or errors a server gives (missing, empty, short, long or inconsistent fields, extreme numbers, malformed embedded JSON), every client and auditor call, other than the helpers whose purpose is to poll until something has happened, returns with a result or an error in bounded time; it never panics or loops. The same holds for arbitrary bytes, statuses and headers received by the REST client, which never hands on anything but well-formed messages.",
  ["inputs", "fault_sequences"], "every response position of every client call with every element of a menu of malformed responses",
  NOTEST + "no test uses a hostile server.",
  [V+"api_highlevel_log.go", V+"api_highlevel_map.go", V+"util_map_audit.go", "server/httprest/client_http_rest.go"],
  [("checks before use", V+"api_highlevel_log.go VerifyEntries"), ("header parsing", "server/httprest/client_http_rest.go parseHeadersForProof")],
  check="net", technique="exhaustive enumeration of malformed responses against the real client code", note=ALLREPO)

# ---------------------------------------------------------------- service
p("S01", "Malformed requests are refused without effect; reads never write",
  "Every request with missing, unknown or out of range parts is answered with an error: it never panics, never ends the process, and changes no log or map; every well-formed request is served. Read requests never change any data, and a service without a mutator serves reads and refuses mutations with an error.",
  ["inputs", "histories"], "every combination of per-field alternatives (absent, empty, extreme, unknown) of every request type, on empty and non-empty objects",
  NOTEST + "none of them sends a malformed request.",
  [V+"service_log_add_entry.go", V+"service_map_set_value.go", V+"util_permissions.go", V+"service.go", "mutator/instant/mutator_instant.go"],
  [("validation before queueing", V+"service_map_set_value.go MapSetValue")],
  check="core", technique=MC, note=ALLREPO)
p("S02", "Logs and maps with different names, accounts or kinds are isolated",
  "No operation on one log or map (identified by account, name and whether it is a log or a map) changes or reveals anything of another, even when names and account ids are chosen adversarially (empty, prefixes, separators, swapped) and the same keys and entries are used in each. The mutation and tree head logs belong to their map only, and cannot be added to directly.",
  ["inputs", "histories"], "every pair of objects from a set of colliding-looking names, every operation applied to one, everything observable compared on the other; all of them together on three storage backends",
  NOTEST + "isolation is about all pairs of names.",
  [V+"util_service_data.go", V+"service_log_add_entry.go", "storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go"],
  [("namespace derived by object hash", V+"util_service_data.go logBucket"), ("one store per namespace", "storage/bolt/storage_bolt.go getOrCreateDB")],
  check="core", technique=MC, note=ALLREPO)
p("S03", "A storage failure is reported and leaves no partial effect",
  "If storage fails at any operation while a mutation is served over a transactional store, the mutation is answered with an error and the log or map is afterwards exactly as before (it is never acknowledged unless it took effect in full); retrying it when storage works again succeeds with the same result as if nothing had failed. (Over a store without transactions, such as the memory storage, a failed mutation does not show either, and succeeds when retried at once.) A read that hits a storage failure returns an error or the right answer, never wrong or empty data.",
  ["fault_sequences", "histories"], "every storage operation of every request, failing once, after every history prefix",
  NOTEST + "no test injects a storage fault.",
  [V+"insertion_log.go", V+"insertion_map.go", "mutator/instant/mutator_instant.go", V+"util_fetch_proofs.go", V+"service_map_tree_hash.go"],
  [("errors propagated out of the transaction", "mutator/instant/mutator_instant.go QueueMutation")],
  check="core", technique="exhaustive fault injection at every storage operation of the real code", level="fault_enumeration", note=ALLREPO)
p("S04", "Operations are allowed exactly as the access policy says",
  "Under a static policy an operation succeeds only if some rule of the account grants the permission that the operation needs on the kind of object it touches (or all permissions), for the caller's API key (or any key) and a name pattern matching the object; otherwise it is denied with a permission error and has no effect and reveals nothing. Reading a map's mutation entries needs its own permission, and no permission allows adding to a map's internal logs.",
  ["inputs", "configurations"], "every policy with one rule (and pairs of rules) over a small universe, times every operation, key, account and name",
  NOTEST + "the policy is a product of several matches.",
  ["oracle/policy/authorization_static.go", V+"util_permissions.go", V+"service_log_add_entry.go"],
  [("nested policy match with default deny", "oracle/policy/authorization_static.go VerifyAllowed"), ("permission per operation and log type", V+"util_permissions.go operationForLogType")],
  check="core", technique=MC, note=ALLREPO)
p("S05", "Callers with field filters never see redacted fields",
  "A caller whose rule allows only some fields gets JSON entries and map values with every other redactable field replaced by its hash, on every path that returns data (log entries, map values, mutation log entries, over every transport), and the redacted data still validates against the unchanged leaf input. Data that cannot be filtered is refused rather than returned, absent and deleted values are still served, and a caller with access to all fields gets the data as stored; of several rules that grant the read, the first decides.",
  ["inputs", "configurations"], "every filter over the fields of several JSON shapes, times every read path and every kind of value",
  NOTEST + "each read path filters separately.",
  [V+"util_permissions.go", V+"service_log_fetch_entries.go", V+"service_map_get_value.go"],
  [("field filtering", V+"util_permissions.go filterLeafData")],
  check="core", technique=MC, note=ALLREPO + "The redaction algorithm itself is the stand-in's.")

p("S06", "Answers to reads depend only on the data",
  "What a read of a log or map is answered depends only on the request and on the state of that log or map: not on which requests were answered before it, nor on which are being answered or written at the same time (a read beside a write sees the state before or after it). An answer that was given does not change afterwards, and a caller that reuses the memory of its requests and answers changes nothing for anyone.",
  ["inputs", "schedules", "histories"], "every pair of reads of a product of all read operations, in sequence and with the second at each policy and storage call of the first; every read beside every write likewise; every byte of every request and answer overwritten",
  NOTEST + "shared buffers and remembered answers only show between two requests.",
  [V+"service_log_fetch_entries.go", V+"service_map_get_value.go", V+"util_fetch_proofs.go", V+"service_map_tree_hash.go"],
  [("each request reads from storage anew", V+"util_fetch_proofs.go"), ("default hashes are shared, read only", V+"service_map_tree_hash.go")],
  check="core", technique=MC, note=ALLREPO + "The storage gives each transaction a snapshot, as the ones in the repository do.")

# ---------------------------------------------------------------- storage
p("D01", "All storage backends behave as the same transactional key-value store",
  "On every backend (memory, Bolt, Badger, PostgreSQL) a transaction reads its own writes and the last committed values, a missing key is reported as such and an empty value is not missing, storing nothing deletes, and namespaces are separate. On the persistent backends a failed update leaves no trace, and any other failure to read is an error and never reported as a missing key.",
  ["histories", "inputs", "fault_sequences"], "every sequence of get, set, set-empty and delete over two keys and two namespaces to the stated depth, in every grouping into committed and failed transactions, compared with a model",
  NOTEST + "no test exercises a backend.",
  ["storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "storage/postgres/storage-postgres.go"],
  [("transaction wrappers", "storage/bolt/storage_bolt.go ExecuteUpdate"), ("upsert and delete statements", "storage/postgres/storage-postgres.go Set")],
  check="store", technique=MC, note=ALLREPO)
p("D02", "What was acknowledged survives a crash",
  "On the persistent backends, when a mutation has been acknowledged by a synchronous service and the process or machine then crashes at any point, after reopening the storage the log or map contains every acknowledged mutation, is at one of the states it passed through, and works on.",
  ["crash_points", "histories"], "every crash point between file operations of a history, with unsynced writes lost in every enumerated pattern",
  NOTEST + "no test crashes anything.",
  ["storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "mutator/instant/mutator_instant.go"],
  [("one committed and synced transaction per mutation", "storage/bolt/storage_bolt.go ExecuteUpdate")],
  check="store", technique="exhaustive crash-point and lost-write enumeration on the real storage code", level="fault_enumeration", note=ALLREPO)
p("D03", "Closing and reopening storage preserves everything",
  "Closing a persistent storage and opening it again at any point of a history, once or repeatedly, changes nothing observable: all heads, entries, values and proofs are as before and further mutations continue from there. Using a storage for many namespaces at once, created in any order, keeps each one's data.",
  ["histories"], "every position of a close and reopen in every operation sequence to the stated depth",
  NOTEST + "no test reopens a store.",
  ["storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go"],
  [("lazy opening per namespace", "storage/bolt/storage_bolt.go getOrCreateDB"), ("closing all", "storage/bolt/storage_bolt.go Close")],
  check="store", technique=MC, note=ALLREPO)
p("D04", "Concurrent transactions are isolated",
  "On every backend, whatever the interleaving, a read transaction sees the effects of either all or none of each update, updates to a namespace happen one at a time without losing each other's effects, and concurrent first uses of a namespace share one store. No interleaving deadlocks, races on memory or crashes.",
  ["schedules"], "every interleaving, at lock and storage operations and up to the stated preemption bound, of small sets of transactions",
  NOTEST + "none of them is concurrent.",
  ["storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", "storage/postgres/storage-postgres.go"],
  [("lock around the store", "storage/memory/storage_memory.go ExecuteUpdate"), ("double-checked creation", "storage/bolt/storage_bolt.go getOrCreateDB")],
  check="conc", technique="systematic schedule exploration of the real code under a controlled scheduler", note=ALLREPO)

# ---------------------------------------------------------------- mutators and concurrency
p("B01", "The batch mutator applies every accepted mutation exactly once, in order",
  "Every mutation accepted by the batch mutator is eventually applied exactly once, as it was when accepted, to its own log or map and in the order accepted for that log or map, whatever the mix of logs and maps, batch size, buffer size, timing of the batch timeout and interleaving with readers. After it has drained, every log and map is what synchronous application gives.",
  ["schedules", "histories", "configurations"], "every sequence of mutations over several namespaces to the stated depth, times batch sizes, buffer sizes, and every choice of when timeouts and producers run",
  NOTEST + "none of them runs the batch mutator.",
  ["mutator/batch/mutator_batch.go"],
  [("single consumer goroutine", "mutator/batch/mutator_batch.go consume"), ("carry-over of the item that ends a batch", "mutator/batch/mutator_batch.go handleBatch")],
  check="conc", technique="systematic schedule exploration of the real code under a controlled scheduler", note=ALLREPO)
p("B02", "A batch becomes visible atomically or not at all",
  "Readers never observe a partially applied batch, and if storage fails or the process dies at any storage operation of a batch, what is stored is a state before or after a whole number of batches, from which reading and mutating work on. No mutation is applied twice or out of order because of it.",
  ["crash_points", "fault_sequences", "schedules"], "every storage operation of every batch of a history failing or being the last",
  NOTEST + "no test injects a fault.",
  ["mutator/batch/mutator_batch.go"],
  [("buffered writes flushed in one transaction together with the size", "mutator/batch/mutator_batch.go consume")],
  check="conc", technique="exhaustive fault and crash-point enumeration on the real code", level="fault_enumeration", note=ALLREPO)
p("B03", "Concurrent clients see one growing history",
  "With any interleaving of concurrent writers and readers over a synchronous service, acknowledged mutations take effect one at a time between request and acknowledgement, and every reader sees heads, entries and proofs of one single history that only grows and in which every answer is internally consistent. No interleaving loses an acknowledged mutation, deadlocks or races on memory.",
  ["schedules"], "every interleaving at storage operations and locks, up to the stated preemption bound, of small sets of client operations",
  NOTEST + "none of them is concurrent.",
  ["mutator/instant/mutator_instant.go", "storage/memory/storage_memory.go", V+"service_log_add_entry.go"],
  [("size read and written within one update transaction", "mutator/instant/mutator_instant.go QueueMutation")],
  check="conc", technique="systematic schedule exploration of the real code under a controlled scheduler", note=ALLREPO)

p("B04", "Waiting ends with what was awaited, and does end",
  "Waiting for an entry, for one's own addition or mutation (the promises of the client library), or for a map size returns a head that really contains it: the first one shown by the server that does. However slowly the log or map grows, however often the server shows the same head or lags behind, and whatever else is written at the same time through the asynchronous or the synchronous mutator, the wait ends once it is there; when the server fails, it ends with an error.",
  ["schedules", "histories"], "every sequence of a few sizes shown by a server for few or many polls; every interleaving, within a preemption bound, of clients that write and wait",
  NOTEST + "none of them waits for anything, and a wait of hours cannot be tested in real time.",
  [V+"api_highlevel_log.go", V+"api_highlevel_map.go", V+"api_highlevel_wrapper.go", "mutator/batch/mutator_batch.go"],
  [("polling until an entry is included", V+"api_highlevel_log.go BlockUntilPresent"), ("polling until a size is reached", V+"api_highlevel_map.go BlockUntilSize"), ("promises", V+"api_highlevel_wrapper.go Wait")],
  check="conc", technique="systematic schedule exploration of the real code under a controlled scheduler with virtual time", note=ALLREPO)

# ---------------------------------------------------------------- transports
p("T01", "The REST client and server together behave like the local service",
  "For every operation and argument, calling the service through the REST server and the REST client, whatever other requests are under way, gives the same result and effect as calling it directly, and the same kind of error (permission denied, invalid argument, not found), for all logs, maps and internal logs. Data of any bytes, including empty, survives unchanged, and credentials reach the access policy unchanged. What a URL or header cannot express (an empty name or key, a negative number, control characters in an API key) is refused with an error before it can reach another object.",
  ["inputs"], "the product of operations and per-argument alternatives, each executed directly and over REST",
  NOTEST + "no test compares the transports.",
  ["server/httprest/client_http_rest.go", "server/httprest/server_http_handler.go"],
  [("route table", "server/httprest/server_http_handler.go CreateRESTHandler"), ("request mapping", "server/httprest/client_http_rest.go makeLogRequest")],
  check="net", technique=MC, note=ALLREPO)
p("T02", "The gRPC client and server together behave like the local service",
  "For every operation and argument, calling the service through the gRPC server and the gRPC client, whatever other requests are under way, gives the same result and effect as calling it directly and the same status code, for all logs, maps and internal logs. Data of any bytes, including empty, survives unchanged, and credentials reach the access policy unchanged (strings are UTF-8 and messages under 4 MB). With TLS, the client sends its requests only to a server whose certificate it has been given reason to trust.",
  ["inputs"], "the product of operations and per-argument alternatives, each executed directly and over gRPC, and of server and client certificate configurations",
  NOTEST + "no test compares the transports.",
  ["server/grpc/client_grpc.go", "server/grpc/server_grpc.go", "pb/api.pb.go"],
  [("delegation to the generated client", "server/grpc/client_grpc.go")],
  check="net", technique=MC, note=ALLREPO)
p("T03", "Every documented REST endpoint and format does what the document says",
  "Every endpoint of the REST API document, in each of its formats (raw, JSON object hash, redactable JSON, extra data) and each way of naming a key (string or hexadecimal) and size (number or head), acts on the object named in the URL and answers with the documented status, body and headers, whatever other requests are being served. Data stored through one format is served consistently through the others, JSON posted to the server gets the leaf input under which the library validates it, and malformed URLs, headers and bodies get an error status and have no effect.",
  ["inputs"], "the product of documented endpoints, formats, key and size spellings and bodies",
  NOTEST + "no test goes through the HTTP routes.",
  ["server/httprest/server_http_handler.go", "doc/REST-API.md"],
  [("route table", "server/httprest/server_http_handler.go CreateRESTHandler")],
  check="net", technique=MC, note=ALLREPO)

p("V01", "The server program serves exactly what its configuration says",
  "For every configuration file, the server program listens for REST and gRPC exactly where the file says, encrypted with the configured certificate unless the file says insecure, and allows exactly what the policy in the file allows, over both protocols alike. What is added over one protocol is seen over the other, and everything acknowledged is still there, unchanged, after the program is killed and started again. If the file is malformed, or an address or certificate can't be used, the program ends with an error rather than serve less, or less safely, than configured.",
  ["inputs", "crash_points"], "the product of configuration alternatives, every policy of a menu times every operation, and every acknowledgement of every short history as the point of death",
  NOTEST + "no test runs the program.",
  ["cmd/vdbserver/vdbserver-main.go", "server/httprest/server_http_rest.go", "server/grpc/server_grpc.go"],
  [("start up", "cmd/vdbserver/vdbserver-main.go realMode"), ("listening", "server/httprest/server_http_rest.go StartServer")],
  check="server", technique="exhaustive enumeration of configurations, requests and kill points on the real program", level="fault_enumeration", note=ALLREPO)

# ---------------------------------------------------------------- data formats and primitives
p("W01", "The browser client never accepts a lie",
  "Whatever a server answers, every tree head, entry, map value or map state that a verifying call of the served JavaScript client hands to its success callback is consistent with the previously trusted state passed in and proven by it, as with the Go client; a server that forks, rolls back or alters history leads to the failure callback. Its proof verifiers accept exactly the proofs that the library's verifiers accept, up to the largest sizes JavaScript represents exactly, and throw for all others, including any number or value that JSON can express.",
  ["inputs", "fault_sequences"], "every single deviation (and sets of them) at every response of each verifying call, from a menu of field and JSON alterations, stale, forked and cross-object answers; every deviation of honest proofs",
  "No test runs the JavaScript. " + "The lies are chosen by an adversary, and JavaScript's numbers, strings and coercions add cases of their own.",
  ["assets/static/continusec.js"],
  [("verified heads", "assets/static/continusec.js VerifiableLog.prototype.getVerifiedTreeHead"), ("proof verifiers", "assets/static/continusec.js LogInclusionProof.prototype.verify"), ("entries", "assets/static/continusec.js secondStageVerifyEntries")],
  check="core", technique="exhaustive enumeration of server behaviours and proofs against the real client code, run in node, compared with reference verifiers", note=ALLREPO + WEB)
p("W02", "The browser client and the REST server understand each other",
  "Every call of the served JavaScript client reaches the service as exactly the request it stands for (object, account, API key, sizes, keys and values), once, or not at all if a URL cannot express it, and ends in its success callback with what the service answered or in its failure callback with the kind of error the service gave. This holds from the page's own and from another origin. On an honest server every verifying call succeeds for every pair of sizes, and waiting calls end once what they wait for has come.",
  ["inputs", "configurations"], "every single-request call with every argument of a menu, names, accounts and API keys of awkward characters, every error; every verifying call at every pair of sizes of each kind of log; every pace of arrivals",
  "No test runs the JavaScript or the REST server. " + "Each combination of call, size, format and emptiness exercises another encoding.",
  ["assets/static/continusec.js", "server/httprest/server_http_handler.go"],
  [("requests", "assets/static/continusec.js ContinusecClient.prototype.makeRequest"), ("waiting", "assets/static/continusec.js doBlockRound")],
  check="net", technique="exhaustive enumeration of calls, arguments and service states on the real client (in node) and server, compared with direct calls of the service", note=ALLREPO + WEB)
p("W03", "Every call of the browser client ends in exactly one callback",
  "Whatever a server answers (any status, body or headers, or nothing), every call of the served JavaScript client ends in exactly one call of its success or failure callback after finitely many requests; it never throws, hangs or ends silently. Only calls whose purpose is to wait may go on waiting, without flooding the server.",
  ["inputs", "fault_sequences"], "every response position of every call with every status, malformed header, truncation, and every JSON node replaced by every value of a menu",
  "No test runs the JavaScript. " + "Errors are thrown in callbacks, where only hostile answers lead.",
  ["assets/static/continusec.js"],
  [("handling of answers", "assets/static/continusec.js ContinusecClient.prototype.makeRequest")],
  check="net", technique="exhaustive enumeration of malformed responses against the real client code, run in node", note=ALLREPO + WEB)
p("W04", "The browser client hashes and sheds JSON as the library does",
  "For every JSON document, however it is spelled and whichever of its redactable fields are redacted, the served JavaScript client computes the leaf hash that the library gives the document, and sheds redacted fields to the document the library gives. Documents that the library refuses, such as malformed ones or ones with numbers out of range, it refuses too.",
  ["inputs"], "every document of a grammar in every spelling, every set of redacted fields, doubles around every power of two, every character of the basic plane",
  "No test runs the JavaScript. " + "Agreement of two implementations is a statement about all documents.",
  ["assets/static/continusec.js", V+"util_json.go"],
  [("object hash", "assets/static/continusec.js objectHashWithRedaction"), ("shedding", "assets/static/continusec.js shedRedacted")],
  check="core", technique="exhaustive enumeration of documents on the real client code (in node) and the library, compared with each other", note=ALLREPO + WEB + "The library's object hash is the stand-in's.")
p("J01", "JSON leaf data is created, redacted and validated consistently",
  "For every JSON document, leaf data created from it validates, validation fails after any change to the document's content or to the leaf input, and equal documents (whatever their spacing or key order) give equal leaf inputs. Redactable leaf data also validates after any set of its fields is redacted, and shedding gives back the original document without the redacted fields.",
  ["inputs"], "every JSON document built from a grammar to the stated depth, times every set of redacted fields and every single content change",
  NOTEST + "no test covers the JSON helpers.",
  [V+"util_json.go"],
  [("object hash of the document", V+"util_json.go CreateJSONLeafData"), ("validation", V+"util_json.go ValidateJSONLeafData")],
  check="core", technique=MC, note=ALLREPO + "The object hash itself is the stand-in's.")
p("P01", "Bit paths form a faithful algebra of bit strings",
  "Bit paths behave as the sequences of bits they stand for: length, indexing, slicing and joining agree with the same operations on bit sequences for all lengths and offsets, different sequences have different encodings, and the path of a key is the bits of its SHA-256 hash, most significant first, as everywhere else in the library.",
  ["inputs"], "every bit string up to the stated length with every slice and join, and every length up to 256 with structured contents",
  "The existing tests check a few joins, slices and one key; alignment errors depend on length and offset modulo eight.",
  [V+"util_path.go", "merkle/util_merkle.go"],
  [("packed representation", V+"util_path.go BPathJoin")],
  check="core", technique=MC, note=ALLREPO)
p("P02", "Merkle primitives agree with RFC 6962 for all sizes",
  "The exported primitives (leaf and node hashes, default map leaves, powers of two, audit path ranges, consistency proof ranges, key paths) agree with the RFC 6962 definitions for every size and index, up to the largest representable sizes, and terminate.",
  ["inputs"], "every size and index up to the stated bound, and all sizes within a small distance of every power of two up to 2^63-1",
  NOTEST + "the functions are recursive in the bit structure of their arguments.",
  ["merkle/util_merkle.go"],
  [("definitions", "merkle/util_merkle.go Path")],
  check="core", technique=MC, note=ALLREPO)
