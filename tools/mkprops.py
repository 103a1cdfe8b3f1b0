import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["public API"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A store shared by several clients behaves as one map of dotted keys",
 "For every interleaving of Set, SetEx, SetNode, Update, SetEmpty, Merge, Remove, Has, Get, GetEx, SetComment and SetTag calls issued by several clients of one store, each call returns what a plain map from full dotted key to (value, description, comment, tag) would return, and enumerating the store (GetM, GetR, Walk) afterwards yields exactly that map. Writing, removing or annotating one key never changes, hides or revives another one, whether the keys share leading characters, nest below each other or are unicode. Removing a key removes that key and the keys below it and nothing else. The callbacks of SetEx, Update, GetEx and Walk may themselves read, set and remove keys.",
 ["histories","schedules","inputs"],
 "all histories of operations of several clients over key sets that force every kind of node split, prefix, nesting and re-creation",
 "Tests insert a dozen fixed keys once, in one order, from one goroutine and compare a dump; the property quantifies over operation histories, insertion orders and key shapes.",
 ["radix/node.go","radix/trie.go","radix/cvter.go","store.go"],
 [("radix insertion with node splitting","radix/node.go insertInternal/split/insertAsLeaf"),("lookup and whole-key matching","radix/node.go matchR, radix/trie.go matched/search/Query"),("removal that keeps siblings","radix/node.go detach/remove, radix/trie.go RemoveEx"),("enumeration","radix/cvter.go GetM/GetR, radix/trie.go Walk")],
 [("root","the radix tree shared by all views","radix/trie.go trieS")])

p("C02","Prefixed views share one tree, and duplicates are fully isolated from it",
 "Whatever the nesting of WithPrefix, WithPrefixReplaced, SetPrefix and mode clones, an operation on key k through a view with prefix p has the same effect and result as the operation on p.k on the owner store, and every view sees it at once; only a view in the recursive-up mode (BR) goes on to look for a missing key's last piece at each parent in turn, from the nearest one up. A store made by Dup or Clone holds the same keys, values, descriptions, comments and tags as the original at that moment; from then on writes, removals, merges and TTL expiries on one of them never show up in the other. Creating views or copies has no effect on any store and leaves nothing running behind.",
 ["histories","schedules"],
 "all interleavings of operations on a store, its views and its copies made at arbitrary moments",
 "Tests read a few keys through one view of a static store; the property needs histories in which views and copies are created and mutated in the middle of other work, including pending TTLs.",
 ["radix/load.go","radix/trie.go","radix/node.go","store.go"],
 [("sharing the root between views","radix/trie.go dupS"),("prefix joining with pooled buffers","radix/trie.go Join/join1/UsePool, store.go join"),("deep copy","radix/node.go Dup"),("view parent chain","store.go viewS/dupS")])

p("C03","A leaf TTL clears exactly its key, never early, exactly once",
 "After SetTTL (or SetTTLFast, Node.SetTTL) with duration d on a key, the value stays as written until d has passed, and once d has passed and the system is idle the value (and tag) of that key is empty while the key itself still exists. The callback, if any, runs exactly once per accepted call, not before d, before the value is cleared and with the old value still readable. No other key is touched, whatever keys were added, removed, split or overwritten around it meanwhile; a key that was removed and created again is not affected by the older TTL. A callback may use the store, and one that takes long delays no other TTL.",
 ["schedules","histories"],
 "all schedules of client, TTL service and timer goroutines, all TTL durations, timer delays and stalls, all tree restructurings while TTLs are pending",
 "Tests sleep a few real milliseconds for one or two keys and cannot choose the order of timer, service and client steps.",
 ["radix/trie.go","radix/node.go","store.go"],
 [("TTL service goroutine and per-job timer","radix/trie.go TTL.run/Add"),("node identity kept while splitting","radix/node.go split"),("clearing","radix/node.go SetEmpty")],
 [("ttls","TTL service of a tree","radix/trie.go trieS.ttls")])

p("C04","A branch TTL drops exactly that branch when it expires",
 "After SetTTL on a branch (an inner dotted path), every key below it stays readable until the duration has passed, and once it has passed and the system is idle no key below that branch exists while every other key is unchanged, including keys that only share leading characters with it. The callback runs exactly once and before the drop. This holds for views with a prefix, for keys added to the branch after SetTTL, and for several TTLs pending on nested branches and leaves; a branch that was removed before its TTL rang causes nothing to be dropped.",
 ["schedules","histories"],
 "all schedules and timer orders, all histories of writes and removals inside and around the branch while the TTL is pending",
 "No test sets a branch TTL through a view or changes the tree while one is pending.",
 ["radix/trie.go","radix/node.go"],
 [("branch expiry","radix/trie.go TTL.run, drop"),("node identity across restructuring","radix/node.go split/detach")])

p("C05","Close stops all background work of a store within bounded steps",
 "Once Close of a store (or view) has returned, no TTL set through it that was not yet due rings or runs its callback, every watcher that a Load on it started before has been closed exactly once (unless another Close of it is still in progress), and every goroutine it started ends within a bounded number of steps. Close never blocks for ever, whatever SetTTL calls, expiries, loads or other Close calls run at the same time, and calling it again is harmless. SetTTL racing with or following Close never hangs.",
 ["schedules","fault_sequences"],
 "all interleavings of Close with SetTTL, expiry, Load, watch events and other Close calls",
 "Tests call Close once at the end of a quiet program.",
 ["store.go","load.go","radix/trie.go"],
 [("closing","store.go Close, radix/trie.go trieS.Close/TTL.Close"),("done channel and adder select","radix/trie.go TTL.Add/run"),("closers list","load.go startWatch")],
 [("closers","watchers to close","store.go storeS.closers")])

p("C06","A failing Load reports its error, changes nothing and can be repeated",
 "If the provider or the codec of a Load fails in any way (read error, truncated or corrupted bytes, failing decoder, failing key listing), Load returns a non-nil error and no handle, the store's contents are exactly what they were before, and no watcher is left running. If Load returns a handle and no error, everything the source delivered is in the store. After any number of failed loads the store still accepts writes, tracks modifications normally and can Load again.",
 ["fault_sequences","inputs","histories"],
 "all sequences of loads against sources that fail or corrupt data at any point, interleaved with ordinary operations",
 "Tests load well-formed fixture files only.",
 ["load.go","providers/file/file.go","providers/fs/fs.go"],
 [("load gate and error path","load.go Load"),("decode before merge","load.go tryLoad")],
 [("loading","a load is in progress","store.go storeS.loading")])

p("C07","Load delivers exactly the source's data, independent of iteration order",
 "After a successful Load the store contains, at the store prefix the load asked for, exactly the keys, values, descriptions, comments and tags the provider delivered (nested maps become dotted keys, slices stay one value or become indexed keys as configured), on top of what was there before with the loaded value winning, and nothing else has changed. The result does not depend on map iteration order, and loading the same source again changes nothing. Loaded keys are not marked as modified.",
 ["inputs","schedules","configurations"],
 "all nested source data, prefixes, providers (map, stream, bytes with codec, maps, env, flags, fs, file) and map iteration orders, over stores with arbitrary contents",
 "Go randomises map iteration, so a test sees one order per run, over fixed fixture files and an empty store.",
 ["load.go","providers/maps/maps.go","providers/env/env.go","providers/flags/flags.go","providers/fs/fs.go","providers/file/file.go","internal/cvt/cvt.go"],
 [("recursive map merge","load.go loadMap/loadMapByValueType/loadMapDedicated"),("stream loading","load.go tryLoad")])

p("C08","Write-back saves exactly the user's changes and survives a restart",
 "Save on a load handle hands the provider exactly the keys under the load's prefix that the user wrote through Set or Merge (not a load, also not while a load is in progress) since the store was created, with their latest values, and hands it nothing when there are none; SaveAs hands all keys under that prefix to the provider given; any error of the codec or of the write is returned, and a later Save still carries all those changes. For every bundled codec that can write (json, yaml, toml, hjson, nestedtext, gob), what a successful Save wrote, loaded by a new process, gives back the same keys and values. Views, nested loads, failed loads and goroutines writing, removing, loading or saving at the same time never cause a user's write that returned before to be forgotten or a loaded key to be written back.",
 ["histories","fault_sequences","crash_points"],
 "all histories of loads, writes, failing and successful saves, crashes and restarts, for each codec",
 "Tests save once, without faults, and do not restart from what was saved.",
 ["load.go","store.go","radix/cvter.go","codecs/gob/gob.go","codecs/json/json.go","codecs/yaml/yaml.go","codecs/toml/toml.go","codecs/hjson/hjson.go","codecs/nestext/nestext.go"],
 [("modified flag","store.go setKV, radix/node.go SetModified"),("filtered export and nesting","load.go trySave, radix/cvter.go GetM/splitCompactKeys"),("codecs","codecs/*")])

p("C09","Watched changes are applied exactly once, in order, until closed",
 "While a watchable provider is loaded with watching enabled, each delivered create or write event sets exactly its keys to the delivered values and each remove event removes exactly its keys (and what is below them, as Remove does), under the prefix of that load, in delivery order and before the provider's callback returns; error events and unknown events change nothing and do not stop later events. After Close the provider has been told to close exactly once. With watching disabled (on the store or for the load) nothing is watched.",
 ["schedules","fault_sequences","histories"],
 "all sequences of events and errors from several providers, interleaved with client operations, loads and Close",
 "No test delivers a watch event to a store.",
 ["load.go","store.go"],
 [("event application","load.go applyExternalChanges/applyChanges"),("watch start","load.go startWatch")])

p("C10","Every change notifies each handler exactly once with the right values",
 "For every key set on a store (Set, Merge, Load, watch events, also through prefixed views), each registered handler of the right kind runs exactly once, after the key was stored, with the full key: the new-key handlers with the value when the key did not exist, otherwise the change handlers with the new and the previous value. Each successful Remove runs each delete handler once with the path and old value, and an unsuccessful one runs none. This also holds while several goroutines set and remove the same keys at once: what the handlers were told of a key (created, changed from one value to another, removed with its value) is a history it really had. The flag tells merges and loads from single sets; the SetEx callback runs exactly once with the previous value. A handler may itself read and set keys.",
 ["histories","schedules","configurations"],
 "all interleavings of sets, removals, merges and loads over stores, views and handler sets",
 "Tests register handlers and log; they never count calls or compare arguments over a history.",
 ["store.go","load.go","radix/node.go"],
 [("notification","store.go setKV/tryOnSet/tryOnDelete/eventPath"),("SetEx callback","radix/node.go insertInternal")])

p("C11","Concurrent reads, overwrites and expiries of existing keys are linearizable",
 "While the set of keys does not change, any number of goroutines may concurrently get keys (Get, MustGet, Has, typed getters, GetEx, GetM, Dump, views) and overwrite existing keys (Set, Node.SetData, Node.SetEmpty) while leaf TTLs expire: every read of one key returns the result of some order of those writes consistent with real time, and Set returns the value it replaced in that order. No read ever returns a value of another key or one never written, and no operation panics, deadlocks or fails to return.",
 ["schedules"],
 "all statement-level interleavings of readers, overwriting writers and expiring TTLs on a fixed key set",
 "The tests are single-threaded apart from TTL timers; goroutine interleavings inside an operation are never controlled.",
 ["radix/node.go","radix/trie.go","store.go"],
 [("per-node lock","radix/node.go lockFor/readLockFor"),("pooled match contexts and buffers","radix/trie.go matchCtxPool/prefixJointPool, store.go prefixJointPool")])

p("C12","A store watching etcd converges to the keys and values held by etcd",
 "A store loaded from an etcd prefix (or single key) with watching enabled equals, once no more changes happen and all watch messages were delivered, what etcd holds there (no key being an ancestor of another once mapped), for every history of puts and deletes including those between the initial read and the start of the watch, batched or delayed; until then it always holds a state etcd had, and never goes back to an older one. A load whose request fails, or is not answered within the dial timeout, returns an error and changes nothing. Keys appear with the configured prefix stripping, prepending and delimiter; keys outside the prefix and the store's other keys are never touched. Watch errors, a closed watch channel, cancellation or Close end or skip cleanly, without spinning, blocking or panicking, and after Close or cancellation nothing is applied any more.",
 ["schedules","fault_sequences","histories"],
 "all histories of etcd writes and all schedules of read, watch start, delivery, errors, cancellation and Close",
 "The etcd tests need a live server and are skipped.",
 ["providers/etcd/etcd.go","providers/etcd/change.go","load.go"],
 [("read revision and watch from it","providers/etcd/etcd.go Read/Watch"),("event mapping","providers/etcd/change.go")],
 None,["store contents","simulated etcd"])

p("C13","A store watching consul converges to the keys and values held by consul",
 "A store loaded from a consul prefix (or single key) with watching enabled equals, once changes stop and requests succeed again, what consul holds there (no key being an ancestor of another once mapped), for every history of puts and deletes, however many of them one long-poll answer merges and whatever requests fail, time out or are retried in between; a load whose request fails returns an error and changes nothing. Keys appear with the configured prefix stripping, prepending and delimiter; keys outside the prefix and the store's other keys are never touched. After Close nothing is applied any more and the watch ends in bounded steps.",
 ["schedules","fault_sequences","histories"],
 "all histories of consul writes, all long-poll coalescings, request failures and retries, all schedules of Close",
 "The consul tests need a live server and are skipped.",
 ["providers/consul/consul.go","providers/consul/change.go","load.go"],
 [("snapshot diff","providers/consul/change.go diff"),("watch plan","providers/consul/consul.go Watch")],
 None,["store contents","simulated consul HTTP server"])

p("C14","The file provider reports every disk fault and its watch always ends",
 "Loading through the file provider returns an error whenever the file could not be fully read, otherwise exactly the file's bytes are decoded. Saving through it returns an error whenever not all bytes reached the file, is refused with an error and without touching the file when write-back is not enabled, and after a failed save a later successful one leaves exactly the complete new contents. The watch reports each create or write of the watched file, also through a symlink in the same directory that is changed meanwhile, exactly once (identical events within 5 ms may be merged), reports a watch error or the file's removal once and then ends, ignores other files, and calls back nothing more after removal, an error, cancellation or Close; it then ends within bounded steps and releases the OS watch. A later load, even an immediate one, can watch again.",
 ["fault_sequences","schedules"],
 "all sequences of open, read and write faults (errors, short writes, full disk), file events, watch errors, cancellation and Close",
 "Tests read and write healthy files and never inject faults into the watch.",
 ["providers/file/file.go","providers/file/change.go","load.go"],
 [("file reading and writing","providers/file/file.go ReadBytes/Write"),("watch loop","providers/file/file.go Watch/watchRunner/Close")],
 None,["simulated disk","simulated fsnotify"])

p("C15","Goroutines changing and reading keys at once never lose or invent a key",
 "Any number of goroutines may concurrently add, overwrite, merge, load, remove, annotate and read keys through a store and its views while a watched source delivers changes and removals. The history of each key is that of a register consistent with real time: a key which was set and not removed since is found with its latest value, a removed key (alone or with the branch above it) is gone, Set returns the value it replaced (nil for a new key), and Remove tells whether there was something to remove. No key loses or swaps its value because another key was added or removed next to it. GetM, GetR, Walk and Dup running at the same time contain each key that exists throughout them with a value it had meanwhile and nothing that was never written; once all is quiet they agree with Get. A branch TTL expiring meanwhile drops that branch and nothing else. No operation panics, deadlocks or fails to return.",
 ["schedules","histories"],
 "all statement-level interleavings of structural writers, readers, loads and watch events on keys sharing prefixes",
 "The tests change the tree from one goroutine only.",
 ["radix/trie.go","radix/node.go","store.go","load.go"],
 [("splitting, appending and removing nodes","radix/node.go split/insertAsLeaf/remove/detach"),("lookups","radix/trie.go search, radix/node.go matchR"),("watch events","load.go applyChanges")])

# not applicable
p("C20","Typed getters convert stored values losslessly or report an error",
 "For every stored value and every typed getter (GetInt.., GetUint.., GetFloat.., GetBool, GetDuration, GetTime, GetKibiBytes, slices and maps of those), the getter returns the value converted to the asked type, or the given default, or an error; it never panics or returns a silently truncated value.",
 ["inputs"],"all stored values and getters","Tests try a few values per getter.",
 ["radix/cvter.go","internal/times/dur.go"],[("conversion","radix/cvter.go")])
p("C21","Codecs parse what they print",
 "For every map representable in a format, decoding what the codec encoded gives the same map, and malformed input gives an error.",
 ["inputs"],"all representable maps and all byte strings","Tests use fixture files.",
 ["codecs/json/json.go","codecs/yaml/yaml.go","codecs/toml/toml.go","codecs/hjson/hjson.go","codecs/hcl/hcl.go","codecs/nestext/nestext.go"],[("codec","codecs/*")])
p("C22","Route patterns bind parameters to exactly the matching path segments",
 "Querying a path against stored patterns with :name segments or a trailing *name finds the pattern exactly when its literal segments match, and the returned pairs hold the corresponding path segments.",
 ["inputs"],"all pattern sets and paths","Tests query a fixed pattern set.",
 ["radix/node.go"],[("pattern matching","radix/node.go matchR/extractor")])
p("C23","Extracting a section into a struct fills the fields from the right keys",
 "For every struct type with fields matching the keys below a path, To and GetSectionFrom set each field to the converted value at its key and leave the others alone.",
 ["inputs"],"all struct types and stored subtrees","Tests use a few structs.",
 ["radix/cvter.go"],[("section extraction","radix/cvter.go To/GetSectionFrom")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
