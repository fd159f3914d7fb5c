#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable).
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
MEM, BOLT, BMD, RED = "provider.go", "provider/bolt/provider.go", "provider/bolt/metadata.go", "provider/redis/provider.go"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe), hook_needed=hook)))

ALLP = [MEM, BOLT, BMD, RED, "provider/redis/metadata.go"]
TOK = [("tokens", "live sessions by access token", "provider.go MemoryProvider.tokens; bolt bucket 'metadata'; redis hash per access token"),
       ("ids", "access tokens of one user id", "provider.go MemoryProvider.ids; bolt bucket 'ids'; redis key pattern id.*"),
       ("lru", "sessions in order of creation/refresh", "provider.go MemoryProvider.lru; bolt bucket 'lru'")]
API = ["Provider.Check/Get/Keys/Put/Delete/Refresh results", "Manager and Session methods built on them"]

prop("C01", "An access token is honoured exactly while its session is live",
 "On every storage back end (memory, bolt, redis) every operation honours an access token exactly from the successful create or refresh that issued it until that session is refreshed to a new token, destroyed, evicted for capacity or expired. Any other well-formed string - a token never issued, an access token already replaced, a refresh token, another session's token with one character changed - is answered with 'token not exists' by Check, Get, Keys, Put, Delete and Refresh alike, and a string that is not a token with 'token invalid'. All operations agree on the status of a token at any moment.",
 ["histories", "inputs", "configurations"], "every sequence of provider operations over every token string, for each back end and each choice of lifetimes, capacity, batch and sweep settings",
 "The tests walk one create/expire/refresh line with one or two tokens per back end (none at all for redis); they never look at tokens that were rotated away, evicted or belong to other sessions after each of the other operations.",
 ALLP, [("MemoryProvider.unsafeGet / Check / Get / Keys", MEM), ("Provider.unsafeCheck, getMetadata", BOLT), ("Provider.getMetadata", RED)], TOK, API)
prop("C02", "Access and refresh lifetimes are exact",
 "A session created or last refreshed at time t is usable while now < t + access lifetime, is answered with 'token expired' from then on while now < t + refresh lifetime, and with 'token not exists' from then on for ever; these boundaries are the same for every operation and every back end. Only a successful refresh moves the boundaries; reading, writing, failed refreshes and background cleaning never lengthen or shorten them, and a session in its expired-but-refreshable window can still be refreshed.",
 ["histories", "inputs", "configurations"], "every pair of lifetimes (including equal, sub-second-fraction and zero ones), every instant relative to the deadlines (including the exact boundary) and every history of operations before it",
 "The tests sleep once past each boundary with one pair of lifetimes; they cannot hit the exact instant, do not interleave other operations, and never run redis, whose server-side expiry must agree with the stored deadlines.",
 ALLP, [("tokenValue.IsExpired/IsDeleted/Refresh", MEM), ("_Metadata.IsExpired/IsDeleted/DoRefresh", BMD), ("_Metadata.*, ExpireAt on the hash", RED)],
 [("accessDeadline/refreshDeadline", "the two deadlines of a session", "tokenValue, bolt and redis _Metadata")], API)
prop("C03", "Refresh rotates both tokens once and carries the session over",
 "A refresh succeeds only for an existing session whose current refresh token is presented together with its current access token, all four tokens belonging to the same user id; it atomically makes the old access and old refresh token worthless, makes the new pair the only valid one and restarts both lifetimes. The session keeps its user id and every stored key and value. A refresh token therefore works at most once, also when two clients present it at the same time.",
 ["histories", "schedules", "inputs"], "every history of creates, writes, refreshes, destroys and expiries, every pairing of access and refresh tokens (of other sessions, other ids, older generations), and every interleaving of concurrent refreshes",
 "One test refreshes once and then repeats the same call; nothing checks data, id membership, older generations, foreign refresh tokens, concurrent refreshes, or redis at all.",
 ALLP + ["manager.go"], [("MemoryProvider.Refresh", MEM), ("Provider.Refresh (one bolt transaction)", BOLT), ("Provider.Refresh (optimistic redis transaction)", RED)], TOK, API)
prop("C04", "A refused operation changes nothing",
 "An operation that returns an error (invalid, unknown or expired token, id mismatch, wrong refresh token, rejected key, value that cannot be encoded, failed storage write, closed provider) leaves every session, token, deadline, stored value and capacity slot as it was. In particular a multi-key Put or a Create with initial values is all or nothing, and a refused Refresh neither registers the proposed tokens nor harms the session they were meant for.",
 ["histories", "inputs", "fault_sequences"], "every operation in every state in which it must be refused, for each reason of refusal and each position of the offending element in multi-element arguments, including failing storage writes",
 "The tests only look at the error value of a refused call, never at the rest of the store afterwards, and provoke only three of the reasons.",
 ALLP + ["manager.go", "session.go"], [("checks before mutation under one lock", MEM), ("error return rolls the bolt transaction back", BOLT), ("MULTI/EXEC issued only after all checks", RED), ("encode all pairs before calling the provider", "manager.go Create, session.go Put")], TOK, API)
prop("C05", "Session data reads back exactly what was last written to that session",
 "For a usable session, Get returns for every requested key, in request order, the value of the last successful Put (or initial pair) not followed by a Delete of that key, and reports exactly the other keys as missing; Keys lists exactly the stored keys, once each, and nothing the caller did not store. Writes and deletes affect only the named keys of that one session, whatever other sessions, even of the same user id, do.",
 ["histories", "inputs"], "every history of puts, gets, key listings, deletes and refreshes over any number of sessions and any keys and values (empty, nil, binary, large, prefixes of each other, duplicates inside one call)",
 "The tests put and read back one key on one session; redis has no test.",
 ALLP, [("tokenValue.SetCopy/CopyKeys/data", MEM), ("putData/getData/getKeys/deleteKeys", BMD), ("HSET/HMGET/HKEYS/HDEL on the session hash", RED)],
 [("data", "key/value pairs of a session", "tokenValue.data; bolt bucket data/<token>; fields of the redis hash")], ["Provider.Get/Keys", "Session.Get/Keys"])
prop("C06", "Destroy removes exactly the addressed sessions",
 "Destroying a user id ends every session of exactly that id - whatever refreshes, evictions and expiries happened before - and no session of any other id, however similar the ids look or whatever characters they contain; destroying by token ends exactly the session holding that access token; clearing a bolt store ends all its sessions. Destroying what does not exist succeeds and changes nothing, and a destroyed session never becomes usable again.",
 ["histories", "inputs", "schedules"], "every history before the destroy, every set of ids (prefixes of one another, pattern characters, empty) and any number of sessions per id, and every interleaving with concurrent writes and refreshes of the same session",
 "No test destroys anything.",
 ALLP + ["manager.go"], [("MemoryProvider.Destroy/DestroyByToken over the ids index", MEM), ("unsafeDestroy/deleteTokens/Clear", BOLT), ("deleteIDS/appendIDS", BMD), ("KEYS pattern + DEL", RED)], TOK, API)
prop("C07", "Capacity bound with oldest-first eviction",
 "With a maximum size N configured (memory, bolt) the provider never has more than N live sessions; a create that would exceed N ends exactly one session, the one least recently created or refreshed, and nothing else does. Sessions are never evicted while fewer than N are live, whatever was destroyed, refreshed, expired or re-created before, and without a maximum size nothing is ever evicted. (A bolt store opened again with N below the number of sessions it already holds is outside this statement.)",
 ["histories", "configurations"], "every N and every history mixing creates, re-creates of an existing token, refreshes, destroys, expiries and reopenings",
 "The tests create tokens one after the other with N=3 and only look at how many remain; refreshes, destroys, expiry and re-creation between the creates are never mixed in.",
 [MEM, BOLT, BMD], [("lru list, PushBack on create/refresh, Front on eviction", MEM), ("lru bucket ordered by sequence, count key", BOLT + ", " + BMD)], TOK + [("count", "number of stored sessions", "bolt key 'count'")], API)
prop("C08", "Dead sessions are reclaimed, live ones never",
 "Once a session is destroyed, evicted, refreshed away or past its refresh lifetime, its storage is given back: immediately, when an operation stumbles on it, or at the latest with the next periodic sweep, so that a provider whose sessions are all gone holds no more than a new one. Background cleaning never removes a session that is still within its refresh lifetime, including one created or refreshed while the cleaning of an older holder of the same token was already under way.",
 ["histories", "schedules", "configurations"], "every history of sessions dying in any order, every sweep interval and batch size, and every interleaving of the background cleaners with client operations",
 "The tests count one expired session once; they never reuse a token while a deletion is queued and never look at the per-id index or at what is left over.",
 ALLP, [("check/clear goroutines, unsafeCheck, unsafeClear", MEM), ("doCheck, doClear", BOLT), ("delete goroutine, key expiry", RED)], TOK + [("ch", "queue of tokens suspected dead", "all providers")], ["storage contents after the provider is idle", "status of live tokens"])
prop("C09", "Close is final and clean",
 "Close succeeds exactly once; from then on, and not before, every operation, including a second Close, is answered with 'provider already closed', has no effect and returns promptly; no fault of the back end and no cancelled context makes an open provider say so. Operations in flight when Close is called either take full effect before it or are answered with that error (on redis, where a command may already have left, an operation cut off by Close is answered with that error and takes full effect, perhaps a moment later, or none), and background workers stop.",
 ["histories", "schedules"], "every state of the provider at the time of Close and every interleaving of Close with operations, sweeps and queued background deletions",
 "The tests close an idle provider once.",
 [MEM, BOLT, RED], [("done flag under the lock, closed channel", MEM), ("done flag under the lock, closed channel", BOLT), ("context cancel, client close", RED)], [("done", "closed flag", "all providers")], API)
prop("C10", "Concurrent use of the memory and bolt providers is linearizable",
 "When any number of goroutines use one memory or bolt provider at the same time, together with its background cleaners, every operation appears to take effect at one instant between its call and its return: the results observed are those of some sequential execution that respects real-time order. No execution contains a data race or a crash.",
 ["schedules", "histories"], "every interleaving of concurrent client operations and background workers at lock and channel granularity, for small programs over every pair and triple of operations",
 "No test uses more than one goroutine.",
 [MEM, BOLT, BMD], [("one critical section per operation, re-check before background deletion", MEM), ("one critical section and one bolt transaction per operation", BOLT)], TOK, API)
prop("C11", "Concurrent use of the redis provider is linearizable",
 "When several clients (possibly in different processes sharing one redis server) use redis-backed sessions at the same time, every operation appears to take effect at one instant between its call and its return (destroying a user id: at one instant for each of its sessions); whether a session's time has run out is judged by any instant between the operation's call and that moment. In particular no interleaving lets a destroyed or rotated session become usable again, two refreshes with the same token both succeed, or a background deletion remove a live session.",
 ["schedules", "histories"], "every interleaving of the redis commands issued by concurrent operations of one or several provider instances on one server",
 "The redis provider has no tests at all; its guarantees depend on how separate commands of concurrent operations interleave at the server.",
 [RED, "provider/redis/metadata.go"], [("single commands, MULTI/EXEC and WATCHed read-check-write transactions", RED)], [("session hash", "metadata field plus data fields per access token", RED)], API)
prop("C12", "Bolt sessions survive restart and crash exactly",
 "Closing and reopening a bolt store - or losing the process (or the machine) at any moment and reopening - gives back exactly the sessions, data, deadlines, id membership and eviction order of the operations that had completed; an operation cut off by the crash is afterwards either fully there or not at all. The reopened store behaves as if it had never been closed.",
 ["crash_points", "histories"], "every history, with a crash after every individual write the storage engine performs inside every operation, and any number of reopenings",
 "No test reopens a database and looks inside it, and none crashes.",
 [BOLT, BMD], [("one bolt transaction per operation", BOLT), ("absolute deadlines, count and sequence stored in the database", BMD)], TOK + [("count", "number of stored sessions", "bolt key 'count'")], ["provider opened on a copy of the file"])
prop("C13", "Lost connections never corrupt redis-backed sessions",
 "When the connection to redis breaks or the server answers with an error at any point of an operation, the operation either returns an error and has taken full effect once or not at all, or it returns a success that is exactly what an undisturbed call would have given. An error that speaks about the session (token does not exist, expired, not matched) or says that the provider is closed is as true as without the disturbance: it then is so, and the operation has had no effect. No disturbed operation loses stored data, revives a dead session, or leaves a partially written one behind.",
 ["fault_sequences", "histories"], "every operation in every state, with a connection loss before, after (reply lost) or an error reply at every command it issues, including the driver's automatic retries",
 "The redis provider has no tests, and retries by the driver only happen under faults.",
 [RED], [("idempotent single transactions; read-check-write transactions bound to one connection", RED)], [("session hash", "metadata field plus data fields per access token", RED)], API)
prop("C14", "Callers and the store never share bytes",
 "Byte slices handed to a provider, and the lists they come in, may be modified by the caller as soon as the call returns, and byte slices and lists received from it may be kept and modified for ever, without changing what the store or any other caller sees; conversely no later operation, including closing the provider, changes or invalidates what a caller already received, and no operation changes what belongs to the caller.",
 ["histories", "inputs"], "every history of writes, reads, refreshes, database growth, and close, with the caller overwriting every slice it passed or received",
 "The tests compare a value once, immediately after reading it.",
 [MEM, BMD, RED], [("SetCopy/CopyKeys", MEM), ("copy out of the bolt transaction", BMD), ("string conversion", RED)], [("data", "stored bytes", "all providers")], ["returned Value.Bytes", "later Get"])
prop("C15", "The manager accepts exactly authentic tokens",
 "Manager.Get and Manager.Refresh accept a token only if it is, character for character, a token signed with the manager's method and key; any other string - any altered, truncated, extended, re-encoded or recombined token, or one signed with another key or method - is refused without touching the store. Manager.Refresh also refuses a pair of authentic tokens of different user ids, and a token obtained from Create or Refresh is always accepted.",
 ["inputs", "configurations"], "every string an adversary can build from any number of authentic tokens by editing, recombining, re-encoding or signing under other keys and methods, for every signing method",
 "The tests present only authentic tokens.",
 ["manager.go", "token.go", "cryptoer/hmac.go", "cryptoer/encode.go"], [("Split + Verify over everything before the last separator", "manager.go, token.go"), ("SigningMethodHMAC.Verify", "cryptoer/hmac.go")], [("token", "id.sessionid.signature", "token.go")], ["Manager.Get", "Manager.Refresh", "cryptoer.Decode", "SigningMethod.Verify"])
prop("C16", "Issued tokens are unique and bound to their user id",
 "Every access and refresh token ever issued is distinct from every other, for any user id (empty, unicode, containing separators or arbitrary bytes), and is well formed; the id it carries is a one-to-one image of the user id, so two different users never share sessions and the same user always maps to the same id. Decoding what was encoded gives back exactly the id and session id.",
 ["inputs", "histories", "schedules"], "every user id and pair of user ids, any number of tokens, issued sequentially or concurrently",
 "The tests encode decimal numbers and create one manager session.",
 ["manager.go", "token.go", "coder.go", "cryptoer/encode.go"], [("encode([]byte(id))", "manager.go"), ("newSessionID / uuid", "coder.go"), ("Join/Split", "token.go"), ("Encode/Decode", "cryptoer/encode.go")], (), ["Manager.Create", "Manager.Destroy", "Session.ID", "cryptoer.Encode/Decode"])
prop("C17", "A session object is a coherent private cache",
 "Through one Session object, Get yields for each key the value last put or first observed through that object since its last Delete of the key, decoded afresh into whatever type the caller asks for: a different target type gives its own decoding or a decoding error, never a panic, and modifying a value obtained from Get or passed to Put never changes what later Gets return. A failed Put or Delete leaves the cache as it was, and writes through the object always reach the store.",
 ["histories", "inputs"], "every sequence of Put, Get, Prepare, Delete and Keys through several Session objects on the same or different sessions, with every mix of target types, coders and caller modifications",
 "The tests read two keys with one object, and overwrite a slice element only with the value it already had.",
 ["session.go", "coder.go", "manager.go"], [("Session.keys cache, getKey, Get, Put, Prepare, Delete", "session.go")], [("keys", "per-object cache", "session.go")], ["Session.Get/Put/Prepare/Delete/Keys"])
prop("C18", "No operation hangs and no worker leaks",
 "Every operation returns, whatever other goroutines do and whatever state the provider is in, including operations that report dead sessions to the background cleaner with any queue size, and any operation during or after Close; no operation blocks on another one that has itself returned. After Close no goroutine of the provider remains.",
 ["schedules", "configurations", "histories"], "every interleaving of client operations, queue overflow, sweeps and Close, for every batch size (including unbuffered) and sweep interval",
 "The tests never fill the queue, never run two goroutines, and never look for leaked goroutines.",
 [MEM, BOLT, RED], [("queue send outside the lock with closed as alternative", MEM), ("same; lock released on every path", BOLT), ("same with context", RED)], [("ch", "queue of tokens suspected dead", "all providers")], ["operation returns", "goroutines after Close"])
prop("C19", "Lifetime and size options mean what they say",
 "Whatever lifetime options are given, in any order and any number, the last one given for a lifetime wins, the access lifetime never exceeds the refresh lifetime (giving one adjusts the other when needed), unset ones keep the documented defaults of one hour and one day, and the sessions created behave accordingly; options never affect other providers. A maximum size of zero or less means unlimited, and a sweep interval of zero or less means no sweeping.",
 ["configurations"], "every sequence of options with any durations and sizes, for each back end",
 "The tests use two fixed option combinations.",
 ["provider_option.go", "provider/bolt/option.go", "provider/redis/option.go", "option.go"], [("WithProviderAccess/WithProviderRefresh/...", "provider_option.go"), ("WithAccess/WithRefresh/...", "provider/bolt/option.go, provider/redis/option.go")], (), ["observed lifetimes and eviction of the resulting provider"])
prop("C20", "Stores sharing a back end do not see each other or the bookkeeping",
 "Providers configured with different buckets in one bolt database, or different key prefixes on one redis server, never observe, change or delete each other's sessions or any unrelated data in that database or server. The provider's own bookkeeping can be neither read, listed, overwritten nor deleted through the session data operations.",
 ["histories", "configurations", "inputs"], "every interleaved history of operations on two or more providers over one back end holding unrelated data, with any names and any keys, including those equal to the bookkeeping names",
 "No test uses two providers on one back end.",
 [BOLT, BMD, RED, "provider/redis/option.go", "provider/bolt/option.go"], [("all buckets below the configured bucket", BOLT), ("keyName prefix, checkKey", RED)], (), ["both providers' results", "contents of the shared back end"])

prop("C21", "The configured components are the ones used",
 "A manager signs and verifies with the method and key, stores through the provider, and encodes values with the coder its options gave it last. A redis provider talks to the given client, or without one to the given URL, keeps every session under the given key prefix with its metadata under the given metadata key, encoded by the given coder. A bolt provider keeps everything in the given bucket of the given database, or without one of a file of the given name and mode, whose lock it waits for as long as the given timeout says (for ever if that is zero or less). Options not given have the defaults of the package, one provider's or manager's options never affect another's, and slices passed in options may be modified by the caller afterwards. A coder that fails to encode, or to decode what a write would depend on, makes the operation fail without effect; a provider that cannot be opened is an error that leaves nothing locked. A signing method is found under a name exactly if it was the last one registered under that name.",
 ["configurations", "histories"], "every list of options, with any repetitions in any order, for managers and each back end; every history of registrations and look-ups",
 "The tests use one configuration of each back end and look only at the results of the provider that has it.",
 ["option.go", "manager.go", "provider/bolt/option.go", BOLT, "provider/redis/option.go", RED, "cryptoer/signing_method.go", "cryptoer/hmac.go"], [("functional options applied in order over defaults", "option.go, provider/bolt/option.go, provider/redis/option.go"), ("New: database or file, client or URL", "provider/bolt/provider.go, provider/redis/provider.go"), ("RegisterSigningMethod/GetSigningMethod", "cryptoer/signing_method.go")], (), ["issued tokens", "contents of the databases, files and servers", "time New takes while the file is locked"])
with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
