#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x, "meaning": x, "where": files[0]} for x in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "component/server/src/cmd/"
D = "component/dict/src/cmd/"
DB = "component/db/src/"

p("C01", "String and counter commands give exactly the documented reply and effect",
  "For every sequence of SET (with NX/XX/GET), GET, SETEX, PSETEX, INCR, INCRBY, DECR, DECRBY, DEL and EXISTS on any keys, each reply and each later read is the one Redis' documented semantics give: SET stores and returns OK, or nil when NX/XX forbids it and then changes nothing, GET with the SET returns the previous value, DEL/EXISTS count live keys. Counters are exact signed 64-bit arithmetic on values that are wholly an integer; a non-integer value or an overflowing result is answered with an error and leaves the value alone. Counters keep the key's remaining time to live.",
  ["inputs", "histories"], "every finite sequence of these commands over any keys, byte-string values and 64-bit integers, including the boundary values",
  "base_cmd.rs runs each command a handful of times on fresh keys with small integers and never at the i64 boundary or on expired keys.",
  [S+"base/set.rs", S+"base/get.rs", S+"base/incr.rs", S+"base/decrby.rs", D+"simple/set.rs", D+"simple/incr.rs", D+"simple/del.rs", "component/dict/src/data_type/mod.rs"],
  [("SET with NX/XX/GET/KEEPTTL", D+"simple/set.rs"), ("integer add", D+"simple/incr.rs"), ("integer recognition", "component/dict/src/data_type/mod.rs TryFrom<&DataType> for i64")],
  ["dictionary entry data + expires_at"], ["RESP replies on a client connection"])

p("C02", "Lists behave as double-ended sequences",
  "For every sequence of LPUSH, RPUSH, LPUSHX, RPUSHX, LPOP, RPOP (with or without count), LLEN and LRANGE, a list key holds exactly the elements pushed and not yet popped, in order, and every reply (new length, popped elements in pop order, requested index range with negative and out-of-range indexes clipped) agrees with that sequence. The X variants never create a key. A list whose last element was popped no longer exists, so the key is absent for EXISTS and usable with any type.",
  ["inputs", "histories"], "every finite sequence of list commands over any elements, counts and indexes (any i64 index), any list length",
  "list_cmd.rs covers a few fixed sequences with short lists; emptiness, large counts and extreme indexes are never reached.",
  [S+"list/lpush.rs", S+"list/lpop.rs", S+"list/lrange.rs", D+"deque/push.rs", D+"deque/pop.rs", D+"deque/range.rs", "component/dict/src/data_type/deque.rs"],
  [("push both ends", D+"deque/push.rs"), ("pop with count", D+"deque/pop.rs"), ("index clipping", "component/dict/src/data_type/deque.rs shape")],
  None, ["RESP replies"])

p("C03", "Hashes behave as field maps with exact counters",
  "For every sequence of HSET, HSETNX, HGET, HMGET, HGETALL, HEXISTS, HDEL and HINCRBY, a hash key holds exactly the last value written to each field not deleted since, and every reply (number of new/removed fields, per-field values or nil, full contents) agrees with that map. HSETNX never overwrites; HINCRBY is exact 64-bit arithmetic and on a non-integer field or overflow replies an error and changes nothing. A hash whose last field was deleted no longer exists.",
  ["inputs", "histories"], "every finite sequence of hash commands over any fields, values and 64-bit increments",
  "hash_cmd.rs samples single short sequences; no boundary arithmetic, no emptied hashes, no repeated fields in one command.",
  [S+"hash/hset.rs", S+"hash/hincrby.rs", D+"kvp/set.rs", D+"kvp/del.rs", D+"kvp/incr.rs", D+"kvp/get.rs", D+"kvp/get_all.rs"],
  [("field write", D+"kvp/set.rs"), ("field removal", D+"kvp/del.rs"), ("field counter", D+"kvp/incr.rs")], None, ["RESP replies"])

p("C04", "Sets behave as mathematical sets",
  "For every sequence of SADD, SREM, SISMEMBER, SMISMEMBER and SMEMBERS, a set key holds exactly the members added and not removed since, and every reply (number actually added/removed, 0/1 membership in argument order, all members exactly once) agrees with that set. A set whose last member was removed no longer exists.",
  ["inputs", "histories"], "every finite sequence of set commands over any members, including repeated members in one command",
  "set_cmd.rs covers a few fixed sequences.",
  [S+"set/sadd.rs", S+"set/smembers.rs", D+"set/add.rs", D+"set/remove.rs", D+"set/exists.rs", D+"set/get_all.rs"],
  [("add", D+"set/add.rs"), ("remove", D+"set/remove.rs")], None, ["RESP replies"])

p("C05", "Sorted sets stay ordered by score then member under every command",
  "For every sequence of ZADD (NX, XX, GT, LT, CH, INCR), ZREM, ZREMRANGEBYRANK/SCORE/LEX, ZRANK, ZREVRANK and the range reads (ZRANGE with BYSCORE/BYLEX/REV/LIMIT/WITHSCORES, ZREVRANGE, Z[REV]RANGEBYSCORE, Z[REV]RANGEBYLEX), each member has exactly one score, the one its accepted updates give, and ranks, ranges (inclusive, exclusive, infinite, empty or inverted bounds) and counts all agree with the order by score then member bytes. GT/LT and XX/NX gate only what they document: GT/LT restrict updates but never additions. A sorted set whose last member was removed no longer exists; lexicographic ranges are covered for sets whose members share one score.",
  ["inputs", "histories"], "every finite sequence of sorted-set commands over any members, finite and infinite scores, bounds, limits and option combinations",
  "zset_cmd.rs checks a few fixed examples; it never updates then ranks, never uses infinities, inverted or huge bounds, GT/LT on new members.",
  [S+"sorted_set/zadd.rs", S+"sorted_set/zrange.rs", D+"sorted_set/add.rs", D+"sorted_set/range_by_score.rs", D+"sorted_set/range_by_lex.rs", D+"sorted_set/range_by_rank.rs", D+"sorted_set/rank.rs", D+"sorted_set/remove.rs", D+"sorted_set/mod.rs", "component/common/src/options/range_cmd_order.rs"],
  [("two synchronised indexes", D+"sorted_set/add.rs (hash + BTreeSet)"), ("score ranges", D+"sorted_set/mod.rs bigger_range"), ("bound syntax", "component/common/src/options/range_cmd_order.rs")], None, ["RESP replies"])

p("C06", "A command answered with an error or refusal changes nothing",
  "Whenever a data command is answered with an error (wrong type for the key, value not an integer, arithmetic overflow, busy key, undecodable payload, invalid argument) or the connection is closed because its arguments do not parse, every key keeps exactly its previous existence, type, contents and time to live. Every typed command on a live key of another type is answered with a WRONGTYPE error, and no failing command creates a key.",
  ["inputs", "histories"], "every command x every type of existing value x every malformed argument position, from any reachable keyspace",
  "The tests assert one WRONGTYPE message and never look at the state after a failure.",
  [D+"simple/incr.rs", D+"kvp/incr.rs", D+"kvp/set.rs", D+"set/add.rs", D+"sorted_set/add.rs", D+"server/restore.rs", "component/macros/src/parse_frames.rs", "component/server/src/lib.rs"],
  [("type check before mutation", D+"*"), ("argument parsing", "component/macros/src/parse_frames.rs")], None, ["RESP replies + reads of every key after the failure"])

p("C07", "A key past its deadline is indistinguishable from a key never set",
  "From the millisecond its deadline is reached, a key behaves for every read and write command exactly as if it had never existed, whether or not the background reclamation has run: reads report it missing, writes start from an empty value of the command's type with no deadline, conditional writes see no key. Before that instant it behaves as a live key.",
  ["inputs", "schedules", "histories"], "every command on every value type at every clock value relative to the deadline, with the reclamation arbitrarily early or late after the deadline",
  "The tests sleep past a deadline once or twice and only try GET/TTL/EXISTS.",
  ["component/dict/src/lib.rs", D+"simple/set.rs", D+"simple/del.rs", D+"simple/ttl.rs", D+"deque/push.rs", D+"server/restore.rs", DB+"expire.rs"],
  [("lazy expiry filter", "component/dict/src/lib.rs get/get_or_insert_with"), ("raw accessors", "component/dict/src/lib.rs raw_get")],
  None, ["RESP replies under a controlled clock"])

p("C08", "Deadlines are set, kept, moved and cleared exactly as documented",
  "EXPIRE, PEXPIRE, EXPIREAT, PEXPIREAT (with NX/XX/GT/LT), SET EX/PX/EXAT/PXAT/KEEPTTL, SETEX, PSETEX and RESTORE give a key exactly the deadline their arguments denote, in the documented unit; plain SET, DEL and re-creation clear it; every other write keeps it; TTL/PTTL report the remaining time, -1 without deadline and -2 for a missing key. A deadline at or before now removes the key at once (SET-family commands refuse non-positive durations with an error), and a key without deadline counts as infinite for GT and LT. A deadline that cannot be represented is refused with an error and nothing changes.",
  ["inputs", "histories"], "every sequence of these commands, any signed 64-bit duration or timestamp, any clock value, any value type",
  "The tests use small positive durations in real time, with one flag at a time.",
  [S+"base/expire.rs", S+"base/pexpire.rs", S+"base/expireat.rs", S+"base/pexpireat.rs", S+"base/set.rs", S+"base/ttl.rs", D+"simple/expire.rs", D+"simple/set.rs", D+"simple/ttl.rs", "component/common/src/options/set_cmd_expires.rs"],
  [("deadline computation", S+"base/*.rs"), ("flag table", D+"simple/expire.rs")], None, ["RESP replies under a controlled clock"])

p("C09", "Single-key commands are linearizable across concurrent clients",
  "For every set of clients issuing commands on a key concurrently, there is one total order of the commands, consistent with each command taking effect between its request and its reply, under which all replies are those of sequential execution. In particular no increment, push, pop, add or conditional SET is lost or applied twice, however many clients run.",
  ["schedules", "histories"], "every interleaving of concurrent clients' commands on the same or different keys",
  "All tests use one sequential client.",
  [DB+"slot.rs", DB+"lib.rs", "component/server/src/lib.rs"],
  [("per-slot mutex around apply", DB+"slot.rs call_write/call_expires_write/call_read")], ["slot dictionary"], ["request/reply times of many concurrent connections"])

p("C10", "Background expiry reclaims every expired key and never a live one",
  "Every key whose deadline passes is eventually removed from memory by the server on its own, without any client touching it, whatever history of deadline changes, overwrites, deletions, flushes and restores came before. The background task never removes a key that is live: a key whose deadline was extended, cleared, or whose name was reused survives, also when the change races with the removal.",
  ["schedules", "histories"], "every history of deadline-changing commands and every interleaving of the background tasks with client commands",
  "The only expiry test waits for one key and reads it through the lazy filter, which hides whether the background task works.",
  [DB+"expire.rs", DB+"slot.rs", D+"simple/set.rs", D+"simple/expire.rs", D+"simple/del.rs", D+"server/restore.rs", "component/dict/src/lib.rs"],
  [("deadline index", DB+"expire.rs recv_task"), ("purge task", DB+"expire.rs purge_expired_keys"), ("index updates", DB+"slot.rs call_expires_write")],
  ["expiration_data index, slot dictionaries"], ["physical contents as streamed by syncsnapshot; RESP replies"])

p("C11", "FLUSHALL empties the whole keyspace and nothing else",
  "After FLUSHALL (with or without SYNC) is answered, every key that existed before it started is absent, in every slot and for every type. Keys written afterwards are unaffected by it: they keep their values and deadlines, and expire and are reclaimed normally, even when they reuse flushed names.",
  ["inputs", "schedules", "histories"], "every keyspace content, both modes, any commands before, during and after",
  "One test flushes one key.",
  [S+"others/flushall.rs", DB+"lib.rs", DB+"slot.rs", DB+"expire.rs"],
  [("per-slot swap", DB+"slot.rs flush"), ("index clean-up", DB+"expire.rs scan_all")], None, ["RESP replies; physical contents via syncsnapshot"])

p("C12", "Replies answer requests one for one, in order, however bytes arrive",
  "On every connection, each complete request gets exactly one reply, in request order, and the replies do not depend on how the request bytes are split or coalesced into TCP segments: byte-by-byte, pipelined many at a time, or with a request larger than any internal buffer. A request is executed once it is completely received, without waiting for further input, and command names and option keywords are matched case-insensitively.",
  ["inputs", "schedules"], "every sequence of requests and every segmentation of its byte stream, requests of any size",
  "The tests send each command in one small write and read one reply.",
  ["component/common/src/connection/mod.rs", "component/common/src/connection/parse/frame.rs", "component/server/src/lib.rs"],
  [("read buffer and advance", "component/common/src/connection/mod.rs read_frame"), ("streaming parser", "component/common/src/connection/parse/frame.rs")], None, ["byte stream of a client connection"])

p("C13", "Keys, members and values are binary-safe and replies are always well framed",
  "Any byte string (empty, containing CR/LF, NUL, non-UTF-8 or RESP-looking bytes, up to megabytes) stored as key, value, list element, hash field or value, set or sorted-set member is returned byte for byte by every command that reads it, and never changes how the reply parses. Every reply, error replies that quote client input included, is exactly one well-formed RESP value.",
  ["inputs"], "every byte string in every data position of every command",
  "The tests use short ASCII words only.",
  ["component/common/src/connection/parse/frame.rs", "component/server/src/frame_parse.rs", S+"base/unknown.rs", S+"set/smembers.rs", S+"sorted_set/zrange.rs"],
  [("reply encoding", "component/common/src/connection/parse/frame.rs write"), ("value to frame", "component/server/src/frame_parse.rs")], None, ["raw reply bytes"])

p("C14", "Hostile or malformed input affects only its own connection",
  "Whatever bytes a client sends (malformed RESP, wrong arity, wrong frame types, absurd lengths or nesting, garbage arguments, half requests followed by a disconnect), the server process stays up, other connections keep getting correct replies, new connections are accepted, and no data changes except by the complete well-formed commands received. The offending connection gets an error reply or is closed, never a reply shifted onto another request.",
  ["inputs", "fault_sequences"], "every byte stream and disconnect point on one connection while others are active",
  "No test sends malformed input.",
  ["component/common/src/connection/parse/frame.rs", "component/common/src/connection/parse/mod.rs", "component/server/src/lib.rs", "component/server/src/cmd/mod.rs", "component/macros/src/parse_frames.rs"],
  [("frame parser", "component/common/src/connection/parse/frame.rs"), ("task per connection", "component/server/src/lib.rs Listener::run")], None, ["other connections' replies; process liveness"])

p("C15", "The connection limit is enforced and never leaks",
  "With max_connections = n, at most n connections are being served at any time; a connection beyond that waits and is served as soon as another ends. This holds after any history of connections ending in any way (client close, protocol error, internal error, snapshot hand-off), so that n clients can always be served again. While the operating system has descriptors for fewer connections, those being served stay served, and the others are served in the order they came as soon as there are descriptors again.",
  ["schedules", "fault_sequences", "configurations"], "every n >= 1 and every order of connects, requests and disconnects of any kind",
  "The tests never reach the limit (3000).",
  ["component/server/src/lib.rs", "component/server/src/limit.rs", "component/common/src/config.rs"],
  [("semaphore permit per handler", "component/server/src/limit.rs")], ["available permits"], ["which connections get replies"])

p("C16", "DUMP then RESTORE reproduces the value exactly",
  "For every live key, RESTORE of its DUMP payload under any name yields a key with identical type and contents, with exactly the requested time to live (relative, absolute with ABSTTL, or none for 0). RESTORE onto a live key without REPLACE is refused with BUSYKEY and changes nothing, with REPLACE it replaces value and deadline; an undecodable payload is refused and changes nothing; DUMP of a missing key is nil.",
  ["inputs", "histories"], "every value of every type, every target key state, TTL form and payload truncation",
  "One test restores one short string.",
  [S+"others/dump.rs", S+"others/restore.rs", D+"server/dump.rs", D+"server/restore.rs"],
  [("serialisation", D+"server/dump.rs"), ("insert with deadline", D+"server/restore.rs")], None, ["RESP replies"])

p("C17", "Keys live in their Redis Cluster slot and distinct keys never interfere",
  "Every key is stored in slot CRC16(key) mod 16384 as Redis Cluster defines it, hashing only the text between the first '{' and the following '}' when that text is non-empty. Distinct keys are always distinct entries, in the same slot or not: no command changes or reveals any key other than those it names.",
  ["inputs"], "every key byte string and every pair of keys, with colliding slots in particular",
  "No test looks at slots or uses hash tags.",
  [DB+"lib.rs"], [("slot choice", DB+"lib.rs get_slot")], None, ["syncsnapshot <slot> contents"])

p("C18", "The write stream to replicas is complete, ordered and replay-equivalent",
  "Every write accepted by a leader is published on its replication stream exactly once, with per-slot sequence numbers that are consecutive and follow the order in which the writes took effect; heartbeat messages never carry data. Replaying a slot's messages in sequence-number order from an empty slot yields exactly the leader's contents, deadlines included.",
  ["schedules", "histories"], "every set of concurrent writers and every command mix, any number of subscribers",
  "No test opens the replication stream.",
  [DB+"slot.rs", DB+"forward/mod.rs", DB+"forward/connection.rs", DB+"forward/message.rs", "component/dict/src/cmd/mod.rs", DB+"slot/replica_update.rs"],
  [("id assignment under slot lock", DB+"slot.rs call_write"), ("broadcast", DB+"forward/connection.rs push_all")], ["slot write_id"], ["bytes on the forward connection"])

p("C19", "A snapshot is a point-in-time image of the slots it covers",
  "A snapshot served to a replica contains, for each requested slot, exactly the contents, deadlines and sequence number that slot had at one single instant between request and end of stream, the same instant for all slots, however many writes run concurrently and however large the data is. Taking it never blocks or corrupts the serving node's later commands, and the stream is always complete.",
  ["schedules", "inputs", "histories"], "every keyspace content and size, one slot or all, every interleaving with writers",
  "No test requests a snapshot.",
  ["component/server/src/cmd/syncsnapshot.rs", DB+"child_process.rs"],
  [("lock all, fork, child streams", "component/server/src/cmd/syncsnapshot.rs")], ["slot dictionaries + write_id"], ["bytes on the syncsnapshot connection"])

p("C20", "A follower applies each slot's writes once, in order, with no gap",
  "Whatever order, duplication or loss of replication messages a follower sees after its snapshot, it applies exactly the message that is next for the slot, ignores the ones it already has, and on a gap fetches that slot again instead of applying over the gap; messages of other slots are not disturbed. After the gap is repaired its slot equals the leader's, and every forwarded kind of write has the same effect as on the leader.",
  ["schedules", "fault_sequences", "histories"], "every sequence of messages with arbitrary drops, duplicates and reordering across slots, every command kind",
  "No test runs a follower.",
  [DB+"slot/replica_update.rs", DB+"pd_handle/replica.rs", "component/server/src/cmd/syncsnapshot.rs"],
  [("sequence gate", DB+"slot/replica_update.rs process_forward"), ("resync on gap", DB+"pd_handle/replica.rs process_cmd")], ["slot write_id of the follower"], ["follower contents by RESP; its requests to the leader"])

p("C21", "A follower converges to its leader",
  "When writes to the leader stop, every follower of the group, whether it joined before, during or after the writes, ends up with the leader's keys, values and deadlines. This holds for every kind of data and amount, with concurrent writers during the follower's initial synchronisation.",
  ["schedules", "histories", "configurations"], "every write history before/during/after the join, several followers",
  "No test starts a PD, leader and follower together.",
  [DB+"pd_handle/mod.rs", DB+"pd_handle/replica.rs", DB+"forward/connection.rs", "component/server/src/cmd/syncsnapshot.rs"],
  [("snapshot + stream", DB+"pd_handle/replica.rs"), ("stream registration", DB+"forward/connection.rs")], None, ["RESP reads on leader and follower"])

p("C22", "The placement driver hands out unique ids and one leader per group",
  "Every group created gets the next id, every server registered in a group gets an id no other server of that group ever had, and registering in an unknown group is refused with an error. The first server registered in a group without leader becomes leader and every later one follower; at any time all servers of a group are told the same single leader, whose addresses are the ones that server registered, and groups never influence each other.",
  ["histories", "schedules", "inputs"], "every interleaving of group creation, registrations and heartbeats from any number of connections",
  "No test talks to the placement driver.",
  ["component/pd/src/status.rs", "component/pd/src/connect.rs", "component/pd/src/cmd/mod.rs", "component/common/src/pd_message.rs"],
  [("registration", "component/pd/src/status.rs server_init"), ("status answer", "component/pd/src/status.rs server_heartbeat")], ["groups, servers, roles"], ["PD replies"])

p("C23", "Failover replaces a silent leader with the earliest-joined live server",
  "A leader whose last heartbeat is at most 3 seconds old is never replaced; a leader silent for longer is demoted at the next one-second check, and the live follower (heard from within 3 seconds) that joined first becomes leader, or, if there is none, the first one heard from again at a later check. A heartbeat whose report differs from the driver's view is answered with the current view, a matching one with none, and a deposed server that comes back is told it is a follower of the new leader.",
  ["schedules", "fault_sequences"], "every pattern of heartbeats and silences over time for any number of servers and groups",
  "No test exercises failover.",
  ["component/pd/src/status.rs"], [("survival check", "component/pd/src/status.rs server_survival_check"), ("heartbeat", "component/pd/src/status.rs heartbeat_server")], ["roles, latest_heartbeat, join_time"], ["heartbeat replies"])

p("C24", "A server registers, reports and obeys the placement driver",
  "A server configured with a placement driver registers its own addresses and group before serving, then about every second heartbeats with exactly the status (id, group, role, leader) it was last told, so that a driver whose view has not changed never has to correct it. Told that another server leads, it synchronises from that leader and follows its write stream; told that it leads, it stops following; it keeps doing so through any sequence of role changes.",
  ["histories", "fault_sequences", "configurations"], "every sequence of placement-driver answers",
  "No test runs a server with a placement driver.",
  [DB+"pd_handle/mod.rs", DB+"pd_handle/replica.rs", "component/common/src/config.rs"],
  [("registration and heartbeat loop", DB+"pd_handle/mod.rs"), ("role changes", DB+"pd_handle/mod.rs update_status")], ["latest_status"], ["requests received by the driver and by leaders"])

p("C25", "OBJECT FREQ and OBJECT IDLETIME reflect the uses of the key",
  "OBJECT IDLETIME of a live key is the time in seconds since a command last used the key, exact to its ten-second grain (never less, and less than ten seconds more). OBJECT FREQ starts at 5 when a value is stored as a whole and is increased, up to 65535, by every use of the key (once, at most twice, for each time a command names it), after it has lost one, but never below 0, for every minute begun since the previous use (minutes counted modulo 65536). RESTORE sets both to what its IDLETIME and FREQ options say, the counter to 0 without. A command that names a live key uses it, whether it reads or writes and whatever the key holds, except TTL, PTTL and OBJECT, which only look at it; a refused command may or may not count. No other key's values are affected, and of a missing or expired key both are an error.",
  ["histories", "inputs"], "every sequence of commands over any keys at any times",
  "The tests ask once, right after a RESTORE; decay, saturation, the wrap of the minute counter and the effect of each command depend on histories and on time.",
  ["component/dict/src/lib.rs", "component/server/src/cmd/others/object.rs", "component/dict/src/cmd/server/restore.rs"],
  [["visit log", "component/dict/src/lib.rs update_visit_log, new_visit_log, create_visit_log"], ["uses", "component/dict/src/lib.rs get, get_or_insert_with"], ["claims of RESTORE", "component/server/src/cmd/others/restore.rs"]], ["visit_log: last use in tens of seconds, minute of the last decay, counter"], ["OBJECT replies"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
