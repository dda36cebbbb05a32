"""What each check claims: level, technique, assumptions, what is bounded."""

TRUSTED = [
    "z3 (every obligation is decided by it, sequences/arrays/integers/uninterpreted functions)",
    "the verifier kv/ itself: symbolic values, loop cutting, contracts of callees",
    "CPython executing the mechanically transformed source (kv/transform.py lists what changes)",
]
ASSUMED = [
    "Python integers are mathematical integers; int/str/bytes keys of a container are compared by value",
    "library contracts of kv/stubs.py: tornado, kazoo, json, struct, zlib, gzip, snappy, logging do what their "
    "documentation says (logging is without effect)",
    "memory exhaustion and recursion limits are left out",
]

BOUND = ("bounded stand-in: the contract of these functions is checked by concrete cases on the real code with the "
         "stated generation rule and seeds; not a proof")
PROPS = {}


def p(pid, level="exploration", note="", bounded="", trusted=(), assume=(), technique=None):
    PROPS[pid] = {"level": level, "note": note, "bounded": bounded, "trusted": list(trusted),
                  "assume": list(assume), "technique": technique or (
                      "contract-based deductive verification (symbolic execution of the real source with loop "
                      "invariants, z3)" if level == "proof" else BOUND)}


for i in range(1, 25):
    p("C%02d" % i, note=BOUND, bounded="the whole property")
PARTIAL = ("partial correctness: that loops and repeated requests end is not proved",)
VIEW = ("the metadata view is as C19 leaves it: every partition of a topic has a leader entry",)
USER = ("callables given by the user (partitioner, key maker, serializer, deserializer, handlers) are functions of "
        "their arguments that change nothing of kiel's state",)
ORDER = ("iterating one dict or set twice without a change gives the same order, which is otherwise arbitrary",)
WIRE = ("struct packs and unpacks as documented; a format is the concatenation of its items (their order, width and "
        "byte order are read from the format string the code passes)",)
RANGE = ("strings are at most 32767 bytes, arrays below 2^31 elements, integers in range of their width; fields are "
         "None, str or bytes where the grammar says string or bytes", )
p("C01", "proof", "render of every primitive, array, part and request of every api, and serialize, are proved against "
  "the documented grammar, which is written down in contracts/codec.py; nested parts and arrays by the contract of "
  "their own render.", assume=WIRE + RANGE,
  bounded="values that are neither None, str nor bytes (rendered by str()) are only sampled")
p("C02", "proof", "parse of every primitive, array, part and response of every api, and deserialize, are proved "
  "against the inverse of the documented grammar, whatever stands before and after the value.",
  assume=WIRE + RANGE + ("bytes are decoded as UTF-8 when they are valid UTF-8",))
p("C03", "proof", "Message.render, MessageSet.render and MessageSet.compressed are proved against the documented "
  "layout for every list of messages, key, value and attributes 0, 1, 2.", assume=WIRE + RANGE + (
      "zlib.crc32 is a function of the bytes, its sign taken as documented",))
p("C04", "proof", "Message.parse and MessageSet.parse are proved for every list of complete messages followed by "
  "nothing or by a message cut off in its offset, size or body; nested sets by MessageSet.parse's own contract.",
  assume=WIRE + RANGE + ("attributes are 0, 1 or 2; compressed bytes are never valid UTF-8 text",
                         "the message inside is well formed (checksums are not verified)"))
p("C05", "proof", "The gzip and snappy functions are proved against the documented framing for every byte string "
  "and every sequence of blocks.", assume=WIRE + (
      "gzip, zlib and snappy undo what they did: decompress(compress(x)) == x for every x",
      "a compressed block is shorter than 2^31 bytes"))
FUT = ("a tornado Future is completed once; IOStream delivers the bytes received in order, whole, or raises; the "
       "broker sends whole frames and answers a request with that request's response",)
CONN = ("between two steps of the reading coroutine anything the contracts of the connection's methods allow happens",)
p("C06", "proof", "send, connect, read_loop, read_message and the making of ids are proved against their contracts "
  "for every table of waiting requests, order of responses and interleaving of sends.", assume=FUT + CONN + PARTIAL + (
      "fewer than 2^31 requests are made in a process",))
p("C07", "proof", "send and its write callback, abort, close, fail_pending and read_loop are proved to leave no "
  "request waiting, for every state, failing operation and kind of error.", assume=FUT + CONN + PARTIAL + (
      "after close() the reading coroutine's read ends with StreamClosedError",))
p("C08", "proof", "Client.send is proved against its contract for every set of brokers, arrival order and mix of "
  "answers, handler outcomes and connection failures, alone and with other sends calling for refreshes meanwhile.", assume=PARTIAL + USER + ORDER)
p("C09", "proof", "produce, unsent_count, wind_down and close are proved against their contracts for every queue, "
  "batch size and message; flush and heal are callees by contract.", assume=USER + ORDER)
p("C10", "proof", "flush, queue_retries and drain are proved against their contracts for every queue, partitioner, "
  "metadata view, set of connections and settings.", assume=VIEW + USER + ORDER + (
      "correlation ids are never reused (C06)", "MessageSet.compressed is a function of its arguments (C03)"))
p("C11", "proof", "handle_produce_response and queue_retries are proved against their contract for every response and "
  "every state of the queue; tornado's scheduling between handlers is not part of it.")
p("C12", "proof", "consume is proved against its contract for every allocation, leader view, position table and "
  "setting; Client.send and determine_offsets are callees by contract.",
  assume=USER + ORDER + PARTIAL)
p("C13", "proof", "handle_fetch_response, deserialize_messages and consume are proved against their contracts for "
  "every response, deserializer (also raising ones) and state.", assume=USER + (
      "a fetch response holds the topic that was asked for, each partition once",))
p("C14", "proof", "handle_fetch_response is proved for every mix of codes over the partitions; errors.retriable is "
  "read from the running code and compared with the documented list.", assume=USER)
p("C15", "proof", "start_to_timestamp, determine_offsets, handle_offset_response and consume are proved against "
  "their contracts.", assume=VIEW + ORDER + PARTIAL + (
      "time.time, calendar.timegm and datetime arithmetic by their documentation",))
p("C16", "proof", "determine_offsets, handle_offset_fetch_response and consume are proved against their contracts, "
  "with a rebalance possible while the request is under way.", assume=ORDER + PARTIAL + (
      "a response names the topic that was asked for, each partition once, or no topic",))
p("C17", "proof", "commit_offsets, handle_offset_commit_response and consume are proved against their contracts; the "
  "repeated commit is a call of commit_offsets by its own contract.", assume=ORDER + PARTIAL)
p("C18", "proof", "determine_coordinator, GroupedConsumer.connect and handle_group_coordinator_response are proved against their contracts, "
  "the set of brokers changing arbitrarily at every answer.", assume=PARTIAL + ORDER)
p("C19", "proof", "process_topics, get_leader and heal are proved against their contracts for every metadata response "
  "and every set of connections; heal's callees get_metadata, process_brokers and process_topics by contract.",
  assume=PARTIAL + ("brokers, topics and partitions are listed once each",))
p("C20", "proof", "process_brokers, start, get_metadata, heal and stop are proved against their contracts for every broker "
  "list, bootstrap list and outcome of every connection attempt or request.", assume=PARTIAL + ORDER + (
      "Connection.connect and Connection.send end normally or with an exception, the set of connections changing "
      "arbitrarily meanwhile where the code yields", "host names have at most one colon",))
p("C21", "proof", "naive_allocator is proved to place item i at member i mod n for all lists; that this keeps shares "
  "within one of each other is a lemma proved by induction.", assume=("members are distinct names",))
p("C22", "proof", "Both notifications, rebalance, start, connect, add_partitions and the callback the grouped consumer "
  "installs are proved against their contracts for every group state, notified value and outcome of the zookeeper calls.",
  assume=("the allocator function changes nothing of the group's state", "kazoo calls watches and threading "
          "events as documented", "zookeeper is one store that every member sees"))
p("C23", "proof", "add_items, remove_items, serialize, deserialize, start, add_partitions and remove_partitions are "
  "proved against their contracts for every stored set, other holders of the lock changing it until it is taken.",
  assume=("stored data is empty or the JSON list of the items", "topic names have no colon"))
p("C24", "proof", "join, leave, start, stop and the closing of a grouped consumer are proved against their contracts for every prior state of the node, "
  "member and path.", assume=("the session's id is not zero", "no other session joins under the member's name during one join (its old session may end at any time)", "live objects differ in their id()"))
