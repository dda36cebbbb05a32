"""Writes properties.jsonl (kept as a program so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Requests are encoded exactly as the documented wire grammar",
  "For every request type of every supported api and all field values in range, the serialized request is exactly the header (api key of the request's api, api version 0, the request's correlation id, client id \"kiel\") followed by the fields in their documented order and width, big-endian, strings and bytes length-prefixed with -1 for an absent value, arrays prefixed with their element count. Nothing is dropped, reordered, truncated or duplicated, whatever the lengths of the strings and the depths and sizes of the arrays.",
  ["inputs"], "all request types; all field values, string lengths and array sizes representable in the protocol's integer widths",
  "Tests pin a handful of literal requests with short arrays; the claim is over every value and every array size of 13 apis, and half of the apis are never rendered by a test.",
  ["kiel/protocol/part.py", "kiel/protocol/primitives.py", "kiel/protocol/request.py", "kiel/protocol/*.py", "kiel/constants.py"],
  [("Part.render", "kiel/protocol/part.py"), ("Primitive/VariablePrimitive/Array.render", "kiel/protocol/primitives.py"), ("Request.serialize", "kiel/protocol/request.py")],
  observe=["Request.serialize() return value"])
p("C02", "Responses decode to exactly the values the broker encoded",
  "For every response type and all field values, decoding the documented encoding of those values yields an instance holding exactly those values, in order, with absent strings as None and byte values that are not UTF-8 left as bytes. Decoding consumes exactly the bytes of the value, so that whatever follows it is decoded from the right position.",
  ["inputs"], "all response types; all field values, string lengths and array sizes",
  "Tests decode a few hand-packed payloads; an off-by-one in a position only shows for particular nesting, lengths or absent values.",
  ["kiel/protocol/part.py", "kiel/protocol/primitives.py", "kiel/protocol/response.py", "kiel/protocol/*.py"],
  [("Part.parse", "kiel/protocol/part.py"), ("Primitive/VariablePrimitive/Array.parse", "kiel/protocol/primitives.py"), ("Response.deserialize", "kiel/protocol/response.py")],
  observe=["Response.deserialize() result"])
p("C03", "Message sets are encoded with correct sizes, order and checksums",
  "Rendering any list of messages gives the byte size of the set followed by, for each message in order, its offset (-1 for messages to be produced), its exact byte size, and its body starting with the CRC32 of the rest of the body, for every key and value including absent ones and every checksum value. With a compression chosen, the set is exactly one message whose attributes name that compression and whose value is the compressed form of the same messages' encoding without the outer size.",
  ["inputs"], "all message lists, keys, values, CRC values and the three compression settings",
  "Tests render two or three short messages; checksum sign handling, absent keys and sizes matter only for values tests never take.",
  ["kiel/protocol/messages.py"],
  [("Message.render", "kiel/protocol/messages.py"), ("MessageSet.render", "kiel/protocol/messages.py"), ("MessageSet.compressed", "kiel/protocol/messages.py")],
  observe=["struct.pack of render() output"])
p("C04", "Message sets decode every complete message and survive a cut-off tail",
  "Decoding a message set yields every complete message with its offset, key and value, in order, with compressed messages (whatever their other attribute bits) replaced in place by the messages they contain. If the set ends in the middle of a message, the complete messages before it are returned, the partial one is ignored, no byte outside the set is ever read as part of it, and whatever follows the set is decoded from the right position.",
  ["inputs"], "all message sets, plain or compressed, cut at every byte position, followed by arbitrary data",
  "The one truncation test cuts the last set in the buffer at one position; the claim is over every cut position, every position of the set within a response, and mixed compression.",
  ["kiel/protocol/messages.py"],
  [("MessageSet.parse", "kiel/protocol/messages.py"), ("Message.parse", "kiel/protocol/messages.py")],
  observe=["MessageSet.parse() result and returned offset"])
p("C05", "Compression is lossless and framed as documented",
  "For every byte string, decompressing what was compressed gives back exactly that byte string, for both gzip and snappy. Snappy output is the fixed 16-byte header followed by length-prefixed compressed blocks that together cover the input in order in 32 KiB pieces, and any such sequence of blocks, whatever their number and sizes, decompresses to the concatenation of their contents.",
  ["inputs"], "all byte strings of every length; all block sequences",
  "Tests compress one string; loss of a trailing block depends on the length modulo the block size and on the last block's compressed size.",
  ["kiel/compression/snappy.py", "kiel/compression/gzip.py"],
  [("snappy.compress/decompress block loops", "kiel/compression/snappy.py"), ("gzip.compress/decompress", "kiel/compression/gzip.py")],
  observe=["compress()/decompress() results"])
p("C06", "Every response resolves exactly the request it answers",
  "On one connection, each received response completes exactly the pending request that carries the same correlation id, decoded as a response of that request's api from exactly that frame's bytes, whatever the order in which responses arrive and however many requests are outstanding. Correlation ids are never reused within a process, each request goes on the wire as one frame with its exact byte length in front, and completing one request leaves all others pending.",
  ["schedules", "inputs", "histories"], "all numbers of outstanding requests of any apis, all arrival orders of responses, all frame sizes",
  "The test answers two same-api requests in one swapped order; mixing apis, many outstanding requests and frame boundaries are not sampled.",
  ["kiel/connection.py", "kiel/protocol/request.py"],
  [("Connection.send", "kiel/connection.py"), ("Connection.read_loop/read_message", "kiel/connection.py"), ("generate_correlation_id", "kiel/protocol/request.py")],
  [("pending", "requests awaiting a response, by correlation id", "kiel/connection.py")],
  ["futures returned by send()", "bytes written to the stream"])
p("C07", "A failed or closed connection leaves no request waiting",
  "When a connection fails, is aborted, or is closed, whatever the moment, every request still waiting on it is completed with an error, and the connection is marked closing. Requests sent on a closing connection fail immediately with a broker connection error naming the host and port and write nothing.",
  ["fault_sequences", "schedules"], "all sets of pending requests, all kinds of failure (write error, read error, undecodable or unknown response, remote close, local close or abort) at every point",
  "Tests abort once with two pending requests and mock streams; hanging requests only show when the failure strikes with requests in flight on the read side.",
  ["kiel/connection.py"],
  [("Connection.abort/fail_pending", "kiel/connection.py"), ("socket_error_handling", "kiel/connection.py"), ("read_loop", "kiel/connection.py")],
  [("pending", "requests awaiting a response", "kiel/connection.py"), ("closing", "no more use of this connection", "kiel/connection.py")],
  ["futures returned by send()"])
p("C08", "Client fan-out handles each broker's answer independently",
  "When a client sends one request to each of a set of brokers, each broker gets exactly its own request once and the result maps each broker that answered to the outcome of the handler of that response, and nothing else; a connection that fails contributes no result and prevents no other broker's response from being handled. If any response or failed connection called for it, the cluster metadata is refreshed exactly once after all responses were handled and the call for a refresh is then cleared, without losing what other sends call for while it waits; a response with no handler raises an error naming its api.",
  ["schedules", "fault_sequences", "inputs"], "all broker sets, arrival orders, mixes of answers and connection errors",
  "Tests use one to three brokers in fixed order with at most one failure.",
  ["kiel/clients/client.py"], [("Client.send", "kiel/clients/client.py")],
  [("heal_cluster", "a metadata refresh is called for", "kiel/clients/client.py")],
  ["return value of send", "calls of cluster heal"])
p("C09", "Accepted messages are queued once and flushed when the batch is full",
  "A message produced to a known topic is queued exactly once, after those queued before it for that topic, with the key and value that the configured key maker and serializer (by default no key and the JSON text) give for it; queued messages are flushed if and only if batching is off or the number of queued messages over all topics has reached the batch size. Messages for a topic that is still unknown after a metadata refresh, and messages produced while closing, are not queued and cause no flush; closing flushes what is queued.",
  ["inputs", "histories"], "all queues, batch sizes, topics and messages",
  "Tests use batch sizes 1 and 2 with one or two topics.",
  ["kiel/clients/producer.py", "kiel/clients/client.py"],
  [("Producer.produce", "kiel/clients/producer.py"), ("unsent_count", "kiel/clients/producer.py"), ("wind_down", "kiel/clients/producer.py")],
  [("unsent", "topic to queued messages", "kiel/clients/producer.py")], ["queue contents", "calls of flush"])
p("C10", "Flush sends every queued message exactly once to its partition's leader",
  "A flush asks the partitioner once per queued message, over the topic's known partitions, and sends each message exactly once, in the request to the leader of the chosen partition, under its topic and partition, in the order it was queued, carrying the configured acks, timeout and compression. Messages whose partition's leader is not connected, or whose topic has no known partitions, are put back in the queue in their order and a metadata refresh is called for exactly if there are any; in flushing itself no message is lost, duplicated or sent elsewhere (what becomes of a request whose connection fails is outside this property).",
  ["inputs", "configurations"], "all queues over any topics, partitioners, leader assignments, connected broker sets, ack, timeout and compression settings",
  "Tests flush two or three messages to one or two brokers; routing faults need several topics, partitions and leaders interleaved.",
  ["kiel/clients/producer.py", "kiel/iterables.py"],
  [("Producer.flush", "kiel/clients/producer.py"), ("queue_retries", "kiel/clients/producer.py"), ("drain", "kiel/iterables.py")],
  [("unsent", "queued messages by topic", "kiel/clients/producer.py"), ("sent", "messages in flight by correlation id, topic, partition", "kiel/clients/producer.py")],
  ["requests handed to brokers", "queue contents after flush"])
p("C11", "Exactly the retriable produce failures are queued again, once",
  "When a broker answers a produce request, the messages of precisely those partitions that got a retriable error code are put back in the queue, each exactly once and in order, and a metadata refresh is called for exactly if there are any. Messages of partitions that succeeded or failed fatally (with any other code, known or not) are not sent again, one partition's outcome never affects another's, and nothing is remembered of that request afterwards while other requests in flight are untouched.",
  ["inputs", "histories"], "all responses: any topics, partitions and error codes, in any order, any in-flight state",
  "Tests answer one or two partitions with three codes.",
  ["kiel/clients/producer.py", "kiel/protocol/errors.py", "kiel/constants.py"],
  [("handle_produce_response", "kiel/clients/producer.py"), ("errors.retriable", "kiel/protocol/errors.py")],
  [("sent", "messages in flight", "kiel/clients/producer.py")], ["queue contents after the response"])
p("C12", "Fetches ask each leader for exactly its allocated partitions",
  "A consume call sends, to each leader of the consumer's allocated partitions of that topic, one fetch request naming exactly those of the allocated partitions that broker leads, each once, from the position tracked for that partition, with the byte limit split evenly (rounded down) among that request's partitions and the configured wait time and minimum bytes. Allocated partitions without a known, connected leader are left for a later call, and a metadata refresh is called for because of them, not otherwise. A topic with no allocated partitions after a metadata refresh gives an empty list and no request, and a closing consumer fetches nothing.",
  ["inputs", "configurations"], "all allocations, leader assignments, tracked positions and limits",
  "Tests use up to four partitions on two brokers.",
  ["kiel/clients/consumer.py"], [("BaseConsumer.consume", "kiel/clients/consumer.py")],
  [("offsets", "next position by topic and partition", "kiel/clients/consumer.py")], ["requests handed to brokers"])
p("C13", "Fetched messages are delivered in order and positions move past them",
  "Every fetched message of a partition without error whose value deserializes (as JSON by default) is delivered exactly once, in the order fetched, except that falsy values are left out of the returned list; a value that fails to deserialize is skipped without affecting the others. Afterwards the position of that partition is one past the offset of its last successfully deserialized message with a non-negative offset, or unchanged if there is none, and no other partition's position changes.",
  ["inputs"], "all fetch responses, message values, deserializers (including ones that raise) and prior positions",
  "Tests use short message lists with one bad message; position tracking is a fold over any list.",
  ["kiel/clients/consumer.py"], [("handle_fetch_response", "kiel/clients/consumer.py"), ("deserialize_messages", "kiel/clients/consumer.py"), ("consume", "kiel/clients/consumer.py")],
  [("offsets", "next position by topic and partition", "kiel/clients/consumer.py")], ["list returned by consume"])
p("C14", "Fetch errors affect only their partition and are classified by code",
  "In a fetch response, a retriable error code calls for a metadata refresh, an offset-out-of-range code makes the topic's positions be determined again at the next consume, any other error code (known or not) is only logged, and in every case the messages of all the other partitions in the response are delivered (except that a grouped consumer whose positions became unknown delivers nothing of that fetch and fetches again from the committed offsets). Neither a refresh nor a redetermination happens without such a code, and the set of retriable codes is exactly the documented one.",
  ["inputs"], "all combinations of error codes over the partitions of a response",
  "Tests try single codes on one or two partitions; codes outside the known table are never tried.",
  ["kiel/clients/consumer.py", "kiel/protocol/errors.py", "kiel/constants.py"],
  [("handle_fetch_response", "kiel/clients/consumer.py"), ("errors.retriable", "kiel/protocol/errors.py")],
  [("synced_offsets", "topics whose positions are known", "kiel/clients/consumer.py"), ("heal_cluster", "refresh called for", "kiel/clients/client.py")], ["effects of a consume call"])
p("C15", "A single consumer starts each partition where it was told to",
  "Before its first fetch of a topic a single consumer asks each partition's leader, once per partition, for one offset at the requested start point: the beginning (-2), the end (-1, the default), or the whole epoch second of the given datetime or of now minus the given timedelta. Each partition then starts at the first offset its leader returned, if there is one and it is non-negative; a retriable error makes the topic's positions be determined again at the next consume, and any other error, or a leader without a connection, makes consume return an empty list and determine them again next time.",
  ["inputs", "histories"], "all partition/leader layouts, start values, returned offsets and error codes",
  "Tests use two partitions and check the requests by value with whole seconds; positions across several partitions with mixed errors are not sampled.",
  ["kiel/clients/single.py", "kiel/clients/consumer.py"],
  [("determine_offsets", "kiel/clients/single.py"), ("handle_offset_response", "kiel/clients/single.py"), ("start_to_timestamp", "kiel/clients/single.py"), ("consume", "kiel/clients/consumer.py")],
  [("offsets", "next position by topic and partition", "kiel/clients/consumer.py"), ("synced_offsets", "topics whose positions are known", "kiel/clients/consumer.py")], ["offset requests sent", "fetch positions"])
p("C16", "A grouped consumer resumes from the group's committed offsets",
  "Before its first fetch of a topic, and again after every rebalance or out-of-range error, a grouped consumer asks the group's coordinator for the committed offsets of exactly its allocated partitions of that topic, and starts each from exactly the offset returned. Retriable errors (which also call for a metadata refresh) and a load in progress (which does not) repeat the request until it succeeds, a fatal error or a lost coordinator makes consume return an empty list and ask again next time, one partition's error never hides the offset of those reported before it, and an answer naming no topic is harmless.",
  ["inputs", "histories", "schedules"], "all allocations, responses and error codes, rebalances at any moment",
  "Tests fetch offsets of one topic with at most one retry and never rebalance during the request.",
  ["kiel/clients/grouped.py", "kiel/clients/consumer.py"],
  [("determine_offsets", "kiel/clients/grouped.py"), ("handle_offset_fetch_response", "kiel/clients/grouped.py"), ("consume", "kiel/clients/consumer.py")],
  [("offsets", "next position by topic and partition", "kiel/clients/consumer.py"), ("synced_offsets", "topics whose positions are known", "kiel/clients/consumer.py")], ["offset fetch requests", "fetch positions"])
p("C17", "Commits cover exactly what was consumed, until the broker confirms it",
  "A commit sends the coordinator the current position of every allocated partition of each topic consumed since its last confirmed commit whose positions are still known, and of nothing else: positions that a rebalance or an out-of-range error made unknown are not committed before the topic is consumed again. A topic stops needing a commit only when the broker confirmed all its partitions in the response; retriable errors commit again, metadata reported as too large commits again with empty metadata, and any other error (known code or not) or a lost coordinator raises nothing and leaves the topic to the next commit; with autocommit on, every successful consume of a topic commits, and with it off none does.",
  ["inputs", "histories"], "all allocations, positions, topics consumed, responses and error codes",
  "Tests commit one or two topics with uniform results; mixed results within a topic are not sampled.",
  ["kiel/clients/grouped.py"], [("commit_offsets", "kiel/clients/grouped.py"), ("handle_offset_commit_response", "kiel/clients/grouped.py"), ("consume", "kiel/clients/grouped.py")],
  [("topics_to_commit", "topics consumed and not yet confirmed", "kiel/clients/grouped.py")], ["commit requests sent"])
p("C18", "Coordinator discovery tries every broker until one answers",
  "Finding the group's coordinator asks the brokers of the cluster one after another for this group, going on to the next when one gives a retriable error or its connection fails, and stops at the first that names a coordinator, using exactly the broker id it named. If there are no brokers it raises the no-brokers error, and after a full round without success the round is repeated over the brokers then known.",
  ["fault_sequences", "inputs"], "all broker sets and sequences of answers, errors and connection failures",
  "Tests use one retriable failure; a broker that fails to answer at all is never sampled.",
  ["kiel/clients/grouped.py", "kiel/clients/client.py"], [("determine_coordinator", "kiel/clients/grouped.py"), ("GroupedConsumer.connect", "kiel/clients/grouped.py"), ("handle_group_coordinator_response", "kiel/clients/grouped.py")],
  [("coordinator_id", "broker id of the coordinator", "kiel/clients/grouped.py")], ["coordinator requests sent, in order"])
p("C19", "The topic and leader view is exactly the usable part of the metadata",
  "After processing metadata, the known partitions of each topic are exactly those reported for it, in order, that have a leader with a connection and no leader-not-available error, each mapped to that leader; topics reported as unknown are left out, and nothing of earlier metadata survives. The topics reported as incomplete are exactly those with a replica-not-available error, a partition without available leader, or a leader without connection, and healing asks for the metadata of all topics again until no topic or broker is missing, so no topic is forgotten in the process.",
  ["inputs", "histories"], "all metadata responses: topics, partitions, error codes and leaders, against any set of connections",
  "Tests process two topics with one problem each.",
  ["kiel/cluster.py"], [("process_topics", "kiel/cluster.py"), ("heal", "kiel/cluster.py"), ("get_leader", "kiel/cluster.py")],
  [("topics", "topic to partition ids", "kiel/cluster.py"), ("leaders", "topic to partition to leader broker", "kiel/cluster.py")], ["topics and leaders of the cluster"])
p("C20", "Connections follow the broker list, and dead brokers are failed over",
  "After processing broker metadata every listed broker that could be connected to has a connection to its host and port under its id, existing connections are kept, every connection to an unlisted broker is aborted, and the brokers reported missing are exactly those that could not be connected to; healing first discards closing connections. Rounds of healing that overlap keep each other's connections, one made for a broker that got one meanwhile is closed, and none of them fails because of the other. Stopping closes every connection; closing a client marks it as closing, winds it down, and then stops. Bootstrapping tries the given hosts in order (port 9092 unless given) and metadata requests try the known connections in turn, until one answers, and only when none does the no-brokers error is raised.",
  ["fault_sequences", "inputs"], "all broker lists, existing connections, bootstrap lists and failure patterns",
  "Tests fail connects of up to three brokers; failures after a successful connect are not sampled.",
  ["kiel/cluster.py"], [("process_brokers", "kiel/cluster.py"), ("start", "kiel/cluster.py"), ("get_metadata", "kiel/cluster.py"), ("heal", "kiel/cluster.py"), ("stop", "kiel/cluster.py")],
  [("conns", "broker id to connection", "kiel/cluster.py")], ["connections of the cluster"])
p("C21", "Default allocation gives every partition to exactly one member, evenly",
  "For every list of members and every list of partitions, the default allocation assigns each partition to exactly one member, the partition at position i to the member at position i modulo the number of members, so that counts differ by at most one, and every participant computes the same mapping from the same lists. Topic names and partition ids are carried over exactly; with no members nothing is assigned.",
  ["inputs"], "all member lists and partition lists of any sizes",
  "The test uses three members and a few partitions.",
  ["kiel/clients/grouped.py"], [("naive_allocator", "kiel/clients/grouped.py")], observe=["mapping returned by the allocator"])
p("C22", "Group changes always lead to a rebalance over the current state",
  "Whenever the set of members or of partitions changes, the allocation is recomputed by the configured allocator from the sorted current members and sorted current partitions, this consumer's share (empty while it has none) becomes its allocation, and its positions are marked for redetermination; a notification that changes nothing triggers no rebalance; a set whose node is missing is stored again, also if several members do so at once. Starting connects to the given hosts, waits for the connection, joins, registers every given topic partition and does not finish before members and partitions were received and allocated over, and any error on the way is reported to the caller; a grouped consumer starts it with the topics of the cluster's metadata.",
  ["histories", "schedules", "fault_sequences"], "all sequences of membership and partition notifications, all sets",
  "Tests of the allocator only look at constructor defaults.",
  ["kiel/zookeeper/allocator.py", "kiel/clients/grouped.py", "kiel/events.py"],
  [("on_group_members_change/on_partition_change", "kiel/zookeeper/allocator.py"), ("rebalance", "kiel/zookeeper/allocator.py"), ("start/stop", "kiel/zookeeper/allocator.py")],
  [("members, partitions, mapping", "group state", "kiel/zookeeper/allocator.py")], ["allocation property", "allocator function calls"])
p("C23", "The shared set is updated atomically and never loses items",
  "Adding items under the shared lock leaves the stored set as exactly its previous items plus the new ones, removing leaves exactly the previous items minus the removed ones, and storage is not written when nothing would change; reading, computing and writing all happen while the lock is held. Partitions added or removed through an allocator are exactly those given, and that waits while the connection is away. What is stored is the JSON list of the items as bytes, decoding it gives back the same set, absent data decodes to the empty set, and watchers are given the decoded set, or None when the node does not exist.",
  ["inputs", "schedules"], "all stored sets and items, all interleavings of other holders of the lock",
  "There are no tests of the shared set.",
  ["kiel/zookeeper/shared_set.py", "kiel/zookeeper/allocator.py"], [("add_items/remove_items", "kiel/zookeeper/shared_set.py"), ("serialize/deserialize", "kiel/zookeeper/shared_set.py"), ("add_partitions/remove_partitions", "kiel/zookeeper/allocator.py")],
  observe=["data written to zookeeper"])
p("C24", "Group membership is an ephemeral node owned by this session",
  "After joining, the member's node exists under the group's path, is ephemeral and is owned by the joining session: it is created if absent, kept if already owned, and deleted and recreated in one transaction if owned by another session, whose end in the meantime changes nothing of it. Leaving, which closing a grouped consumer does before it ends its session, deletes exactly that node and is harmless if it is already gone, an error in it is reported, and every membership notification is passed on unchanged.",
  ["histories", "inputs"], "all prior states of the node, all member names and paths",
  "Tests check the calls made on a mock for one path each.",
  ["kiel/zookeeper/party.py"], [("join", "kiel/zookeeper/party.py"), ("leave", "kiel/zookeeper/party.py"), ("start", "kiel/zookeeper/party.py")],
  observe=["operations on the zookeeper client"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
