From 2771485d378b5a4661dcd276de4935614f65330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 01/35] fix: snappy.decompress dropped a trailing block shorter
 than the header

---
 kiel/compression/snappy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kiel/compression/snappy.py b/kiel/compression/snappy.py
index e3c3ef0..0021426 100644
--- a/kiel/compression/snappy.py
+++ b/kiel/compression/snappy.py
@@ -65,11 +65,10 @@ def decompress(data):
         raise RuntimeError("Snappy compression unavailable.")
 
     buff_offset = len(raw_header)  # skip the header
-    length = len(data) - len(raw_header)
 
     output = BytesIO()
 
-    while buff_offset <= length:
+    while buff_offset < len(data):
         block_size = struct.unpack_from("!i", data, buff_offset)[0]
         buff_offset += struct.calcsize("!i")
 
-- 
2.43.0


From 317f37ba3c051df1eb075dd06995fb26c9b72c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 02/35] fix: a message whose CRC32 is exactly 2**31 could not
 be rendered

---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 9becef2..f13162b 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -174,7 +174,7 @@ class Message(Part):
         payload = struct.pack("!" + fmt, *data)
 
         crc = zlib.crc32(payload)
-        if crc > (2**31):
+        if crc >= (2**31):
             crc -= 2**32
 
         fmt = "i%ds" % len(payload)
-- 
2.43.0


From ea0f900f266f461376dc6e5a62ba54ffd32a0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 03/35] fix: a cut off message set was parsed past its own end

---
 kiel/protocol/messages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index f13162b..b3556bb 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -124,6 +124,8 @@ class MessageSet(object):
             size, offset = Int32.parse(buff, offset)
 
         end = offset + size
+        # a cut off message must not be completed with what follows the set
+        buff = buff[:end]
 
         messages = []
         while not offset == end:
@@ -142,7 +144,7 @@ class MessageSet(object):
             else:
                 messages.append((message_offset, message))
 
-        return cls(messages), offset
+        return cls(messages), end
 
 
 class Message(Part):
-- 
2.43.0


From b7ca56f2bbbc9cc14c8da41f33a1778af8fe6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 04/35] fix: heartbeat request and response parts were not
 (name, type) pairs

---
 kiel/protocol/heartbeat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kiel/protocol/heartbeat.py b/kiel/protocol/heartbeat.py
index aa8d518..edfc193 100644
--- a/kiel/protocol/heartbeat.py
+++ b/kiel/protocol/heartbeat.py
@@ -24,9 +24,9 @@ class HeartbeatRequest(Request):
     api = "heartbeat"
 
     parts = (
-        "group_id", String,
-        "generation_id", Int32,
-        "member_id", String,
+        ("group_id", String),
+        ("generation_id", Int32),
+        ("member_id", String),
     )
 
 
@@ -40,5 +40,5 @@ class HeartbeatResponse(Response):
     api = "heartbeat"
 
     parts = (
-        "error_code", Int16
+        ("error_code", Int16),
     )
-- 
2.43.0


From 6bdf88dcffde8b11ebcdae925bafc7ab1975d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 05/35] fix: partitions of a v1 offset commit topic are an
 array

---
 kiel/protocol/offset_commit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/offset_commit.py b/kiel/protocol/offset_commit.py
index e611f15..5f7ff8a 100644
--- a/kiel/protocol/offset_commit.py
+++ b/kiel/protocol/offset_commit.py
@@ -78,7 +78,7 @@ class TopicV1Request(Part):
     """
     parts = (
         ("name", String),
-        ("partitions", PartitionV1Request),
+        ("partitions", Array.of(PartitionV1Request)),
     )
 
 
-- 
2.43.0


From c5668c2fcd4026ce4f2e04f2dbc04bfb4098776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 06/35] fix: datetime and timedelta start points gave a time
 that cannot be serialized

---
 kiel/clients/single.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 3f749e6..a58533e 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -135,10 +135,10 @@ def start_to_timestamp(start):
     or one of `SingleConsumer.BEGINNING` or `SingleConsumer.END`.
     """
     if isinstance(start, datetime.datetime):
-        offset_time = (start - EPOCH).total_seconds()
+        offset_time = int((start - EPOCH).total_seconds())
     elif isinstance(start, datetime.timedelta):
         now = calendar.timegm(time.gmtime())
-        offset_time = now - start.total_seconds()
+        offset_time = int(now - start.total_seconds())
     else:
         offset_time = start
 
-- 
2.43.0


From 601c647f73a4c42afa675e9b32bd349160db6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 07/35] fix: SharedSet wrote text where zookeeper requires
 bytes

---
 kiel/zookeeper/shared_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 23b4afe..158ee82 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -85,7 +85,7 @@ class SharedSet(object):
         """
         Serializes the set data as a list in a JSON string.
         """
-        return json.dumps(list(data))
+        return json.dumps(list(data)).encode("utf-8")
 
     def deserialize(self, data):
         """
-- 
2.43.0


From 72806424436e695f4198c402463b0ae480858341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 08/35] fix: allocator seeded the shared set with an
 unserialized python set

---
 kiel/zookeeper/allocator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 1caf62c..f52c6d3 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -193,7 +193,10 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(self.partition_path, value=self.partitions)
+            self.conn.create(
+                self.partition_path,
+                value=self.shared_set.serialize(self.partitions)
+            )
             return
 
         if new_partitions != self.partitions:
-- 
2.43.0


From 48b0037c811dcea57a4a2001d8c51c3bbd2a0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 09/35] fix: remove_partitions could not handle lists of
 partition ids

---
 kiel/zookeeper/allocator.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index f52c6d3..15144ea 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -235,16 +235,19 @@ class PartitionAllocator(object):
         The ``partitions`` argument should be a dictionary keyed on
         topic names who's values are lists of associated partition IDs.
         """
+        to_remove = set([
+            ":".join([topic, str(partition_id)])
+            for topic, partition_ids in six.iteritems(old_partitions)
+            for partition_id in partition_ids
+        ])
+
         log.info(
             "Attempting to remove %d partitions from consumer group '%s'",
-            len(old_partitions), self.group_name
+            len(to_remove), self.group_name
         )
         wait_on_event(self.connected)
 
-        self.shared_set.remove_items(set([
-            ":".join([topic, partition_id])
-            for topic, partition_id in six.iteritems(old_partitions)
-        ]))
+        self.shared_set.remove_items(to_remove)
 
     def rebalance(self):
         """
-- 
2.43.0


From 9e0d319317c5886d5938fe989f4dfb4a3c290f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 10/35] fix: aborting a connection relied on
 Future.set_exc_info, gone since tornado 5

---
 kiel/connection.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index b0ec3d1..3d91048 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -165,15 +165,20 @@ class Connection(object):
 
         self.close()
         self.api_correlation.clear()
+        self.fail_pending(sys.exc_info()[1])
+
+    def fail_pending(self, error=None):
+        """
+        Puts all pending futures into an error state.
+
+        The given exception is used if there is one, otherwise a
+        ``BrokerConnectionError``.
+        """
         while self.pending:
             _, pending = self.pending.popitem()
-            exc_info = sys.exc_info()
-            if any(exc_info):
-                pending.set_exc_info(sys.exc_info())
-            else:
-                pending.set_exception(
-                    BrokerConnectionError(self.host, self.port)
-                )
+            pending.set_exception(
+                error or BrokerConnectionError(self.host, self.port)
+            )
 
     @gen.coroutine
     def read_message(self):
-- 
2.43.0


From 8fe6e4fa679532b71fc0bbd940b8c1a15f2684ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 11/35] fix: requests pending on a closed connection were left
 waiting forever

---
 kiel/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/connection.py b/kiel/connection.py
index 3d91048..d8904ae 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -150,6 +150,9 @@ class Connection(object):
                 message = yield self.read_message()
                 self.pending.pop(message.correlation_id).set_result(message)
 
+        # nothing can answer what is still pending once reading has stopped
+        self.fail_pending()
+
     def abort(self):
         """
         Aborts a connection and puts all pending futures into an error state.
-- 
2.43.0


From 14741393d8db67d3568b20f577f16a8324832802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 12/35] fix: an error code without a known name raised KeyError
 in response handlers

---
 kiel/clients/consumer.py | 2 +-
 kiel/clients/grouped.py  | 4 ++--
 kiel/clients/producer.py | 2 +-
 kiel/clients/single.py   | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 98863ba..4739c2f 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -169,7 +169,7 @@ class BaseConsumer(Client):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
 
         return messages
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index d996804..6cc1739 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -203,7 +203,7 @@ class GroupedConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    constants.ERROR_CODES[code], topic, partition.partition_id
+                    constants.ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
                 raise exc.NoOffsetsError
 
@@ -276,7 +276,7 @@ class GroupedConsumer(BaseConsumer):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        constants.ERROR_CODES[code],
+                        constants.ERROR_CODES.get(code, code),
                         topic, partition.partition_id
                     )
 
diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index a70a4b3..03e8dc6 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -217,7 +217,7 @@ class Producer(Client):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        ERROR_CODES[code], topic.name, partition.partition_id
+                        ERROR_CODES.get(code, code), topic.name, partition.partition_id
                     )
 
         self.sent.pop(response.correlation_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index a58533e..8278949 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -115,7 +115,7 @@ class SingleConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
                 raise NoOffsetsError
 
-- 
2.43.0


From 4cb054f3abdf357017da6a9850936ef59ec747d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 13/35] fix: consume() overrode requests to determine offsets
 again

---
 kiel/clients/consumer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 4739c2f..0a208da 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -88,12 +88,18 @@ class BaseConsumer(Client):
             return
 
         if topic not in self.synced_offsets:
+            # marked first, so that a response or a rebalance that asks for the
+            # offsets to be determined again is not overridden afterwards
+            self.synced_offsets.add(topic)
             try:
                 yield self.determine_offsets(topic, start)
             except NoOffsetsError:
+                self.synced_offsets.discard(topic)
                 log.error("Unable to determine offsets for topic %s", topic)
                 raise gen.Return([])
-            self.synced_offsets.add(topic)
+            except Exception:
+                self.synced_offsets.discard(topic)
+                raise
 
         if topic not in self.allocation or not self.allocation[topic]:
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
-- 
2.43.0


From 89097dce0fe6027451165cafb6c3638ca1383867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 14/35] fix: a topic with a failed partition commit was dropped
 from the retry

---
 kiel/clients/grouped.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 6cc1739..091749d 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -263,11 +263,14 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
+            committed = True
             for partition in topic.partitions:
                 code = partition.error_code
                 if code == errors.no_error:
-                    self.topics_to_commit.discard(topic.name)
-                elif code in errors.retriable:
+                    continue
+
+                committed = False
+                if code in errors.retriable:
                     retry = True
                     self.heal_cluster = True
                 elif code == errors.offset_metadata_too_large:
@@ -280,6 +283,9 @@ class GroupedConsumer(BaseConsumer):
                         topic, partition.partition_id
                     )
 
+            if committed and topic.partitions:
+                self.topics_to_commit.discard(topic.name)
+
         return (retry, adjust_metadata)
 
     @gen.coroutine
-- 
2.43.0


From 7eb6cdc70c2db06b585bb08d93682a1e60715561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 15/35] fix: a broker failing to answer raised KeyError in the
 grouped consumer

---
 kiel/clients/grouped.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 091749d..d6b2784 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -112,7 +112,7 @@ class GroupedConsumer(BaseConsumer):
                 raise exc.NoBrokersError
             for broker_id in broker_ids:
                 results = yield self.send({broker_id: request})
-                determined = results[broker_id]
+                determined = results.get(broker_id, False)
                 if determined:
                     break
 
@@ -165,6 +165,8 @@ class GroupedConsumer(BaseConsumer):
         retry = True
         while retry:
             result = yield self.send({self.coordinator_id: request})
+            if self.coordinator_id not in result:
+                raise exc.NoOffsetsError
             retry = result[self.coordinator_id]
 
     def handle_offset_fetch_response(self, response):
@@ -241,6 +243,9 @@ class GroupedConsumer(BaseConsumer):
         )
 
         results = yield self.send({self.coordinator_id: request})
+        if self.coordinator_id not in results:
+            # no answer, the topics stay marked for the next commit
+            return
         retry, adjust_metadata = results[self.coordinator_id]
 
         if adjust_metadata:
-- 
2.43.0


From e8158494522804031562e1810096c901b9a7cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 16/35] fix: a bootstrap host failing to answer kept the other
 hosts from being tried

---
 kiel/cluster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index e399be3..89e2e5a 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -92,6 +92,7 @@ class Cluster(object):
 
             try:
                 yield conn.connect()
+                response = yield conn.send(metadata.MetadataRequest(topics=[]))
             except (iostream.StreamClosedError, BrokerConnectionError):
                 log.warn("Could not connect to bootstrap %s:%s", host, port)
                 continue
@@ -99,8 +100,6 @@ class Cluster(object):
                 log.exception("Error connecting to bootstrap host '%s'", host)
                 continue
 
-            response = yield conn.send(metadata.MetadataRequest(topics=[]))
-
             conn.close()
             break
 
-- 
2.43.0


From c99f873ea49cdbe203420506ae4ceb52fba443b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 17/35] fix: healing with missing topics forgot every other
 topic

---
 kiel/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 89e2e5a..8f1528c 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -138,7 +138,8 @@ class Cluster(object):
         missing_topics = self.process_topics(response.topics)
 
         while missing_conns or missing_topics:
-            response = yield self.get_metadata(topics=list(missing_topics))
+            # metadata of a subset would replace what is known of other topics
+            response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
-- 
2.43.0


From 8695f525cd50bc95e70cb2e016dffdba61064f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 18/35] fix: an unexpected error of one broker kept metadata
 from being had of others

---
 kiel/cluster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 8f1528c..2508eae 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -157,7 +157,7 @@ class Cluster(object):
             topics = []
 
         response = None
-        for conn in self.conns.values():
+        for conn in list(self.conns.values()):
             try:
                 response = yield conn.send(
                     metadata.MetadataRequest(topics=topics)
@@ -165,6 +165,9 @@ class Cluster(object):
                 break
             except (iostream.StreamClosedError, BrokerConnectionError):
                 continue
+            except Exception:
+                log.exception("Error getting metadata from a broker")
+                continue
 
         if not response:
             raise NoBrokersError
-- 
2.43.0


From e8cda0acdd64d4f1f51bf8e92a7eab0afde05cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 19/35] fix: flush lost all drained messages when a topic had
 no known partitions

---
 kiel/clients/producer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 03e8dc6..fabe2c6 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -150,6 +150,9 @@ class Producer(Client):
         to_retry = collections.defaultdict(list)
 
         for topic, msgs in drain(self.unsent):
+            if not self.cluster.topics.get(topic):
+                to_retry[topic].extend(msgs)
+                continue
             for msg in msgs:
                 partition = self.partitioner(
                     msg.key, self.cluster.topics[topic]
-- 
2.43.0


From a7d4c5a5a60fb10a9c06a1f48d2bde84338d547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 20/35] fix: coordinator discovery raised KeyError for a broker
 dropped meanwhile

---
 kiel/clients/grouped.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index d6b2784..a956347 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -111,6 +111,9 @@ class GroupedConsumer(BaseConsumer):
             if not broker_ids:
                 raise exc.NoBrokersError
             for broker_id in broker_ids:
+                if broker_id not in self.cluster:
+                    # dropped by a heal since the round was started
+                    continue
                 results = yield self.send({broker_id: request})
                 determined = results.get(broker_id, False)
                 if determined:
-- 
2.43.0


From acdf3a758258e89ea3ffaf17590cc685f444aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 21/35] fix: a coordinator no longer in the cluster raised
 KeyError

---
 kiel/clients/grouped.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index a956347..148ea8b 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -167,6 +167,8 @@ class GroupedConsumer(BaseConsumer):
 
         retry = True
         while retry:
+            if self.coordinator_id not in self.cluster:
+                raise exc.NoOffsetsError
             result = yield self.send({self.coordinator_id: request})
             if self.coordinator_id not in result:
                 raise exc.NoOffsetsError
@@ -245,6 +247,9 @@ class GroupedConsumer(BaseConsumer):
             ]
         )
 
+        if self.coordinator_id not in self.cluster:
+            # no coordinator, the topics stay marked for the next commit
+            return
         results = yield self.send({self.coordinator_id: request})
         if self.coordinator_id not in results:
             # no answer, the topics stay marked for the next commit
-- 
2.43.0


From 0662e4ed30f0bdf87bc116b4da64b2d2879774d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 22/35] fix: consuming an unallocated topic raised KeyError
 with plain dict allocations

---
 kiel/clients/grouped.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 148ea8b..9e1901d 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -160,7 +160,8 @@ class GroupedConsumer(BaseConsumer):
             group_name=self.group_name,
             topics=[
                 offset_fetch.TopicRequest(
-                    name=topic, partitions=list(self.allocation[topic])
+                    name=topic,
+                    partitions=list(self.allocation.get(topic, []))
                 )
             ]
         )
-- 
2.43.0


From 2f93e763aa6fe2ab4f11410759314bbdd03f0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 23/35] fix: overlapping rounds of healing raised KeyError for
 a connection already removed

---
 kiel/cluster.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 2508eae..79a3275 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -184,7 +184,12 @@ class Cluster(object):
         Known connections that are not present in the given metadata will have
         ``abort()`` called on them.
         """
-        to_drop = set(self.conns.keys()) - set([b.broker_id for b in brokers])
+        listed = set([b.broker_id for b in brokers])
+        # kept aside, other rounds of healing may remove them meanwhile
+        to_drop = {
+            broker_id: conn for broker_id, conn in self.conns.items()
+            if broker_id not in listed
+        }
 
         missing = set()
 
@@ -211,8 +216,8 @@ class Cluster(object):
                 missing.add(broker.broker_id)
                 continue
 
-        for broker_id in to_drop:
-            self.conns[broker_id].abort()
+        for conn in to_drop.values():
+            conn.abort()
 
         raise gen.Return(missing)
 
-- 
2.43.0


From 50e77c80a7b15eebe5f9581b7e65ef4a512d1b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 24/35] fix: overlapping rounds of healing left a connection
 open that nothing used

---
 kiel/cluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 79a3275..2b6249a 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -200,7 +200,11 @@ class Cluster(object):
             try:
                 conn = Connection(broker.host, broker.port)
                 yield conn.connect()
-                self.conns[broker.broker_id] = conn
+                if broker.broker_id in self.conns:
+                    # another round of healing was faster
+                    conn.close()
+                else:
+                    self.conns[broker.broker_id] = conn
             except iostream.StreamClosedError:
                 log.warn(
                     "Could not add broker %s (%s:%s)",
-- 
2.43.0


From fc4fce9ed74d8d0183f11f82008d4a6dfa296122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 25/35] fix: a partition without a connected leader made
 consume raise KeyError

---
 kiel/clients/consumer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 0a208da..3f2e154 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -111,7 +111,11 @@ class BaseConsumer(Client):
 
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
+            leader = self.cluster.leaders.get(topic, {}).get(partition_id)
+            if leader not in self.cluster:
+                # left for a later call, when the metadata is up to date
+                self.heal_cluster = True
+                continue
             ordered[leader].append(partition_id)
 
         requests = {}
-- 
2.43.0


From 340f1afc383ede755fcd729c7c4aac6f92a7d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 26/35] fix: asking for offsets during a heal could raise
 KeyError

---
 kiel/clients/single.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 8278949..829a081 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -73,6 +73,9 @@ class SingleConsumer(BaseConsumer):
 
         for partition_id in self.allocation[topic]:
             leader = self.cluster.get_leader(topic, partition_id)
+            if leader not in self.cluster:
+                # removed by a heal in progress, the next call tries again
+                raise NoOffsetsError
             requests[leader].topics[0].partitions.append(
                 offset.PartitionRequest(
                     partition_id=partition_id,
-- 
2.43.0


From 29acf8ca189bd52188fc857f3ea36e9e1d13e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 27/35] fix: an offset response without offsets raised
 IndexError

---
 kiel/clients/single.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 829a081..de180c9 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -107,7 +107,8 @@ class SingleConsumer(BaseConsumer):
         for partition in response.topics[0].partitions:
             code = partition.error_code
             if code == errors.no_error:
-                offset = partition.offsets[0]
+                # a time before the first segment gives no offset at all
+                offset = partition.offsets[0] if partition.offsets else -1
 #                log.debug("offset %d ==> ", self.offsets[topic][partition.partition_id])
                 if offset>=0:
                     self.offsets[topic][partition.partition_id] = offset
-- 
2.43.0


From 31ea0330c992d3499f7f2f80871298c320e4c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 28/35] fix: an offset fetch response without topics raised
 IndexError

---
 kiel/clients/grouped.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 9e1901d..f671937 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -189,6 +189,10 @@ class GroupedConsumer(BaseConsumer):
         """
         retry = False
 
+        if not response.topics:
+            # brokers leave out a topic that has no partitions allocated
+            return retry
+
         topic = response.topics[0].name
         for partition in response.topics[0].partitions:
             code = partition.error_code
-- 
2.43.0


From 160ca36618cb66a5b454bf63bdeb84737b9b5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 29/35] fix: a commit after a rebalance stored positions that
 were never determined

---
 kiel/clients/grouped.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index f671937..03e44de 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -156,6 +156,9 @@ class GroupedConsumer(BaseConsumer):
           signature remains consistent with the other consumer classes.
         """
         log.info("Fetching offsets for consumer group '%s'", self.group_name)
+
+        # the positions are about to be replaced, so nothing to commit of them
+        self.topics_to_commit.discard(topic)
         request = offset_fetch.OffsetFetchRequest(
             group_name=self.group_name,
             topics=[
@@ -249,6 +252,8 @@ class GroupedConsumer(BaseConsumer):
                 )
                 for topic, partition_ids in six.iteritems(self.allocation)
                 if topic in self.topics_to_commit
+                # after a rebalance the positions are not known until then
+                and topic in self.synced_offsets
             ]
         )
 
-- 
2.43.0


From 7d57bae0a8274bcb4ac8792078fe10b31eb1338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 30/35] fix: an allocator that gives only members a share broke
 rebalancing before joining

---
 kiel/zookeeper/allocator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 15144ea..e9b8221 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -66,8 +66,10 @@ class PartitionAllocator(object):
     def allocation(self):
         """
         Property representing the topics allocated for a specific consumer.
+
+        Nothing is allocated as long as it is not among the members.
         """
-        return self.mapping[self.consumer_name]
+        return self.mapping.get(self.consumer_name, {})
 
     @property
     def members_path(self):
-- 
2.43.0


From 4e1337a4195b2c28c9169c26b4c5784679f0e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 31/35] fix: a refresh called for while another send was
 healing got lost

---
 kiel/clients/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index aeff3c1..4c05b7c 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -102,7 +102,12 @@ class Client(object):
             results[int(iterator.current_index)] = result
 
         if self.heal_cluster:
-            yield self.cluster.heal()
+            # cleared first, another send may call for a refresh meanwhile
             self.heal_cluster = False
+            try:
+                yield self.cluster.heal()
+            except Exception:
+                self.heal_cluster = True
+                raise
 
         raise gen.Return(results)
-- 
2.43.0


From f9d7ed8498011b0be11dbb2f9bbd44443c35c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 32/35] fix: a zookeeper connection that could not be started
 blocked for ever

---
 kiel/zookeeper/allocator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index e9b8221..08dd1b2 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -102,6 +102,9 @@ class PartitionAllocator(object):
         attempt = create_attempter(f)
 
         attempt(self.connect)
+        if f.done():
+            # the connection was never started, so it never will be there
+            return f
         wait_on_event(self.connected)
 
         attempt(self.party.start)
-- 
2.43.0


From d50af774bd5d9b70389cc33a8f189b9aab3405ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 33/35] fix: a message with other attribute bits than the
 compression's was taken for a nested set

---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index b3556bb..5fa9f85 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -137,7 +137,7 @@ class MessageSet(object):
                 # ending messages can sometimes be cut off
                 break
 
-            if message.attributes:  # compression involved, set is nested
+            if message.attributes & 0b00000011:  # compressed, set is nested
                 set_size = len(message.value)
                 nested_set, _ = cls.parse(message.value, 0, size=set_size)
                 messages.extend(nested_set.messages)
-- 
2.43.0


From 30009ed3d49c60047be992c2cb51ad901067e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 34/35] fix: several members starting a group's set at once
 failed all but the first of them

---
 kiel/zookeeper/allocator.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 08dd1b2..3d2e4eb 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -3,7 +3,7 @@ import threading
 
 import six
 from tornado import concurrent
-from kazoo import client
+from kazoo import client, exceptions
 
 from kiel.zookeeper import Party, SharedSet
 from kiel.events import wait_on_event
@@ -198,10 +198,13 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(
-                self.partition_path,
-                value=self.shared_set.serialize(self.partitions)
-            )
+            try:
+                self.conn.create(
+                    self.partition_path,
+                    value=self.shared_set.serialize(self.partitions)
+                )
+            except exceptions.NodeExistsError:
+                log.debug("Another member was the first to use the set.")
             return
 
         if new_partitions != self.partitions:
-- 
2.43.0


From 5defa97c3e8772be09dc8215cf5cbc439be85ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 35/35] fix: joining did nothing if another session's node
 vanished while it was taken over

---
 kiel/zookeeper/party.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kiel/zookeeper/party.py b/kiel/zookeeper/party.py
index f92cf6b..529d62a 100644
--- a/kiel/zookeeper/party.py
+++ b/kiel/zookeeper/party.py
@@ -66,6 +66,11 @@ class Party(object):
             txn.create(path, ephemeral=True)
             txn.commit()
 
+            if not self.client.exists(path):
+                # the owner was gone before the transaction, which then failed
+                log.debug("ZNode at %s vanished, creating new one.", path)
+                self.client.create(path, ephemeral=True, makepath=True)
+
     def leave(self):
         """
         Simple method that marks the client as having left the party.
-- 
2.43.0

