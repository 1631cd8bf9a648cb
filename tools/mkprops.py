#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long lines stay readable)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","Fixed-width scalars are big-endian on the wire and round-trip",
 "Every boolean, signed or unsigned 8/16/32/64-bit integer, platform-sized integer that fits 32 bits, 64-bit float and UUID is encoded as exactly its fixed-width big-endian two's-complement bytes (booleans as 0/1, platform-sized integers as 4 bytes). Decoding those bytes with the same type, at any position of a larger buffer, returns the same value (bit for bit) and consumes exactly that many bytes.",
 ["inputs"],"every value of every fixed-width type, at every buffer offset",
 "The tests encode two or three values per type; a byte-order, width or sign error that only shows for other bit patterns (high bit set, values with distinct bytes, negative platform ints) is not sampled.",
 ["encoder.go","decoder.go"],
 [("encodeInt8/16/32/64, encodeUint8/16/32/64, encodeBool, encodeFloat64, encodeUuid","encoder.go"),("peekFixedData and the peekInt*/peekUint*/peekFloat64 readers","decoder.go")],
 observe=["bytes produced by encoding a value","value and next position returned by decoding"])
prop("C02","Variable-length integers are minimal, zigzagged if signed, and round-trip",
 "A 32-/64-bit unsigned varint is encoded as little-endian base-128 groups with continuation bits, in the minimal number of bytes (at most 5/10); signed varints are the same encoding of the zigzag mapping. Decoding returns the original value and consumes exactly the encoding, and an input that ends before the final group (or has more than 5/10 continuation groups) is rejected.",
 ["inputs"],"all 2^32 and 2^64 values, every buffer offset and every truncation point",
 "Eight sample values are tested; group boundaries (2^7, 2^14, ... 2^63), the sign boundary and over-long or cut-off inputs are not.",
 ["encoder.go","decoder.go"],
 [("makeZigzag32/64, makeVarUint/64","encoder.go"),("peekVarUint/64, peekVarInt/64","decoder.go")],
 observe=["bytes produced by encoding","value/next returned by decoding"])
prop("C03","Strings and byte blobs are length-prefixed, keep null distinct, and round-trip",
 "A string of up to 32767 bytes is encoded as its 16-bit length followed by its bytes, a byte blob as its 32-bit length followed by its bytes, and the compact variants as the signed varint of length plus one followed by the bytes; an absent (null) nullable string or blob is encoded as length -1 (compact: 0) and is never confused with an empty one. Decoding with the same nullable type returns the same content or null and consumes exactly the encoding.",
 ["inputs"],"every content and every length up to the format limit, null and empty included, at every buffer offset",
 "Tests use a couple of short ASCII literals; lengths at prefix-width boundaries, empty vs null and non-ASCII content are not covered.",
 ["encoder.go","decoder.go"],
 [("encodeNullableString, encodeCompactNullableString, encodeNullableBytes, encodeCompactNullableBytes","encoder.go"),("peekNullableData16, peekCompactNullableBytes, peekNullableBytes, peekNullableString, peekCompactNullableString","decoder.go")],
 observe=["bytes produced by encoding","value/next returned by decoding"])
prop("C04","Structures and arrays encode field by field in order and round-trip",
 "A structure is encoded as the encodings of its exported fields in declaration order with nothing in between, a pointer to a structure like the structure, and an array as its 32-bit element count followed by the element encodings in order (count -1 for a null array). For every request and response message the mock defines, decoding the encoding yields an equal message, and a message whose array fields are null decodes to null arrays instead of failing.",
 ["inputs"],"every value of every protocol message type: all field values, array lengths (0 and null included) and nesting",
 "One hand-written struct and one response type are tested with short non-null arrays; null arrays inside structures, empty arrays, long arrays and the real request types are not.",
 ["encoder.go","decoder.go","fetch.go","list_offsets.go","metadata.go","offset_commit.go","offset_fetch.go","sync_group.go","join_group.go"],
 [("encodeStruct, encodeArray, encodeObjectWorker dispatch","encoder.go"),("peekObjectStruct, peekObjectVarArray, peekObjectFixedArray, peekObjectWorker dispatch","decoder.go")],
 observe=["bytes produced by encoding a message","object/next returned by decoding"])
prop("C05","Truncated or malformed input is rejected, never crashes or over-reads",
 "Decoding any byte sequence as any supported type either reports failure or returns a position between the starting offset and the end of the data; it never panics and never uses a byte past the end. In particular every strict prefix of a valid encoding is reported as incomplete.",
 ["inputs"],"all byte sequences, all starting offsets, all protocol types, all truncation points",
 "The partial-input tests cut a handful of sample encodings; arbitrary bytes, hostile length fields (negative, huge) and the last cut position are not sampled.",
 ["decoder.go","inbound-utils.go"],
 [("Peek-and-check in every peek* function","decoder.go"),("readRequest","inbound-utils.go")],
 observe=["next position and panic/no panic of a decode"])
prop("C06","Tagged fields are ordered, length-delimited and round-trip",
 "A tag section is the varint count, then for each tag in ascending id order its varint id, the varint byte length of its encoded value and that encoding. Decoding it returns exactly the same ids, with the decoded value for each declared id and the raw bytes, whole and unchanged, for each undeclared one, ending right after the section; a cut-off section is rejected.",
 ["inputs"],"all tag maps (any number of tags, ids, value types and sizes) and any subset of declared ids",
 "Tests use two or three fixed tags with ids 1..3; map iteration order, larger ids and sizes, and mixes of known and unknown tags vary beyond that.",
 ["encoder.go","decoder.go"],
 [("encodeTags","encoder.go"),("peekTags","decoder.go")],
 observe=["bytes produced for a tag map","map/next returned by decoding"])
prop("C07","Requests are cut from the byte stream exactly, once, and in order",
 "However a client's byte stream is split or merged into network reads, the server processes exactly the sequence of size-prefixed requests the stream contains: each one whole, once, in order, with no byte lost, duplicated or moved to a neighbour. An incomplete request is never processed.",
 ["inputs","histories","schedules"],"all byte streams and all segmentations of them into reads (partial headers, several requests per read)",
 "The tests only see the segmentations that a local client happens to produce; a request split inside its size prefix or glued to the next one appears rarely and is not asserted on.",
 ["inbound-utils.go","kafka-client.go"],
 [("getMessage","inbound-utils.go"),("kafkaClient.handle","kafka-client.go")],
 state=[("inbound","bytes received and not yet consumed","kafka-client.go kafkaClient.inbound")],
 observe=["request bodies handed to the dispatcher"])
prop("C08","Every response is framed correctly and answers its own request",
 "For each accepted request exactly one response is written on the same connection: a 32-bit size equal to the number of bytes that follow, the correlation id of that very request, and the complete encoded response body, contiguous and in request order. A request that is rejected produces no response bytes.",
 ["inputs","histories"],"all requests, correlation ids and response sizes",
 "Tests talk through a client library that uses small positive correlation ids and never looks at rejected requests.",
 ["kafka-message.go","kafka-client.go"],
 [("kafkaMessage.send","kafka-message.go"),("kafkaClient.dispatcher","kafka-client.go")],
 observe=["bytes written to the connection per request"])
prop("C09","A request is served by exactly the API and version it names, or rejected",
 "The request header (api key, api version, correlation id, client id) is decoded from the first bytes of a request, and the body goes to the handler registered for exactly that key and version, starting right after the header. A request that names an unsupported key or version, has a truncated header, or has bytes left over after its body is rejected with an error; requests of any size that fits a frame are accepted.",
 ["inputs"],"all header values, client ids, body sizes and trailing bytes",
 "Tests use one client that sends only supported versions, small bodies and no trailing bytes.",
 ["kafka-client.go","api-keys.go","inbound-utils.go"],
 [("kafkaClient.dispatcher","kafka-client.go"),("makeApiKey, apiTable, initializeApis","api-keys.go"),("readRequest","inbound-utils.go")],
 state=[("apiTable","handler per supported key.version","api-keys.go")],
 observe=["which handler runs, with which header and body; error returned"])
prop("C10","Advertised API versions are exactly the ones served",
 "The ApiVersions response lists every API key that has a handler, once, in ascending order, with a minimum and maximum version such that every version in the range is served; nothing else is listed. The answer does not depend on map iteration order or on how often the server was created.",
 ["inputs","configurations"],"every map iteration order and every (key, version) pair",
 "No test looks at the content of the response, and the order of Go map iteration differs from run to run.",
 ["api-keys.go","api_versions.go"],
 [("initializeApis","api-keys.go"),("apiVersionsV0","api_versions.go")],
 state=[("apiVersions","min/max version per key","api-keys.go")],
 observe=["ApiVersions response body; outcome of a request for each key and version"])
prop("C11","Posting appends exactly one record and disturbs nothing else",
 "Posting to a topic partition creates them if needed and appends exactly one record, with the given key, value and timestamp (millisecond precision), at the end of that partition's log; creating topics or partitions that already exist changes nothing. Existing records never change, move or disappear, and other partitions, topics and committed offsets are unaffected, also under concurrent use and across a server restart.",
 ["inputs","histories","schedules"],"all sequences and interleavings of posts, creations and client requests",
 "Tests post to one topic and one partition and read it back; re-creation, several partitions, nil/empty keys and interleavings with requests are not examined.",
 ["datastore.go","kafka-mock.go"],
 [("postRecord, createTopic, createPartition","datastore.go"),("SimplePost, ExtendedPost, CreatePartitionTopics","kafka-mock.go")],
 state=[("Records","append-only log of a partition","datastore.go kafkaPartition"),("Topics/Partitions","monotonically growing maps","datastore.go")],
 observe=["records delivered by Fetch, offsets reported by ListOffsets"])
prop("C12","Fetch returns the contiguous records from the requested offset, per partition",
 "For each requested partition, in request order, the response carries under that partition's own number the records stored in it from the requested offset on: consecutive offsets, no gap, duplicate or record of another partition, each with its stored key, value and timestamp, and together no larger than the partition's byte limit. The reported high watermark is not below the offset after the last returned record and not beyond the end of the log (or the requested offset, if larger); an offset below the log start returns no records and is flagged as out of range.",
 ["inputs","histories","schedules"],"all logs, requested topics/partitions (including none, unknown and several), offsets, byte limits, and posts that happen while the fetch waits",
 "Tests fetch one partition of one topic with large limits through a client that only asks for valid offsets.",
 ["fetch.go","encoder.go","datastore.go"],
 [("fetchV2","fetch.go"),("messageSetV1.appendMessage","encoder.go")],
 observe=["Fetch response"])
prop("C13","Fetch finishes when data, limits, time or shutdown say so",
 "While a fetch polls, every pass over the partitions either adds at least one record to the response or is the last one, or is followed by a short sleep; it only sleeps when no requested partition had a record to offer, the maximum wait has not passed, and the client's server is not stopping. So a fetch that found data returns it without waiting, one whose byte limits are reached returns instead of spinning, and one without data returns soon after the maximum wait or the stop request.",
 ["inputs","histories","schedules"],"all logs, limits, wait times, and arrival times of posts and of the stop request",
 "A hang needs a limit that is reached in the middle of a log; the tests that do that never finish at the pinned commit and are therefore not counted.",
 ["fetch.go"],[("polling loop of fetchV2","fetch.go")],
 observe=["number of polling passes and sleeps before the response; time to respond"])
prop("C14","Message sets follow the Kafka v1 message format",
 "The records of a fetched partition are sent as a 32-bit total size followed by messages, where the total equals the bytes of the messages. Each message is offset, size, CRC, magic 1, attributes 0, timestamp, key and value (each length-prefixed, -1 for null), its size field counts exactly the bytes after it, and its CRC is the CRC-32 (IEEE) of everything after the CRC field.",
 ["inputs"],"all records (null, empty and long keys and values, any timestamp and offset) and any number of them",
 "The client library used by the tests ignores the size and CRC fields of v1 messages, so wrong values go unnoticed.",
 ["encoder.go"],[("appendMessage, messageV1.crc, encodeMessageSetV1","encoder.go")],
 observe=["bytes of the record set in a Fetch response"])
prop("C15","ListOffsets reports the earliest, latest and by-time offsets of each partition",
 "For each requested partition, in request order and under its own topic and number: asking for the latest offset returns the log length, asking for the earliest returns 0 with the first record's timestamp (0 if empty), and asking for a time returns the offset just past the last record older than that time (0 if none). An unknown topic or partition is answered with the unknown-topic-or-partition error, and no request changes the store.",
 ["inputs","histories","schedules"],"all logs (including empty and out-of-order timestamps), all request shapes and all timestamps",
 "No test looks at a ListOffsets response; the client only asks for one partition's earliest/latest.",
 ["list_offsets.go"],[("listOffsetsV1","list_offsets.go")],
 observe=["ListOffsets response"])
prop("C16","Committed offsets only move forward, and only for the named group and partition",
 "Committing an offset sets the group's committed offset of that partition to the larger of its previous value (0 if none) and the requested one, and changes nothing else: other groups, partitions and records keep their state. Each requested partition is answered in request order under its own topic and number, with no error if it exists and the unknown-topic-or-partition error if it does not; the administrative setter stores exactly the given offset, backwards included, and ignores unknown partitions.",
 ["inputs","histories","schedules"],"all histories of commits and administrative settings by any number of groups, and all request shapes",
 "Tests commit for one group and one partition; lower commits, several groups or partitions, unknown partitions and concurrent commits are not checked.",
 ["offset_commit.go","kafka-mock.go","datastore.go"],
 [("offsetCommitV2","offset_commit.go"),("SetConsumerGroupOffset","kafka-mock.go")],
 state=[("GroupCommittedOffsets","committed offset per group","datastore.go kafkaPartition")],
 observe=["OffsetCommit response; later OffsetFetch responses"])
prop("C17","OffsetFetch reports each existing requested partition with its committed offset",
 "For each requested topic the response holds every requested partition that exists, under its own topic and number, with the offset most recently in force for the requesting group on that partition (0 if it never committed), no error and no metadata; partitions and topics that do not exist are omitted and nothing that was not requested is reported. Asking never changes what any group will be told later.",
 ["inputs","histories","schedules"],"all stores, groups and request shapes, and all histories of commits before and during the request",
 "The tests' client asks for one partition of one topic and one group only.",
 ["offset_fetch.go","datastore.go"],
 [("offsetFetchV1","offset_fetch.go"),("groupCommittedOffset","datastore.go")],
 observe=["OffsetFetch response"])
prop("C18","A group member is assigned every topic and partition exactly once",
 "The SyncGroup response assigns to the requesting member every partition of every topic that exists, each exactly once and under its own topic, in the consumer protocol's assignment encoding (version, topic/partition lists, user data) wrapped as one byte blob. A request that tries to dictate assignments is rejected.",
 ["inputs","histories","schedules"],"all stores (any number of topics and partitions), map iteration orders and concurrent creations",
 "Tests have one topic with one partition.",
 ["sync_group.go"],[("syncGroupV0, makeMemberAssignment","sync_group.go")],
 observe=["SyncGroup response"])
prop("C19","Shared state is only touched under its lock, and locks are never leaked",
 "Every access to the topic map, a topic's partition map, a partition's records and committed offsets, and the server's client registry happens while the lock that protects it is held; no operation acquires a lock it already holds, acquires locks against the order store, topic, partition, or returns (normally or with an error) with a lock still held.",
 ["schedules","inputs","histories"],"all interleavings of posting, administration and client requests",
 "The tests run without the race detector and with one client at a time; a missing lock shows only under an unlucky interleaving (as lost records or a fatal concurrent map access).",
 ["datastore.go","kafka-mock.go","fetch.go","list_offsets.go","offset_commit.go","offset_fetch.go","sync_group.go","metadata.go"],
 [("mu of kafkaDataStore, kafkaTopic, kafkaPartition, KafkaMock","datastore.go, kafka-mock.go")],
 state=[("mu","lock per store, topic, partition and server","datastore.go, kafka-mock.go")],
 observe=["race detector reports, deadlocks, fatal concurrent map errors"])
prop("C20","Metadata and coordinator answers lead clients back to this server",
 "The metadata response names one broker at localhost and the port the server listens on, and answers each requested topic once, in request order: an existing topic with exactly its existing partitions, each led by that broker, and an unknown topic with the unknown-topic-or-partition error. The coordinator response names the same broker, host and port, and heartbeat, join-group and leave-group requests are answered without error.",
 ["inputs","configurations"],"all ports, topic lists and stores",
 "Tests use one port and one topic whose only partition has a fixed number.",
 ["metadata.go","find_coordinator.go","heartbeat.go","join_group.go","leave_group.go"],
 [("metadataV1","metadata.go"),("findCoordinatorV0","find_coordinator.go"),("heartbeatV0, joinGroupV1, leaveGroupV0","heartbeat.go, join_group.go, leave_group.go")],
 observe=["the respective responses"])
prop("C21","Start, stop and restart keep the data and keep clients apart",
 "A server can be started again only after it has stopped; starting it while it runs panics. Stopping is idempotent and works on a server that was never started, and neither starting, stopping nor restarting changes any stored record, partition or committed offset. While it runs, the client registry holds exactly the connections that are still open: a disconnect removes the entry of the connection that ended and no other.",
 ["histories","schedules"],"all call sequences of the lifecycle operations and all connect/disconnect orders",
 "Tests run start-stop once and a single restart; connections that end in a different order than they began are not examined.",
 ["kafka-mock.go","kafka-client.go"],
 [("Start, RequestStop, WaitForTermination, Restart, run and its disconnect callback","kafka-mock.go")],
 state=[("started/stopped","lifecycle flags","kafka-mock.go"),("clients","registry of live connections","kafka-mock.go")],
 observe=["panics, registry content, records readable after restart"])
prop("C22","Stopping terminates: every server and client task ends after a stop request",
 "After a stop request the listener, every client task and every blocked fetch end, and waiting for termination returns.",
 ["schedules","histories"],"all schedules and connection states at the time of the stop request",
 "Tests stop idle servers or servers with one client.",
 ["kafka-mock.go","kafka-client.go","fetch.go"],[("RequestStop, WaitForTermination, handle","kafka-mock.go, kafka-client.go")],
 observe=["WaitForTermination returns"])
with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
print(len(P))
