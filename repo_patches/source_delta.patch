From 71fa25048382e3b46d64eb50851ec8ffb88348a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 01/13] fix: decode a null array inside a structure as nil
 instead of panicking

---
 decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index b7b436d..ee83740 100644
--- a/decoder.go
+++ b/decoder.go
@@ -566,8 +566,10 @@ func peekObjectStruct(reader *bufio.Reader, offset int, tt reflect.Type) (next i
 		if next < 0 {
 			return
 		}
-		f := o.Elem().Field(i)
-		f.Set(reflect.ValueOf(v))
+		if v != nil {
+			f := o.Elem().Field(i)
+			f.Set(reflect.ValueOf(v))
+		}
 	}
 	obj = o.Elem().Interface()
 	return
-- 
2.43.0


From 44fc36aa9feb27b215dad9f7fee079706c6fed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 02/13] fix: do not allocate by the unverified array length of
 a request

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index ee83740..059cb12 100644
--- a/decoder.go
+++ b/decoder.go
@@ -516,7 +516,7 @@ func kafkaTags(ft reflect.StructField) (nullable, compact bool) {
 func peekObjectFixedArray(reader *bufio.Reader, offset, length int, elem reflect.Type) (next int, obj any) {
 	next = offset
 	if length >= 0 {
-		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, length)
+		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)
 		for i := 0; i < int(length); i++ {
 			var item any
 			next, item = peekObject(reader, next, elem)
-- 
2.43.0


From 252446bcf7f5d42bceaae1e25cf759b949459baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 03/13] fix: fetch answers each partition with its own records

---
 fetch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fetch.go b/fetch.go
index aabbc16..cd7fbbb 100644
--- a/fetch.go
+++ b/fetch.go
@@ -125,15 +125,15 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 	n := 0
 	for _, topic := range request.Topics {
-		fd := fds[n]
-		n++
-
 		fr := &fetchResponse{
 			Topic:      topic.Topic,
 			Partitions: []fetchResponsePartition{},
 		}
 
 		for _, par := range topic.Partitions {
+			fd := fds[n]
+			n++
+
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				HighWatermark:  int64(fd.offset),
-- 
2.43.0


From dd486a4b5307d24d7b2192351803715ca84c75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 04/13] fix: fetch from a negative offset is out of range
 instead of a panic

---
 fetch.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index cd7fbbb..ced7dc4 100644
--- a/fetch.go
+++ b/fetch.go
@@ -80,7 +80,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			if fd.kp != nil {
 				var rec *kafkaRecord
 				fd.kp.lock()
-				if fd.offset < len(fd.kp.Records) {
+				if fd.offset >= 0 && fd.offset < len(fd.kp.Records) {
 					rec = fd.kp.Records[fd.offset]
 				}
 				fd.kp.unlock()
@@ -139,6 +139,9 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 				HighWatermark:  int64(fd.offset),
 				Records:        fd.ms,
 			}
+			if par.FetchOffset < 0 {
+				fp.ErrorCode = int16(OffsetOutOfRange)
+			}
 
 			fr.Partitions = append(fr.Partitions, fp)
 		}
-- 
2.43.0


From 0d6ffe48901970fd939a026534d26c8dbae5dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 05/13] fix: fetch returns instead of spinning when a record
 exceeds the byte limit

---
 fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index ced7dc4..7ced8b8 100644
--- a/fetch.go
+++ b/fetch.go
@@ -86,9 +86,9 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 				fd.kp.unlock()
 
 				if rec != nil {
-					more = true
 					hasOne = true
 					if fd.ms.appendMessage(rec, fd.maxSize) {
+						more = true
 						fd.offset++
 					}
 				}
-- 
2.43.0


From 3d3dd907e17b151975e2adc633595786c34d2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 06/13] fix: v1 message size and crc follow the message format

---
 encoder.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/encoder.go b/encoder.go
index d50ac98..22a8188 100644
--- a/encoder.go
+++ b/encoder.go
@@ -481,7 +481,7 @@ func encodeMessageSetV1(writer *bufio.Writer, ms *messageSetV1) {
 	}
 }
 
-var crcTable *crc32.Table = crc32.MakeTable(crc32.Castagnoli)
+var crcTable *crc32.Table = crc32.MakeTable(crc32.IEEE)
 
 func newMessageSetV1(offset int64) *messageSetV1 {
 	return &messageSetV1{
@@ -499,15 +499,16 @@ func (msv1 *messageSetV1) appendMessage(record *kafkaRecord, maxSize int) bool {
 		Key:        record.Key,
 		Value:      record.Value,
 	}
-	mv1.MessageSize = int32(34 + len(record.Key) + len(record.Value))
+	mv1.MessageSize = int32(22 + len(record.Key) + len(record.Value))
 	mv1.Crc = int32(mv1.crc())
 
-	newSize := msv1.totalSize + int(mv1.MessageSize)
+	// the message size does not count the offset and the size field
+	newSize := msv1.totalSize + 12 + int(mv1.MessageSize)
 	if newSize > maxSize {
 		return false
 	}
 
-	msv1.totalSize += int(mv1.MessageSize)
+	msv1.totalSize = newSize
 	msv1.offset++
 
 	msv1.msgs = append(msv1.msgs, mv1)
-- 
2.43.0


From 9a3f19d4e67e819c94e669b8075a56c7e5c666e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 07/13] fix: accept requests larger than the default buffer
 size

---
 kafka-client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kafka-client.go b/kafka-client.go
index 5e3546b..bbfc079 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -129,7 +129,7 @@ func (kc *kafkaClient) handle() {
 		kc.inbound = kc.inbound[4+msg.Len():]
 
 		kc.requestWg.Add(1)
-		reader := bufio.NewReader(msg)
+		reader := bufio.NewReaderSize(msg, msg.Len())
 		func() {
 			defer kc.requestWg.Done()
 			if err := kc.dispatcher(reader, msg.Len()); err != nil {
-- 
2.43.0


From 74fbd3be9b55f95c108040f1cf229dbc3fac3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 08/13] fix: request size near the 32-bit limit overflows the
 slice bound

---
 inbound-utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inbound-utils.go b/inbound-utils.go
index 46945b8..6d71e9a 100644
--- a/inbound-utils.go
+++ b/inbound-utils.go
@@ -28,7 +28,7 @@ func getMessage(inbound []byte) (buf *bytes.Buffer) {
 		return
 	}
 
-	buf = bytes.NewBuffer(inbound[4 : 4+msgSize])
+	buf = bytes.NewBuffer(inbound[4 : 4+int(msgSize)])
 	return
 }
 
-- 
2.43.0


From 857e91270dff77f3fcf3028c11ced0f531dcbad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 09/13] fix: decode a null array inside an array as nil instead
 of panicking

---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 059cb12..e6c6482 100644
--- a/decoder.go
+++ b/decoder.go
@@ -523,7 +523,11 @@ func peekObjectFixedArray(reader *bufio.Reader, offset, length int, elem reflect
 			if next < 0 {
 				return
 			}
-			a = reflect.Append(a, reflect.ValueOf(item))
+			if item == nil {
+				a = reflect.Append(a, reflect.Zero(elem))
+			} else {
+				a = reflect.Append(a, reflect.ValueOf(item))
+			}
 		}
 		obj = a.Interface()
 	}
-- 
2.43.0


From afe0d89455a33830f7734fb50ff3dad1ac8ba708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 10/13] fix: list offsets reads the records under the partition
 lock

---
 list_offsets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/list_offsets.go b/list_offsets.go
index c1ef01a..a5bb954 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -59,6 +59,7 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 			if kp == nil {
 				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})
 			} else {
+				kp.lock()
 				if p.Timestamp == -1 {
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(kp.Records))})
 				} else if p.Timestamp == -2 {
@@ -82,6 +83,7 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 					}
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: ts, Offset: offset})
 				}
+				kp.unlock()
 			}
 		}
 
-- 
2.43.0


From b0f5cf927fe448e86cce2e4e5fd5c10cac9a02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 11/13] fix: sync group reads topics and partitions under their
 locks

---
 sync_group.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync_group.go b/sync_group.go
index 201ea57..ad2ac71 100644
--- a/sync_group.go
+++ b/sync_group.go
@@ -54,13 +54,18 @@ func syncGroupV0(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 }
 
 func makeMemberAssignment(ds *kafkaDataStore) []byte {
+	ds.mu.Lock()
+	defer ds.mu.Unlock()
+
 	// assign all topics & partitions to this client
 	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
 	for name, topic := range ds.Topics {
+		topic.mu.Lock()
 		pars := make([]int32, 0, len(topic.Partitions))
 		for _, par := range topic.Partitions {
 			pars = append(pars, par.Index)
 		}
+		topic.mu.Unlock()
 
 		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
 	}
-- 
2.43.0


From 24608dbca8f527a6adb3e5555466f0510c55ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 12/13] fix: a disconnect removes its own client from the
 registry

---
 kafka-mock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 449225a..433853b 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -147,15 +147,16 @@ func (km *KafkaMock) run() {
 
 		km.mu.Lock()
 		cxnNumber++
+		cxn := cxnNumber
 		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
 			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
 			km.mu.Lock()
-			delete(km.clients, cxnNumber)
+			delete(km.clients, cxn)
 			km.active.Done()
 			km.wg.Done()
 			km.mu.Unlock()
 		})
-		km.clients[cxnNumber] = kc
+		km.clients[cxn] = kc
 		km.active.Add(1)
 		km.wg.Add(1)
 		km.mu.Unlock()
-- 
2.43.0


From 5cee59a79807e649f446b3a6665e16c2f95f6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 13/13] fix: metadata reports the partitions that exist

---
 metadata.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 898c6f5..dd06310 100644
--- a/metadata.go
+++ b/metadata.go
@@ -48,7 +48,20 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 	topics := make([]topicsV1, 0, len(request.Topics))
 	for _, t := range request.Topics {
-		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}}}})
+		topic := topicsV1{Name: t, Partitions: []partitionV1{}}
+
+		kt := kc.ds.getTopic(t)
+		if kt == nil {
+			topic.ErrorCode = int16(UnknownTopicOrPartition)
+		} else {
+			kt.mu.Lock()
+			for number := range kt.Partitions {
+				topic.Partitions = append(topic.Partitions, partitionV1{PartitionIndex: number, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}})
+			}
+			kt.mu.Unlock()
+		}
+
+		topics = append(topics, topic)
 	}
 
 	response = &metadataResponseV1{
-- 
2.43.0

