From 1ed2d401a5144755b415228a354a6bfd2609b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 01/57] fix: do not restart the ArqLayer reset handshake on a
 repeated reset response

When resets and data cross, a peer may see the reset response (ack and reset in one frame) twice.
The second one was handled as another reset, which made both peers reset each other endlessly.
---
 src/protocol.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index f3d4606..e062e78 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -515,11 +515,14 @@ void ArqLayer::decode(void* buffer, size_t len)
 	size_t resplen = 0;
 	bool do_transmit = false;
 	bool do_decode = false;
+	bool acked = false;
 
 	while(len > 0) {
 		uint8_t hdr = buffer_[0];
 
 		if(hdr & AckFlag) {
+			acked = true;
+
 			if(waitingForAck()
 			   && (hdr & SeqMask) == ((uint8_t)(*m_encodeQueue.front())[0] & SeqMask)) {
 				// They got our last transmission.
@@ -549,7 +552,9 @@ void ArqLayer::decode(void* buffer, size_t len)
 			do_transmit = true; // Send out next message.
 			buffer_++;
 			len--;
-		} else if((hdr & SeqMask) == 0) {
+		} else if(
+			(hdr & SeqMask) == 0
+			&& !(acked && !reconnect && m_recvSeq == nextSeq(0))) {
 			// This is an unexpected reset message. Reset communication.
 			event(EventReconnect);
 
@@ -583,7 +588,8 @@ void ArqLayer::decode(void* buffer, size_t len)
 			buffer_++;
 			len--;
 		} else if(nextSeq((uint8_t)(hdr & SeqMask)) == m_recvSeq) {
-			// This is a retransmit of the previous message.
+			// This is a retransmit of the previous message. It may also be the reset
+			// response (an ack and the reset) to our reset, which we did process already.
 			// Send ack again.
 			// NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
 			resp[resplen++] = (uint8_t)((uint8_t)(hdr & SeqMask) | AckFlag);
-- 
2.43.0


From ec536c0b08d922ee4a4872c7893ff8e66228675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 02/57] fix: let ArqLayer recover when its reset was
 acknowledged by a previous session

When the response to an earlier reset was still on the line while this side restarted, it was taken as
the ack of the new reset.  The other side remained unaware of the reset, and both sides dropped all
messages of the other forever.
---
 include/libstored/protocol.h |  1 +
 src/protocol.cpp             | 49 ++++++++++++++++++++++--------------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/include/libstored/protocol.h b/include/libstored/protocol.h
index 1a28795..f8e996b 100644
--- a/include/libstored/protocol.h
+++ b/include/libstored/protocol.h
@@ -628,6 +628,7 @@ protected:
 	static uint8_t nextSeq(uint8_t seq);
 
 	void popEncodeQueue();
+	void pushReset();
 	void pushEncodeQueue(void const* buffer, size_t len, bool back = true);
 	String::type& pushEncodeQueueRaw(bool back = true);
 
diff --git a/src/protocol.cpp b/src/protocol.cpp
index e062e78..41b1d0e 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -564,25 +564,8 @@ void ArqLayer::decode(void* buffer, size_t len)
 			resp[resplen++] = (uint8_t)AckFlag;
 
 			// Also reset our send seq.
-			if(!reconnect
-			   && (m_encodeQueueSize == 0
-			       || (*m_encodeQueue.front())[0] != (char)NopFlag)) {
-				// Inject reset message in queue.
-				String::type& s = pushEncodeQueueRaw(false);
-				s.push_back((char)NopFlag);
-				m_encodeQueueSize++;
-				m_sendSeq = nextSeq(0);
-
-				// Reencode existing outbound messages.
-				for(Deque<String::type*>::type::iterator it =
-					    ++m_encodeQueue.begin();
-				    it != m_encodeQueue.end(); ++it) {
-					(**it)[0] = (char)((uint8_t)((uint8_t)(**it)[0]
-								     & (uint8_t)~SeqMask)
-							   | m_sendSeq);
-					m_sendSeq = nextSeq(m_sendSeq);
-				}
-			}
+			if(!reconnect)
+				pushReset();
 
 			do_transmit = true;
 			buffer_++;
@@ -605,6 +588,12 @@ void ArqLayer::decode(void* buffer, size_t len)
 			// Drop.
 			len = 0;
 			do_transmit = true;
+
+			if(m_recvSeq == 0) {
+				// We are still waiting for the peer's reset, but it is not aware of
+				// ours (anymore). Send (another) one.
+				pushReset();
+			}
 		}
 
 		if(do_decode) {
@@ -856,6 +845,28 @@ void ArqLayer::popEncodeQueue()
 	m_encodeQueue.pop_front();
 }
 
+/*!
+ * \brief Inject a reset message in front of the encode queue, if it is not there yet.
+ */
+void ArqLayer::pushReset()
+{
+	if(!m_encodeQueue.empty() && (*m_encodeQueue.front())[0] == (char)NopFlag)
+		return;
+
+	String::type& s = pushEncodeQueueRaw(false);
+	s.push_back((char)NopFlag);
+	m_encodeQueueSize++;
+	m_sendSeq = nextSeq(0);
+
+	// Reencode existing outbound messages.
+	for(Deque<String::type*>::type::iterator it = ++m_encodeQueue.begin();
+	    it != m_encodeQueue.end(); ++it) {
+		(**it)[0] =
+			(char)((uint8_t)((uint8_t)(**it)[0] & (uint8_t)~SeqMask) | m_sendSeq);
+		m_sendSeq = nextSeq(m_sendSeq);
+	}
+}
+
 /*!
  * \brief Push the given buffer into the encode queue.
  */
-- 
2.43.0


From 1ca3a196e202062465372ec9b655811c4f8b1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 03/57] fix: start every CompressLayer message with clean
 encoder/decoder state

The decoder kept its history and padding bits of the previous message, such
that a next message could be decompressed wrongly. reset() did not drop a
partially encoded message. An empty message was dropped.
---
 include/libstored/compress.h |  1 +
 src/compress.cpp             | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/libstored/compress.h b/include/libstored/compress.h
index 7b77792..22a71c4 100644
--- a/include/libstored/compress.h
+++ b/include/libstored/compress.h
@@ -64,6 +64,7 @@ public:
 	using base::encode;
 #		endif
 	virtual size_t mtu() const override;
+	virtual void reset() override;
 
 	void setPurgeableResponse(bool purgeable = true) final
 	{
diff --git a/src/compress.cpp b/src/compress.cpp
index 162648d..f785d1c 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -56,12 +56,28 @@ CompressLayer::~CompressLayer()
 		heatshrink_decoder_free(&decoder());
 }
 
+void CompressLayer::reset()
+{
+	if(m_encoder)
+		heatshrink_encoder_reset(&encoder());
+
+	if(m_decoder)
+		heatshrink_decoder_reset(&decoder());
+
+	m_decodeBufferSize = 0;
+	m_state = 0;
+	base::reset();
+}
+
 void CompressLayer::decode(void* buffer, size_t len)
 {
 	stored_assert(len == 0 || buffer);
 
-	if(!buffer || !len)
+	if(!buffer || !len) {
+		// An empty message does not generate any compressed data.
+		base::decode(buffer, 0);
 		return;
+	}
 
 	if(unlikely(!m_decoder)) {
 		m_decoder = heatshrink_decoder_alloc(DecodeInputBuffer, Window, Lookahead);
@@ -78,6 +94,10 @@ void CompressLayer::decode(void* buffer, size_t len)
 
 	m_decodeBufferSize = 0;
 
+	// Every message is a complete compressed stream. Drop the state (history,
+	// padding bits) of the previous one.
+	heatshrink_decoder_reset(&decoder());
+
 	uint8_t* in_buf = static_cast<uint8_t*>(buffer);
 	while(len > 0) {
 		size_t sunk = 0;
-- 
2.43.0


From dd4ad63ebf98f7889b6ea451161223c7fcd34742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 04/57] fix: do not exceed a lower MTU of 257 bytes in
 Crc16Layer

---
 src/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 41b1d0e..1bde38e 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1457,7 +1457,7 @@ uint16_t Crc16Layer::compute(uint8_t input, uint16_t crc)
 size_t Crc16Layer::mtu() const
 {
 	size_t mtu = base::mtu();
-	if(mtu == 0 || mtu > 256U)
+	if(mtu == 0 || mtu > 257U)
 		return 256U;
 	if(mtu <= 3U)
 		return 1U;
-- 
2.43.0


From 9596ef8b8204d05aa69ab14d59773e87a5c94df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 05/57] fix: recognize a TerminalLayer start of frame when
 split or preceded by ESC

When the start sequence was split over two buffers, the ESC was passed as
non-debug data. When the frame was preceded by another ESC, the frame was not
recognized.
---
 src/protocol.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 1bde38e..a904da5 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -239,14 +239,23 @@ void TerminalLayer::decode(void* buffer, size_t len)
 			break;
 		case StateNormalEsc:
 			if(likely(c == EscStart)) {
-				if(i - nonDebugOffset > 1U)
+				if(i > nonDebugOffset + 1U)
 					nonDebugDecode(
 						static_cast<char*>(buffer) + nonDebugOffset,
 						i - nonDebugOffset - 1); // Also skip the ESC
 				m_decodeState = StateDebug;
 				nonDebugOffset = len;
-			} else
-				m_decodeState = StateNormal;
+			} else {
+				if(i == 0) {
+					// The ESC was in the previous buffer, but it did not start a
+					// frame.
+					char esc = Esc;
+					nonDebugDecode(&esc, 1);
+				}
+				if(c != Esc)
+					m_decodeState = StateNormal;
+				// else: this ESC may still start a frame.
+			}
 			break;
 		case StateDebug:
 			if(unlikely(c == Esc))
@@ -269,6 +278,10 @@ void TerminalLayer::decode(void* buffer, size_t len)
 		}
 	}
 
+	if(len > 0 && m_decodeState == StateNormalEsc)
+		// Keep the ESC till we know if it is the start of a frame.
+		len--;
+
 	if(nonDebugOffset < len)
 		nonDebugDecode(static_cast<char*>(buffer) + nonDebugOffset, len - nonDebugOffset);
 }
-- 
2.43.0


From 134aab0c3a4732f8b070c95984a7f0ceabbf0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 06/57] fix: drop partially received messages upon reconnect in
 SegmentationLayer

When a client resets the DebugArqLayer halfway a segmented request, the first
segments were merged with the next request.
---
 include/libstored/protocol.h | 1 +
 src/protocol.cpp             | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/libstored/protocol.h b/include/libstored/protocol.h
index f8e996b..2fc6200 100644
--- a/include/libstored/protocol.h
+++ b/include/libstored/protocol.h
@@ -448,6 +448,7 @@ public:
 	size_t mtu() const final;
 	size_t lowerMtu() const;
 	virtual void reset() override;
+	virtual void connected() override;
 
 private:
 	size_t m_mtu;
diff --git a/src/protocol.cpp b/src/protocol.cpp
index a904da5..6607744 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -373,6 +373,13 @@ void SegmentationLayer::reset()
 	base::reset();
 }
 
+void SegmentationLayer::connected()
+{
+	// The remainder of a partially received message is not going to arrive.
+	m_decode.clear();
+	base::connected();
+}
+
 size_t SegmentationLayer::mtu() const
 {
 	// We segment, so all layers above can use any size they want.
@@ -1014,6 +1021,8 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 		uint8_t ack = ResetFlag;
 		base::encode(&ack, sizeof(ack), true);
 		m_encodeSeqReset = false;
+		// Let the layers above drop a partially received request.
+		connected();
 	}
 
 	switch(m_decodeState) {
-- 
2.43.0


From 8b10958fe2d10528b8a2b5f57733d401776dd622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 07/57] fix: accept the next request while waiting for a
 retransmit in DebugArqLayer

When the last segment of a retransmitted request is lost, but the client
received the (late) response, all subsequent requests were ignored.
---
 src/protocol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 6607744..5eb8dcc 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1027,6 +1027,7 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 
 	switch(m_decodeState) {
 	case DecodeStateDecoded:
+	case DecodeStateRetransmit:
 		stored_assert(
 			m_encodeState == EncodeStateIdle
 			|| m_encodeState == EncodeStateUnbufferedIdle);
@@ -1040,8 +1041,7 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 			setPurgeableResponse(false);
 			break;
 		}
-		STORED_FALLTHROUGH
-	case DecodeStateRetransmit:
+
 		if(seq == m_decodeSeqStart) {
 			// This seems to be a retransmit of the current command.
 			switch(m_encodeState) {
-- 
2.43.0


From 8fec11b356351ebd6d1c07dd6f11a6d50d904772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 08/57] fix: let StoreJournal use 32-bit keys for stores of 64
 KiB up to 16 MiB

keySize() is 3 for these sizes, for which no codec was selected: it asserted,
or used 8-bit keys for all variables when assertions are disabled.
---
 src/synchronizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 57e6691..35a6bef 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -245,6 +245,7 @@ StoreJournal::StoreJournal(
 	case 2:
 		m_keyCodec = &impl::keyCodec2;
 		break;
+	case 3:
 	case 4:
 		m_keyCodec = &impl::keyCodec4;
 		break;
-- 
2.43.0


From cfc6615668f9e8dcfe4f8acd9c731156cc3867a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 09/57] fix: do not let StoreJournal::clean() forget recent
 changes

The default threshold underflowed as long as the sequence number was below
SeqCleanThreshold, such that all changes were removed, including those that
were not synchronized yet.
---
 src/synchronizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 35a6bef..dad8160 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -518,7 +518,8 @@ void StoreJournal::iterateChanged(
 void StoreJournal::clean(StoreJournal::Seq oldest)
 {
 	if(oldest == 0)
-		oldest = seq() - SeqCleanThreshold;
+		// Prevent underflow, in which case there is nothing to clean up yet.
+		oldest = seq() > SeqCleanThreshold ? seq() - SeqCleanThreshold : 0;
 
 	bool didErase = false;
 	for(size_t i = m_changes.size(); i > 0; i--)
-- 
2.43.0


From fba34c79d0883de7ef3bec4e441edcc92ebfc374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 10/57] fix: keep track of the oldest sequence number in
 StoreJournal

When shifting old changes in time, the lower bound forgot about earlier shifted
changes, which are a bit older. These could then fall out of the short sequence
window, and be considered as recently changed.
---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index dad8160..d6ef621 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -315,7 +315,7 @@ StoreJournal::Seq StoreJournal::bumpSeq(bool force)
 			Seq o_seq = toLong(o.seq);
 			if(m_seq - o_seq > safeRange) {
 				update(o.key, o.len, m_seqLower, 0, m_changes.size());
-				seqLower = m_seqLower;
+				seqLower = std::min(seqLower, m_seqLower);
 			} else
 				seqLower = std::min(seqLower, o_seq);
 		}
-- 
2.43.0


From ff63207b9e056009442defe36b02c0c922ff8ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:09 +0000
Subject: [PATCH 11/57] fix: pass the full state on when a Synchronizer
 receives a Welcome

When the state of a store is replaced by a Welcome, other Synchronizers that
use this one as the source did not get the variables that were not changed
before. Let them fetch the full state again.
---
 include/libstored/synchronizer.h |  3 +++
 src/synchronizer.cpp             | 37 ++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index a55fd96..fe86654 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -555,6 +555,7 @@ public:
 
 	void source(StoreJournal& store);
 	void drop(StoreJournal& store);
+	void resync(StoreJournal& store);
 	StoreJournal::Seq process(StoreJournal& store, void* encodeBuffer);
 	void decode(void* buffer, size_t len) override final;
 
@@ -695,6 +696,8 @@ public:
 	bool isSynchronizing(StoreJournal& j) const;
 	bool isSynchronizing(StoreJournal& j, SyncConnection& notOverConnection) const;
 
+	void resync(StoreJournal& j, SyncConnection& notOverConnection);
+
 	/*!
 	 * \brief Return a buffer large enough to encode messages in.
 	 */
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index d6ef621..904b22c 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -943,6 +943,26 @@ void SyncConnection::drop(StoreJournal& store)
 	store.encodeHash(*this, true);
 }
 
+/*!
+ * \brief Drop the given store, if the other party uses us as source.
+ *
+ * The other party will respond with a Hello, to get the full state again.
+ */
+void SyncConnection::resync(StoreJournal& store)
+{
+	StoreMap::const_iterator it = m_store.find(&store);
+	if(it == m_store.end() || it->second.source)
+		return;
+
+	for(IdInMap::iterator itId = m_idIn.begin(); itId != m_idIn.end(); ++itId)
+		if(itId->second == &store) {
+			// If the other party already sent a Hello again, it does not know this
+			// id anymore, and ignores it.
+			bye(itId->first);
+			break;
+		}
+}
+
 /*!
  * \brief Encode a Bye and drop all stores.
  */
@@ -1183,6 +1203,10 @@ void SyncConnection::decode(void* buffer, size_t len)
 
 		si.seq = seq;
 		si.idOut = welcome_id;
+
+		// The full state has been replaced, without knowing which objects have changed.
+		// So, others that use us as the source have to get the full state too.
+		synchronizer().resync(*j->second, *this);
 		break;
 	}
 	case Update: {
@@ -1492,6 +1516,19 @@ StoreJournal::Seq Synchronizer::process(ProtocolLayer& connection, StoreJournal&
 	return 0;
 }
 
+/*!
+ * \brief Let all other parties that use us as source of the given store fetch the full state again.
+ */
+void Synchronizer::resync(StoreJournal& j, SyncConnection& notOverConnection)
+{
+	for(Connections::iterator it = m_connections.begin(); it != m_connections.end(); ++it) {
+		// NOLINTNEXTLINE(cppcoreguidelines-pro-type-static-cast-downcast)
+		SyncConnection* c = static_cast<SyncConnection*>(*it);
+		if(c != &notOverConnection)
+			c->resync(j);
+	}
+}
+
 bool Synchronizer::isSynchronizing(StoreJournal& j) const
 {
 	for(Connections::iterator it = m_connections.begin(); it != m_connections.end(); ++it)
-- 
2.43.0


From bdaaaa084f92815df58e95f522aaa33132b3e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:09 +0000
Subject: [PATCH 12/57] fix: synchronize all changes of a blob that is
 partially written

A partial write of a blob (or string) replaced the length of an earlier, longer
change that was not sent to all connections yet, such that the remainder of the
variable was never synchronized.
---
 src/synchronizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 904b22c..f2bbf76 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -394,7 +394,8 @@ bool StoreJournal::update(
 
 	if(o.key == key) {
 		o.seq = toShort(seq);
-		o.len = (Size)len;
+		// Never shrink, as the previous (longer) change may not have been encoded yet.
+		o.len = std::max(o.len, (Size)len);
 		return true;
 	} else if(key < o.key)
 		return update(key, len, seq, lower, pivot);
-- 
2.43.0


From 8ed779b7955114513986d85e796677a9ecbb32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:29 +0000
Subject: [PATCH 13/57] fix: complete the Bye message upon a SyncConnection
 reset

The Bye was not marked as the end of the message, so it was merged with the
first message that followed.
---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index f2bbf76..ab1ca7a 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -840,7 +840,7 @@ SyncConnection::~SyncConnection()
 
 void SyncConnection::reset()
 {
-	encodeCmd(Bye);
+	encodeCmd(Bye, true);
 	flush();
 	dropNonSources();
 	base::reset();
-- 
2.43.0


From c8aa52aecc25246e2230856056c81d40ec4525fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 14/57] fix: find the store by the right id when a Bye with id
 is received

The sender of the Bye refers to the id it provided itself, which is the outgoing
id of the receiver. So, the session was not restored, or another one was dropped.
---
 src/synchronizer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index ab1ca7a..6ab7e4b 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1258,14 +1258,16 @@ void SyncConnection::decode(void* buffer, size_t len)
 			if(!id)
 				break;
 
-			IdInMap::iterator it = m_idIn.find(id);
-			if(it == m_idIn.end())
+			// The other party dropped its id, which is our outgoing one.
+			StoreMap::iterator it = m_store.begin();
+			while(it != m_store.end() && it->second.idOut != id)
+				++it;
+			if(it == m_store.end())
 				break;
 
-			StoreInfo const& si = m_store[it->second];
-			if(si.source && si.idOut)
+			if(it->second.source)
 				// Hey, we need it!
-				helloAgain(*(it->second));
+				helloAgain(*it->first);
 			else
 				eraseOut(id);
 		} else {
-- 
2.43.0


From 17342a0ae6188a1bec123f43e4b1315a1417bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 15/57] fix: check the key of received updates properly

The key of an update without data was not checked, and the bound check
overflowed for 32-bit keys.
---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 6ab7e4b..31979d4 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -794,7 +794,7 @@ size_t StoreJournal::keySize() const
  */
 void* StoreJournal::keyToBuffer(StoreJournal::Key key, StoreJournal::Size len, bool* ok) const
 {
-	if(ok && len && key + len > bufferSize())
+	if(ok && (key >= bufferSize() || len > bufferSize() - key))
 		*ok = false;
 	return static_cast<char*>(m_buffer) + key;
 }
-- 
2.43.0


From b6937d53feccc05cfdeb0886c5733d4200160bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 16/57] fix: do not apply a Welcome in the wrong direction

The store was already overwritten before the direction was checked.
---
 src/synchronizer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 31979d4..6ec576b 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1189,15 +1189,15 @@ void SyncConnection::decode(void* buffer, size_t len)
 			break;
 		}
 
-		seq = j->second->decodeBuffer(buffer, len);
-		if(!seq) {
+		StoreInfo& si = m_store[j->second];
+		if(!si.source) {
+			// Wrong direction.
 			bye(id);
 			break;
 		}
 
-		StoreInfo& si = m_store[j->second];
-		if(!si.source) {
-			// Wrong direction.
+		seq = j->second->decodeBuffer(buffer, len);
+		if(!seq) {
 			bye(id);
 			break;
 		}
-- 
2.43.0


From 76019381bacfcb69b569326cc557fd471a3a7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:12 +0000
Subject: [PATCH 17/57] fix: do not overflow the encode buffer when received
 updates overlap

A peer can send updates with keys and lengths that overlap. All recorded changes
together can then be larger than MaxMessageSize, for which the encode buffer is
allocated. In that case, send the updates in multiple messages.
---
 include/libstored/synchronizer.h | 19 ++++++++
 src/synchronizer.cpp             | 78 +++++++++++++++++++++++++++++++-
 2 files changed, 96 insertions(+), 1 deletion(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index fe86654..2a4b4c2 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -158,6 +158,8 @@ public:
 	static void encodeHash(ProtocolLayer& p, char const* hash, bool last = false);
 	Seq encodeBuffer(ProtocolLayer& p, bool last = false);
 	Seq encodeUpdates(uint8_t*& buf, Seq sinceSeq);
+	bool encodeUpdates(uint8_t*& buf, size_t len, Seq sinceSeq, Key& from);
+	size_t maxUpdatesSize() const;
 
 	static char const* decodeHash(void*& buffer, size_t& len);
 	Seq decodeBuffer(void*& buffer, size_t& len);
@@ -236,6 +238,8 @@ private:
 	// no auto-remove objects (manual cleanup call required)
 	typedef Vector<ObjectInfo>::type Changes;
 	Changes m_changes;
+	// sum of the lengths of all m_changes
+	size_t m_changesLen;
 };
 
 /*!
@@ -582,6 +586,11 @@ protected:
 	void helloAgain(StoreJournal& store);
 
 private:
+	enum {
+		// cmd and id of an Update
+		MaxUpdateHeader = 1 + sizeof(Id)
+	};
+
 	Synchronizer* m_synchronizer;
 
 	struct StoreInfo {
@@ -598,6 +607,8 @@ private:
 		bool source;
 	};
 
+	StoreJournal::Seq processInParts(StoreJournal& store, StoreInfo& si, void* encodeBuffer);
+
 	typedef Map<StoreJournal*, StoreInfo>::type StoreMap;
 	StoreMap m_store;
 
@@ -706,6 +717,14 @@ public:
 		return m_encodeBuffer.data();
 	}
 
+	/*!
+	 * \brief Return the size of #encodeBuffer().
+	 */
+	size_t encodeBufferSize() const
+	{
+		return m_encodeBuffer.size();
+	}
+
 protected:
 	SyncConnection* toConnection(ProtocolLayer& connection) const;
 
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 6ec576b..9a7af11 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -228,6 +228,7 @@ StoreJournal::StoreJournal(
 	, m_seqLower()
 	, m_partialSeq()
 	, m_callback(callback && callback->doHooks() ? callback : nullptr)
+	, m_changesLen()
 {
 	// Size is 32 bit, where size_t might be 64. But I guess that the
 	// store is never >4G in size...
@@ -372,6 +373,7 @@ void StoreJournal::changed(StoreJournal::Key key, size_t len, bool insertIfNew)
 #else
 		m_changes.push_back(ObjectInfo(key, (Size)len, toShort(seq())));
 #endif
+		m_changesLen += (Size)len;
 		regenerate();
 	}
 }
@@ -395,7 +397,10 @@ bool StoreJournal::update(
 	if(o.key == key) {
 		o.seq = toShort(seq);
 		// Never shrink, as the previous (longer) change may not have been encoded yet.
-		o.len = std::max(o.len, (Size)len);
+		if((Size)len > o.len) {
+			m_changesLen += (Size)len - o.len;
+			o.len = (Size)len;
+		}
 		return true;
 	} else if(key < o.key)
 		return update(key, len, seq, lower, pivot);
@@ -525,6 +530,7 @@ void StoreJournal::clean(StoreJournal::Seq oldest)
 	bool didErase = false;
 	for(size_t i = m_changes.size(); i > 0; i--)
 		if(toLong(m_changes[i - 1].seq) < oldest) {
+			m_changesLen -= m_changes[i - 1].len;
 			m_changes[i - 1] = m_changes[m_changes.size() - 1];
 			m_changes.pop_back();
 			didErase = true;
@@ -656,6 +662,43 @@ void StoreJournal::encodeUpdates(
 	encodeUpdates(buf, sinceSeq, pivot + 1, upper);
 }
 
+/*!
+ * \brief Encode updates of changed objects since the given update sequence number (inclusive),
+ *	as far as they fit in the given buffer.
+ *
+ * Only objects with a key of at least \p from are considered. When not all of them fit, \p from is
+ * set to the key to continue with.
+ *
+ * \return \c true if all updates are encoded, \c false if there are more
+ */
+bool StoreJournal::encodeUpdates(
+	uint8_t*& buf, size_t len, StoreJournal::Seq sinceSeq, StoreJournal::Key& from)
+{
+	for(Changes::iterator it = m_changes.begin(); it != m_changes.end(); ++it) {
+		if(it->key < from || toLong(it->seq) < sinceSeq)
+			continue;
+
+		size_t const size = 2U * keySize() + it->len;
+		if(size > len) {
+			from = it->key;
+			return false;
+		}
+
+		encodeUpdate(buf, *it);
+		len -= size;
+	}
+
+	return true;
+}
+
+/*!
+ * \brief Return the maximum number of bytes #encodeUpdates() may write.
+ */
+size_t StoreJournal::maxUpdatesSize() const
+{
+	return m_changes.size() * 2U * keySize() + m_changesLen;
+}
+
 /*!
  * \brief Encode one change.
  */
@@ -1096,6 +1139,9 @@ StoreJournal::Seq SyncConnection::process(StoreJournal& store, void* encodeBuffe
 		// No recent changes.
 		return 0;
 
+	if(unlikely(MaxUpdateHeader + store.maxUpdatesSize() > synchronizer().encodeBufferSize()))
+		return processInParts(store, s->second, encodeBuffer);
+
 	uint8_t* encodeBuffer_ = static_cast<uint8_t*>(encodeBuffer);
 	encodeCmd(Update, encodeBuffer_);
 	encodeId(s->second.idOut, encodeBuffer_);
@@ -1107,6 +1153,36 @@ StoreJournal::Seq SyncConnection::process(StoreJournal& store, void* encodeBuffe
 	return res;
 }
 
+/*!
+ * \brief Implementation of #process(), in case all updates may not fit in one message.
+ *
+ * Normally, this does not happen. However, when (invalid) updates have been received of overlapping
+ * objects, all updates together may be larger than the store's MaxMessageSize.
+ */
+StoreJournal::Seq
+SyncConnection::processInParts(StoreJournal& store, StoreInfo& si, void* encodeBuffer)
+{
+	// Make sure to update the administration first; si may be gone after sending a message.
+	Id const id = si.idOut;
+	StoreJournal::Seq const since = si.seq;
+	StoreJournal::Seq const res = si.seq = store.bumpSeq();
+
+	StoreJournal::Key from = 0;
+	bool done = false;
+	while(!done) {
+		uint8_t* encodeBuffer_ = static_cast<uint8_t*>(encodeBuffer);
+		encodeCmd(Update, encodeBuffer_);
+		encodeId(id, encodeBuffer_);
+		done = store.encodeUpdates(
+			encodeBuffer_, synchronizer().encodeBufferSize() - MaxUpdateHeader, since,
+			from);
+		// NOLINTNEXTLINE(cppcoreguidelines-pro-type-cstyle-cast)
+		encode(encodeBuffer, (size_t)((uintptr_t)encodeBuffer_ - (uintptr_t)encodeBuffer));
+	}
+
+	return res;
+}
+
 /*!
  * \brief Decode the command from the buffer.
  * \return the command or \0 on error
-- 
2.43.0


From 4cbfef5e0a1abb2d4df21ac04ee60e35763845e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:48 +0000
Subject: [PATCH 18/57] fix: let SyncConnection handle responses that are
 received while sending

When the protocol stack delivers messages synchronously, like Loopback does, the
response may be received before encode() returns. Then, stores may be added to or
removed from the administration that is being processed.
---
 src/synchronizer.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 9a7af11..a2f182e 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -883,9 +883,10 @@ SyncConnection::~SyncConnection()
 
 void SyncConnection::reset()
 {
+	// Drop first, as the other party may already respond to the Bye with a new Hello.
+	dropNonSources();
 	encodeCmd(Bye, true);
 	flush();
-	dropNonSources();
 	base::reset();
 	helloAgain();
 }
@@ -1241,7 +1242,9 @@ void SyncConnection::decode(void* buffer, size_t len)
 		m_idIn[id] = j;
 		encodeId(id, false);
 
-		si.seq = j->encodeBuffer(*this, true);
+		// Make sure to set the seq before sending, as the response may modify m_store.
+		si.seq = j->bumpSeq();
+		j->encodeBuffer(*this, true);
 		break;
 	}
 	case Welcome: {
@@ -1438,9 +1441,13 @@ again:
  */
 void SyncConnection::helloAgain()
 {
-	for(StoreMap::iterator it = m_store.begin(); it != m_store.end(); ++it)
+	for(StoreMap::iterator it = m_store.begin(); it != m_store.end();) {
+		StoreJournal* j = it->first;
 		if(it->second.source)
-			helloAgain(*it->first);
+			helloAgain(*j);
+		// The response may already be received, so the iterator may be invalid now.
+		it = m_store.upper_bound(j);
+	}
 }
 
 /*!
-- 
2.43.0


From 09bc02a2276f144455e745fb442c3d59d4e0f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 19/57] fix: check if a store is still there after flushing
 changes upon an Update

---
 src/synchronizer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index a2f182e..394c0ed 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1309,16 +1309,20 @@ void SyncConnection::decode(void* buffer, size_t len)
 		StoreJournal& j = *it->second;
 		process(j, synchronizer().encodeBuffer());
 
+		if(m_store.find(&j) == m_store.end())
+			// The other party dropped the store in response.
+			break;
+
 		StoreJournal::Seq seq = 0;
 		bool recordAll = synchronizer().isSynchronizing(j, *this);
-		seq = it->second->decodeUpdates(buffer, len, recordAll, scratch);
+		seq = j.decodeUpdates(buffer, len, recordAll, scratch);
 		if(!seq) {
 			bye(id);
 			break;
 		}
 
-		stored_assert(m_store.find(it->second) != m_store.end());
-		m_store[it->second].seq = seq;
+		stored_assert(m_store.find(&j) != m_store.end());
+		m_store[&j].seq = seq;
 		break;
 	}
 	case Bye: {
-- 
2.43.0


From 86bc147495d7a3674376340cc21b6a3cbac264dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 20/57] fix: do not list objects with the prefix of a previous
 listing

---
 src/directory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/directory.cpp b/src/directory.cpp
index 264c4af..7ec88a4 100644
--- a/src/directory.cpp
+++ b/src/directory.cpp
@@ -96,8 +96,8 @@ void list(
 			(prefix ? strlen(prefix) * 2U : 0U)
 			+ 128U); // Some arbitrary buffer, which should usually be sufficient.
 
-	if(prefix)
-		name = prefix;
+	// Always reset the name, as it is static.
+	name = prefix ? prefix : "";
 
 	list(container, buffer, directory, f, arg, &name);
 }
-- 
2.43.0


From f1772aee9e41496998188427a75f8f7d911ea18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 21/57] fix: write all bytes to consecutive addresses, or
 nothing at all, upon WriteMem

---
 src/debugger.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 2f2888a..c2734f0 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -16,6 +16,8 @@ CLASS_NO_WEAK_VTABLE_DEF(DebugVariantBase)
 CLASS_NO_WEAK_VTABLE_DEF(DebugVariant)
 CLASS_NO_WEAK_VTABLE_DEF(DebugStoreBase)
 
+static uint8_t decodeNibble(char c, bool& ok);
+
 /*!
  * \brief Arguments passed to \c listCmdCallback().
  */
@@ -704,6 +706,13 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			// Odd number of nibbles.
 			goto error;
 
+		// Check all data first, to prevent half a write.
+		bool ok = true;
+		for(size_t i = 0; i < len; i++)
+			decodeNibble(p[i], ok);
+		if(!ok)
+			goto error;
+
 		// Process data in chunks.
 		while(len > 0) {
 			ScratchPad<>::Snapshot chunk_snapshot = spm().snapshot();
@@ -714,7 +723,7 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			if(!decodeHex(Type::Blob, w, wlen))
 				goto error;
 			memcpy(addr, w, wlen);
-			addr += chunk;
+			addr += wlen;
 			p += chunk;
 			len -= chunk;
 		}
-- 
2.43.0


From 5e86680095980579b1c446a1d6a023a858cc9eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 22/57] fix: always send a response when executing a macro
 without commands

---
 src/debugger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index c2734f0..ea5f2be 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -938,6 +938,8 @@ bool Debugger::runMacro(char m, ProtocolLayer& response)
 		return false;
 	case 1:
 		// Expect the separator and at least one char to execute.  Nothing to do.
+		// Still, a response is expected.
+		response.encode();
 		return true;
 	default:;
 		// Go execute.
-- 
2.43.0


From 6127e2205d8e688fbe9e5de561165c3fda50c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 23/57] fix: do not let the debugger write something to a bool
 that is no bool

---
 src/debugger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index ea5f2be..9fbf866 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1106,6 +1106,10 @@ bool Debugger::decodeHex(Type::type type, void const*& data, size_t& len)
 			bin[(len - i - 1) / 2] |= b;
 #endif
 		}
+
+		if((type & ~Type::FlagFunction) == Type::Bool)
+			// Any other value is not a valid bool for the application.
+			bin[0] = bin[0] ? 1 : 0;
 	} else {
 		if(len & 1U)
 			// Bytes must come in pair of nibbles.
-- 
2.43.0


From 5e91716bc9084b63a6ff97f4b2a35f6703931283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 24/57] fix: copy the function's argument in the right
 direction for unaligned access

---
 include/libstored/types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 775fbe6..cc9dea7 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -949,11 +949,11 @@ public:
 			type v;
 
 			if(set) {
+				memcpy(&v, buffer, sizeof(v));
 				container().callback(true, &v, sizeof(v), id());
-				memcpy(buffer, &v, sizeof(v));
 			} else {
-				memcpy(&v, buffer, sizeof(v));
 				container().callback(false, &v, sizeof(v), id());
+				memcpy(buffer, &v, sizeof(v));
 			}
 
 			return sizeof(v);
@@ -1465,11 +1465,11 @@ public:
 			uint64_t v = 0;
 
 			if(set) {
+				memcpy(&v, buffer, size_);
 				container().callback(true, &v, size_, (unsigned int)m_f);
-				memcpy(buffer, &v, size_);
 			} else {
-				memcpy(&v, buffer, size_);
 				container().callback(false, &v, size_, (unsigned int)m_f);
+				memcpy(buffer, &v, size_);
 			}
 
 			return size_;
-- 
2.43.0


From 8ce4683d19c812864715351d37692a8a01f42b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 25/57] fix: drop aliases to a store that is not mapped anymore

---
 include/libstored/debugger.h | 20 ++++++++++++++++++++
 src/debugger.cpp             | 23 +++++++++++++++++++----
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index c126fae..cbde8f2 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -556,6 +556,10 @@ protected:
 		return variant().container();
 	}
 
+	// For contains().
+	template <typename Store>
+	friend class DebugStore;
+
 private:
 	/*!
 	 * \brief The buffer to create the contained #stored::DebugVariantTyped into.
@@ -631,6 +635,15 @@ public:
 	 */
 	virtual void
 	list(ListCallbackArg* f, void* arg = nullptr, char const* prefix = nullptr) const = 0;
+
+	/*!
+	 * \brief Checks if the given variant is an object in this store.
+	 */
+	virtual bool contains(DebugVariant const& variant) const noexcept
+	{
+		STORED_UNUSED(variant)
+		return false;
+	}
 };
 
 /*!
@@ -706,6 +719,11 @@ public:
 		store().list(&listCallback, &args, prefix);
 	}
 
+	bool contains(DebugVariant const& variant) const noexcept final
+	{
+		return variant.container() == static_cast<void*>(&store());
+	}
+
 	/*!
 	 * \brief Returns the store that is wrapped.
 	 */
@@ -780,6 +798,8 @@ protected:
 	void map(DebugStoreBase* store, char const* name);
 
 private:
+	void drop(DebugStoreBase* store);
+
 	/*! \brief The store map. */
 	StoreMap m_map;
 
diff --git a/src/debugger.cpp b/src/debugger.cpp
index 9fbf866..8ea5b87 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -163,8 +163,7 @@ void Debugger::map(DebugStoreBase* store, char const* name)
 		m_map.insert(StoreMap::value_type(name, store));
 	} else {
 		// Replace previous mapping.
-		// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
-		delete it->second;
+		drop(it->second);
 		it->second = store;
 	}
 }
@@ -172,6 +171,8 @@ void Debugger::map(DebugStoreBase* store, char const* name)
 /*!
  * \brief Unmaps a store from this Debugger.
  *
+ * All aliases to objects of the store are removed.
+ *
  * Note that if after unmapping there is only one mapped store left,
  * the prefixes are automatically dropped from all names.
  *
@@ -183,11 +184,25 @@ void Debugger::unmap(char const* name)
 	if(it == m_map.end())
 		return;
 
-	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
-	delete it->second;
+	drop(it->second);
 	m_map.erase(it);
 }
 
+/*!
+ * \brief Drop a mapped store, and all aliases that refer to objects in it.
+ */
+void Debugger::drop(DebugStoreBase* store)
+{
+	for(AliasMap::iterator it = m_aliases.begin(); it != m_aliases.end();)
+		if(store->contains(it->second))
+			m_aliases.erase(it++);
+		else
+			++it;
+
+	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+	delete store;
+}
+
 /*!
  * \brief Returns the mapped stores.
  */
-- 
2.43.0


From 79ce1aba9d6956dfe79d19904c4397359803e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 26/57] fix: do not block a stream when there is nothing to
 flush

---
 include/libstored/debugger.h | 4 ++++
 src/debugger.cpp             | 1 +
 2 files changed, 5 insertions(+)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index cbde8f2..af4c1ee 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -193,6 +193,10 @@ public:
 
 	bool flush() final
 	{
+		if(empty())
+			// There is nothing to flush. Don't block, as nothing will be read.
+			return true;
+
 		m_compress.encode();
 		return m_compress.flush();
 	}
diff --git a/src/debugger.cpp b/src/debugger.cpp
index 8ea5b87..85939c7 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1261,6 +1261,7 @@ Stream<>* Debugger::stream(char s, bool alloc)
 					// Got one.
 					if(!recycle) {
 						recycle = it2->second;
+						recycle->unblock();
 					} else {
 						// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
 						delete it2->second;
-- 
2.43.0


From 21cc227f7f28e1b4d2da1b437a3fd8639db0b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 27/57] fix: do not report data as accepted by a stream that is
 waiting to be read after a flush

---
 include/libstored/debugger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index af4c1ee..36d8576 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -252,7 +252,8 @@ public:
 		more = std::min(more, default_max);
 		size_t size = buffer().size();
 
-		if(size >= default_max)
+		if(blocked() || size >= default_max)
+			// All data would be dropped.
 			return 0;
 
 		return std::min(more, default_max - size);
-- 
2.43.0


From c8eff034c6be8fd1926051e9d39ebbbb898616b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 28/57] fix: do not append a stream to itself when a traced
 macro reads its own trace stream

Without dynamic memory, the stream's buffer is passed to the response directly.
When that response is appended to the same stream, the buffer may be
reallocated while it is being read.
---
 src/debugger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 85939c7..8af10f8 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -788,6 +788,12 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			// have some other strange loop in your program.
 			size_t size = strstr.size();
 			if(size) {
+				// A macro that is being traced cannot read the stream that
+				// its own output is written to.
+				for(ProtocolLayer const* l = &response; l; l = l->down())
+					if(l == static_cast<ProtocolLayer const*>(str))
+						goto error;
+
 				char const* data = strstr.data();
 				response.encode(data, size, false);
 				// cppcheck-suppress[knownConditionTrueFalse,unmatchedSuppression]
-- 
2.43.0


From 74d2546918487c484a92902321348fcf11ba84f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 29/57] fix: allow a reset of the ARQ layer from the event
 callback during decode

The event callback may reset the stack on EventEncodeBufferOverflow, which
usually happens while a response is being encoded during decode().
---
 src/protocol.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 5eb8dcc..8112212 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -640,8 +640,7 @@ void ArqLayer::decode(void* buffer, size_t len)
 		if(didTransmit())
 			do_transmit = true;
 
-		// We do not expect recursion here that influence this flag.
-		stored_assert(m_pauseTransmit);
+		// The flag may have been cleared already by a reset() from the event callback.
 		m_pauseTransmit = false;
 	}
 
-- 
2.43.0


From 2ffde07469f09ae6013c922ed005862c97d83fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 30/57] fix: order the accesses to the elements of a
 thread-safe Fifo

The consumer did not acquire the write pointer, and releasing the read pointer
did not order the reads of the elements. On weakly ordered hardware (or when the
compiler reorders), an element could be read before it was written, or be
overwritten while it is being read.
---
 include/libstored/fifo.h | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 8394645..f35098a 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -494,7 +494,7 @@ public:
 
 	bool empty() const noexcept
 	{
-		return m_wp.load(std::memory_order_relaxed) == m_rp.load(std::memory_order_relaxed);
+		return m_wp.load(acquire()) == m_rp.load(acquire());
 	}
 
 	bool full() const noexcept
@@ -504,15 +504,15 @@ public:
 
 	size_t available() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(acquire());
+		pointer rp = m_rp.load(acquire());
 		return wp >= rp ? wp - rp : wp + m_buffer.size() - rp;
 	}
 
 	size_t available_chunk() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(acquire());
+		pointer rp = m_rp.load(acquire());
 		return wp >= rp ? wp - rp : m_buffer.size() - rp;
 	}
 
@@ -579,7 +579,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(rp, std::memory_order_relaxed);
+			m_rp.store(rp, release());
 		}
 	}
 
@@ -680,7 +680,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(m_wp.load(std::memory_order_relaxed), std::memory_order_relaxed);
+			m_rp.store(m_wp.load(acquire()), release());
 		}
 	}
 
@@ -690,7 +690,7 @@ public:
 	{
 		pointer rp = m_rp.load(
 			ThreadSafe ? std::memory_order_consume : std::memory_order_relaxed);
-		pointer wp = m_wp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(acquire());
 		return View{m_buffer, rp, wp};
 	}
 
@@ -704,6 +704,25 @@ protected:
 		UnboundedMoveThreshold = 64,
 	};
 
+	/*!
+	 * \brief Memory order to load a pointer that may be updated by the other thread.
+	 *
+	 * The elements that were written/released by the other thread before that update, can
+	 * be read/overwritten afterwards.
+	 */
+	static constexpr std::memory_order acquire() noexcept
+	{
+		return ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed;
+	}
+
+	/*!
+	 * \brief Memory order to store a pointer, after accessing the elements.
+	 */
+	static constexpr std::memory_order release() noexcept
+	{
+		return ThreadSafe ? std::memory_order_release : std::memory_order_relaxed;
+	}
+
 	void reserve_back(pointer& wp, pointer& wp_next, size_t count = 1)
 	{
 		stored_assert(space() >= count);
-- 
2.43.0


From fc57d5b2519e5aa86c6e3e2a220a14a7be3c8c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 31/57] fix: handle more elements at once than fit in the
 pointer type of a Fifo

When the capacity is less than 255 elements, the pointers are 8-bit.
Pushing or popping multiple elements at once overflowed the pointer, before it
was wrapped around the end of the buffer.
---
 include/libstored/fifo.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index f35098a..6f05e09 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -569,9 +569,11 @@ public:
 		pointer rp = m_rp.load(std::memory_order_relaxed);
 		stored_assert(count <= available());
 
-		rp = (pointer)(rp + count);
-		if(wp < rp && rp >= m_buffer.size())
-			rp = (pointer)(rp - m_buffer.size());
+		// Note that rp + count may not fit in a pointer.
+		size_t rp_next = (size_t)rp + count;
+		if(wp < rp_next && rp_next >= m_buffer.size())
+			rp_next -= m_buffer.size();
+		rp = (pointer)rp_next;
 
 		if(!bounded() && wp == rp) {
 			// Reset to the start of the buffer, as it became empty.
@@ -732,9 +734,11 @@ protected:
 
 		if(bounded()) {
 			// Bounded buffer. Do wrap-around.
-			wp_next = (pointer)(wp + count);
-			if(wp_next >= m_buffer.size())
-				wp_next = (pointer)(wp_next - m_buffer.size());
+			// Note that wp + count may not fit in a pointer.
+			size_t next = (size_t)wp + count;
+			if(next >= m_buffer.size())
+				next -= m_buffer.size();
+			wp_next = (pointer)next;
 		} else {
 			// Unbounded buffer.
 			stored_assert(!ThreadSafe);
-- 
2.43.0


From a5a7f0931da762c4655999189b5e260ba1415286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 32/57] fix: allow moving the data at the end of an unbounded
 Buffer

The assertions of an unbounded Buffer were off by one. An unbounded Fifo that moves
its elements to the start of the buffer triggered it.
---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 6f05e09..c8a3f6d 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -198,8 +198,8 @@ public:
 	{
 		stored_assert(dst + (pointer)len >= dst);
 		stored_assert(src + (pointer)len >= src);
-		stored_assert((size_t)dst + len < size());
-		stored_assert((size_t)src + len < size());
+		stored_assert((size_t)dst + len <= size());
+		stored_assert((size_t)src + len <= size());
 
 		impl::buffer_move(m_buffer, dst, src, len);
 	}
-- 
2.43.0


From 339026ec599f5346c686c7b6d91ca1eee55c3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 33/57] fix: move all bytes of the elements in an unbounded
 Fifo

Only as many bytes as there are elements were copied of trivially copyable types.
---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index c8a3f6d..0566ff8 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -37,13 +37,13 @@ struct buffer_ops {
 	static void set(B& buffer, pointer p, typename B::value_type const* x, size_t len) noexcept
 	{
 		if(len)
-			memcpy(&buffer[p], x, len);
+			memcpy(&buffer[p], x, len * sizeof(typename B::value_type));
 	}
 
 	static void move(B& buffer, pointer dst, pointer src, size_t len) noexcept
 	{
 		if(len)
-			memmove(&buffer[dst], &buffer[src], len);
+			memmove(&buffer[dst], &buffer[src], len * sizeof(typename B::value_type));
 	}
 };
 
-- 
2.43.0


From 7a47180ed5598efe14d4b24eeca9523781b84e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 34/57] fix: order the accesses to the contents of a
 thread-safe MessageFifo

Releasing the space of a popped message did not order the reads of its contents,
such that it could be overwritten while it is still being read.
---
 include/libstored/fifo.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 0566ff8..bb7c9a6 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -936,7 +936,9 @@ public:
 	void pop_front() noexcept
 	{
 		Msg const& msg = m_msg.front();
-		m_rp.store((buffer_pointer)(msg.first + msg.second), std::memory_order_relaxed);
+		m_rp.store(
+			(buffer_pointer)(msg.first + msg.second),
+			ThreadSafe ? std::memory_order_release : std::memory_order_relaxed);
 		m_msg.pop_front();
 	}
 
@@ -1000,7 +1002,8 @@ public:
 		if(!message.size())
 			return true;
 
-		buffer_pointer rp = m_rp.load(std::memory_order_relaxed);
+		buffer_pointer rp = m_rp.load(
+			ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed);
 		buffer_pointer wp = m_wp.load(std::memory_order_relaxed);
 		buffer_pointer wp_partial = m_wp_partial;
 		stored_assert(wp_partial >= wp);
-- 
2.43.0


From 8394315d60264d25ee08c86477979ffbe86f5ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 35/57] fix: keep track of the used space when popping empty
 messages from a MessageFifo

The position of an empty message may refer to the end of the buffer, or may be outdated
as the pointers are reset when there is no data. Popping it made unread data
being overwritten.
---
 include/libstored/fifo.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index bb7c9a6..b5158de 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -924,21 +924,23 @@ public:
 	const_type front() const noexcept
 	{
 		Msg const& msg = m_msg.front();
-		return const_type{&m_buffer[msg.first], msg.second};
+		return const_type{msg.second ? &m_buffer[msg.first] : nullptr, msg.second};
 	}
 
 	type front() noexcept
 	{
 		Msg& msg = m_msg.front();
-		return type{&m_buffer[msg.first], msg.second};
+		return type{msg.second ? &m_buffer[msg.first] : nullptr, msg.second};
 	}
 
 	void pop_front() noexcept
 	{
 		Msg const& msg = m_msg.front();
-		m_rp.store(
-			(buffer_pointer)(msg.first + msg.second),
-			ThreadSafe ? std::memory_order_release : std::memory_order_relaxed);
+		// An empty message does not occupy any space, and its position may be outdated.
+		if(msg.second)
+			m_rp.store(
+				(buffer_pointer)(msg.first + msg.second),
+				ThreadSafe ? std::memory_order_release : std::memory_order_relaxed);
 		m_msg.pop_front();
 	}
 
-- 
2.43.0


From 0eb481d835b6904c1785c73ae9901f76af3c4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 36/57] fix: make all space available to a partial message when
 the MessageFifo is empty

The start of the buffer was only used when it was already known to be free when the
message was started. A message that fits in the FIFO could be refused forever.
---
 include/libstored/fifo.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index b5158de..e8f3058 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1020,7 +1020,7 @@ public:
 #    endif
 		}
 
-		if(wp == rp && partial == 0) {
+		if(wp == rp && wp > 0) {
 			// Note: Because of race conditions in a threaded
 			// environment, it might be the case that empty() is
 			// not yet true, as pop_front() first updates rp and
@@ -1028,7 +1028,9 @@ public:
 
 			// When empty, the other side ignores the wp/rp, so we
 			// can safely tinker with it.
-			wp = m_wp_partial = wp_partial = 0;
+			m_buffer.move(0, wp, partial);
+			wp = 0;
+			m_wp_partial = wp_partial = (buffer_pointer)partial;
 			rp = 0;
 			m_wp.store(wp, std::memory_order_relaxed);
 			m_rp.store(rp, std::memory_order_relaxed);
-- 
2.43.0


From 31c9457e709c78e1b1768b892263a8e9d2991ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 37/57] fix: drop whole messages when the FifoLoopback is full

When a part of a message did not fit, the other parts were still passed as (part of)
a message.
---
 include/libstored/fifo.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index e8f3058..fa91cf8 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1201,14 +1201,25 @@ public:
 	 */
 	virtual void encode(void const* buffer, size_t len, bool last = true) override
 	{
-		bool res = false;
+		if(!m_drop) {
+			bool res = false;
+
+			do {
+				if(last)
+					res = m_fifo.push_back((char const*)buffer, len);
+				else
+					res = m_fifo.append_back((char const*)buffer, len);
+			} while(!res && overflow());
+
+			if(!res) {
+				// Drop the whole message, including the parts that did fit.
+				m_fifo.reset_back();
+				m_drop = true;
+			}
+		}
 
-		do {
-			if(last)
-				res = m_fifo.push_back((char const*)buffer, len);
-			else
-				res = m_fifo.append_back((char const*)buffer, len);
-		} while(!res && overflow());
+		if(last)
+			m_drop = false;
 
 		base::encode(buffer, len, last);
 	}
@@ -1252,6 +1263,8 @@ public:
 
 	virtual void reset() override
 	{
+		m_fifo.reset_back();
+		m_drop = false;
 		base::reset();
 		setLastError(0);
 	}
@@ -1295,6 +1308,7 @@ public:
 private:
 	Fifo_type m_fifo;
 	Callable<OverflowCallback>::type m_overflowCallback;
+	bool m_drop = false;
 };
 
 /*!
-- 
2.43.0


From 8365b502975ba2488fabbe9304699593a40c2376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 38/57] fix: report an MTU by the FifoLoopback that fits

Messages of the size of the capacity are always refused.
---
 include/libstored/fifo.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index fa91cf8..eabc072 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1271,8 +1271,10 @@ public:
 
 	virtual size_t mtu() const override
 	{
+		// A message that uses the full capacity of the FIFO never fits.
+		constexpr size_t max = Capacity > 1U ? Capacity - 1U : 1U;
 		size_t res = base::mtu();
-		return res ? std::min(Capacity, res) : Capacity;
+		return res ? std::min(max, res) : max;
 	}
 
 	constexpr bool bounded() const noexcept
-- 
2.43.0


From 6438a0813c2f9eaeeeb47fd74a2c5e9fba18dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 39/57] fix: use all space of an empty MessageFifo when the
 partial message is at the start

---
 include/libstored/fifo.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index eabc072..952ee4e 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1020,7 +1020,9 @@ public:
 #    endif
 		}
 
-		if(wp == rp && wp > 0) {
+		// Note that wp is already at the start, but rp may not be, when the
+		// partial message was moved to the start before it became empty.
+		if((wp > 0 || rp > 0) && (wp == rp || m_msg.empty())) {
 			// Note: Because of race conditions in a threaded
 			// environment, it might be the case that empty() is
 			// not yet true, as pop_front() first updates rp and
-- 
2.43.0


From e751c57b79b345c61508bbfdad3b9a6c033a1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 40/57] fix: find a ZeroMQ socket in the Poller by its value

---
 include/libstored/poller.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 7a5c528..8e9cec4 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1169,8 +1169,7 @@ public:
 	struct compare_socket {
 		bool operator()(PollableZmqSocket const& p, void* socket) const
 		{
-			// NOLINTNEXTLINE(bugprone-multi-level-implicit-pointer-conversion)
-			return p.socket == (void*)&socket;
+			return p.socket == socket;
 		}
 	};
 
-- 
2.43.0


From f7417037f87694da9249312de36dbcd9cae4f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 41/57] fix: keep track of a modified source in the Poller

---
 include/libstored/poller.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 8e9cec4..35c69e7 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1250,9 +1250,19 @@ private:
 
 		T* p = static_cast<T*>(*it);
 		stored_assert(p);
-		void* user_data = p->user_data;
-		remove(*p);
-		return add<T, A>(a, user_data, events);
+		int res = remove(*p);
+		if(!res) {
+			p->events = events;
+			res = add(*p);
+		}
+
+		if(res) {
+			delete p; // NOLINT(cppcoreguidelines-owning-memory)
+			*it = m_pollables.back();
+			m_pollables.pop_back();
+		}
+
+		return res;
 	}
 
 	template <typename T, typename A, typename C>
-- 
2.43.0


From 1f616f5b9ae979dd6f087bede55762f9d2f5c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 42/57] fix: keep the sources of the Poller consistent when an
 allocation fails

---
 include/libstored/poller.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 35c69e7..a3911a7 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1230,6 +1230,9 @@ private:
 	template <typename T, typename A>
 	int add(A a, void* user_data, events_t events)
 	{
+		// This may throw, so do this first.
+		m_pollables.reserve(m_pollables.size() + 1U);
+
 		T* p = new T(a, events, user_data); // NOLINT(cppcoreguidelines-owning-memory)
 		int res = add(*p);
 
-- 
2.43.0


From a94ea42aa89ae115def7982b0f85d67878124891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 43/57] fix: block indefinitely on a file when asked for

---
 src/protocol.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 8112212..d588a5c 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1817,7 +1817,9 @@ int PolledFileLayer::block(
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		// Do not truncate -1 us to 0 ms; block indefinitely.
+		Poller::Result const& pres =
+			poller.poll(timeout_us < 0 ? -1 : (int)(timeout_us / 1000L));
 
 		if(pres.empty()) {
 			if(timeout_us <= 0 && errno == EINTR)
@@ -1825,7 +1827,7 @@ int PolledFileLayer::block(
 				continue;
 
 			err = errno;
-			if(!err || timeout_us < 0)
+			if(!err || (timeout_us < 0 && err == EAGAIN))
 				// Should not happen.
 				err = EINVAL;
 			break;
-- 
2.43.0


From f33eaf597219e53d04d8d87082f7247b89fae5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 44/57] fix: do not close a file when a read or write is
 interrupted

---
 src/protocol.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index d588a5c..c849f0a 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -2077,6 +2077,9 @@ done:
 				// We should be able to write more now. Retry.
 				continue;
 			}
+			case EINTR:
+				// Interrupted. Retry.
+				continue;
 			default:
 				goto error;
 			}
@@ -2149,6 +2152,9 @@ again:
 			if(block(fd_r(), true, timeout_us))
 				return lastError();
 
+			goto again;
+		case EINTR:
+			// Interrupted. Retry.
 			goto again;
 		default:
 			close();
-- 
2.43.0


From 0b0027f426924db26a719d73841e195d367502fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 45/57] fix: report the error of a file, rather than what
 closing it leaves in errno

---
 src/protocol.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index c849f0a..9728c6f 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -2098,8 +2098,10 @@ done:
 	goto done;
 
 error:
+	// close() may change errno.
+	int const e = errno;
 	close();
-	setLastError(errno ? errno : EIO);
+	setLastError(e ? e : EIO);
 	goto done;
 }
 
@@ -2156,9 +2158,12 @@ again:
 		case EINTR:
 			// Interrupted. Retry.
 			goto again;
-		default:
+		default: {
+			// close() may change errno.
+			int const e = errno;
 			close();
-			return setLastError(errno);
+			return setLastError(e ? e : EIO);
+		}
 		}
 	} else if(cnt == 0) {
 		// EOF
-- 
2.43.0


From d22d2bfca9e2af0b94cf9196d7b7c42243911dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 46/57] fix: receive carriage returns by the SerialLayer

---
 src/protocol.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 9728c6f..a46125a 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -3772,7 +3772,8 @@ SerialLayer::SerialLayer(
 
 	config.c_iflag &=
 		// NOLINTNEXTLINE(hicpp-signed-bitwise)
-		(tcflag_t) ~(BRKINT | ICRNL | INLCR | PARMRK | INPCK | ISTRIP | IXON | IXOFF);
+		(tcflag_t) ~(BRKINT | ICRNL | IGNCR | INLCR | PARMRK | INPCK | ISTRIP | IXON
+			     | IXOFF);
 	if(xonxoff) {
 		// NOLINTNEXTLINE(hicpp-signed-bitwise)
 		config.c_iflag |= (tcflag_t)(IXON | IXOFF);
-- 
2.43.0


From 776977c94e0c44bbab9e007d09b2dae64dbd646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 47/57] fix: report success of the ZmqLayer when a message was
 sent after blocking

---
 src/zmq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 1de8a22..67ed233 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -296,7 +296,7 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 		// Socket should be writable now. This is a blocking call,
 		// but it should not block anymore.
 		// NOLINTNEXTLINE(cppcoreguidelines-pro-type-cstyle-cast)
-		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) != -1)
+		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) == -1)
 			// Some error.
 			setLastError(errno);
 		else
-- 
2.43.0


From 59366efed1168d07389d668ac6cb40f178c5840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 48/57] fix: block indefinitely on a ZeroMQ socket when asked
 for

---
 src/zmq.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 67ed233..17dbc86 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -134,9 +134,15 @@ int ZmqLayer::block(bool forReading, long timeout_us, bool suspend)
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		// Do not truncate -1 us to 0 ms; block indefinitely.
+		Poller::Result const& pres =
+			poller.poll(timeout_us < 0 ? -1 : (int)(timeout_us / 1000L));
 
 		if(pres.empty()) {
+			if(timeout_us < 0 && errno == EINTR)
+				// Interrupted. Retry.
+				continue;
+
 			err = errno;
 			if(!err) {
 				// Should not happen.
-- 
2.43.0


From b10be4b5b66ce2743048225e494cd49ef9b0bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 49/57] fix: do not send the remainder of a message by the
 ZmqLayer when a part is not sent

---
 include/libstored/zmq.h |  2 ++
 src/zmq.cpp             | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/libstored/zmq.h b/include/libstored/zmq.h
index e4c3a7d..dec14e7 100644
--- a/include/libstored/zmq.h
+++ b/include/libstored/zmq.h
@@ -62,6 +62,8 @@ private:
 	size_t m_bufferCapacity;
 	/*! \brief Allocated size of #m_buffer. */
 	size_t m_bufferSize;
+	/*! \brief Error of an earlier part of the message that is being encoded. */
+	int m_encodeError;
 	/*! \brief The REP socket. */
 	void* m_socket;
 };
diff --git a/src/zmq.cpp b/src/zmq.cpp
index 17dbc86..fc85417 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -41,6 +41,7 @@ ZmqLayer::ZmqLayer(void* context, int type, ProtocolLayer* up, ProtocolLayer* do
 	, m_buffer()
 	, m_bufferCapacity()
 	, m_bufferSize()
+	, m_encodeError()
 	, m_socket(zmq_socket(this->context(), type))
 {
 	if(!m_socket)
@@ -288,6 +289,17 @@ int ZmqLayer::recv(long timeout_us)
  */
 void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 {
+	if(unlikely(m_encodeError)) {
+		// An earlier part of this message was not sent. Drop the remainder.
+		setLastError(m_encodeError);
+
+		if(last)
+			m_encodeError = 0;
+
+		base::encode(buffer, len, last);
+		return;
+	}
+
 	// First try, assume we are writable.
 	// NOLINTNEXTLINE(hicpp-signed-bitwise,cppcoreguidelines-pro-type-cstyle-cast)
 	if(likely(zmq_send(m_socket, (void*)buffer, len, ZMQ_DONTWAIT | (last ? 0 : ZMQ_SNDMORE))
@@ -310,6 +322,9 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 			setLastError(0);
 	}
 
+	if(!last)
+		m_encodeError = lastError();
+
 	base::encode(buffer, len, last);
 }
 
-- 
2.43.0


From 27230d4dc316f6eaf760159b48f6770af7748c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 50/57] fix: drop a message completely when the ZmqLayer cannot
 allocate a buffer for it

---
 src/zmq.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index fc85417..ad0dbfe 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -218,6 +218,12 @@ int ZmqLayer::recv1(long timeout_us)
 			// NOLINTNEXTLINE(cppcoreguidelines-no-malloc,cppcoreguidelines-owning-memory)
 			void* p = realloc(m_buffer, newBufferSize);
 			if(!p) {
+				// Drop the whole message, also the parts that are to be received.
+				m_bufferSize = 0;
+				while(zmq_msg_more(&msg)
+				      && zmq_msg_recv(&msg, m_socket, ZMQ_DONTWAIT) != -1)
+					;
+
 				res = ENOMEM;
 				goto error_buffer;
 			}
-- 
2.43.0


From 48b6b2885d7a04bc3dd951288229556f6076b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 51/57] fix: keep the value when the output of a pipe is moved

---
 include/libstored/pipes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 23d384a..19a957e 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -787,7 +787,7 @@ public:
 	ExitValue(ExitValue&& v) noexcept
 		: m_p{v.m_p}
 	{
-		if(m_p)
+		if(!m_p)
 			new(m_v.data()) type{std::move(v.value())};
 	}
 
-- 
2.43.0


From b35c2bff621288730fd6f3c9f54b38a851e6010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 52/57] fix: determine the MTU of the Python TerminalLayer

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index c6a04df..3900902 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -219,7 +219,7 @@ class TerminalLayer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 0
-        return max(1, m - len(start) - len(end))
+        return max(1, m - len(self.start) - len(self.end))
 
 class PubTerminalLayer(TerminalLayer):
     """
-- 
2.43.0


From 77638741f19d85b346a4a369d8ab539e33f7c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 53/57] fix: report the last activity of a Python ProtocolStack

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index 3900902..0e42124 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -561,7 +561,7 @@ class ProtocolStack(ProtocolLayer):
         return self.Iterator(self)
 
     def lastActivity(self):
-        return self._stack._layers[0].lastActivity()
+        return self._layers[0].lastActivity()
 
 class LoopbackLayer(ProtocolLayer):
     name = 'loop'
-- 
2.43.0


From 9b25fcdf7cfa762aec93b1a815cb142bbfaecb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 54/57] fix: receive a retransmitted response of the first
 request by the Python DebugArqLayer

The response to the reset was taken as the first part of the response to
the request, such that the response was dropped forever when it was lost
once.
---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index 0e42124..db7cc23 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -312,7 +312,7 @@ class DebugArqLayer(ProtocolLayer):
         if data[0] & self.reset_flag:
             self._decode_seq = seq
 
-        if self._req:
+        if self._req and len(msg) > 0:
             # We got a response, so the request should be finished now.
             self._req = False
             # This is the first part of the response.
-- 
2.43.0


From 5181a0068a62dc45c71061ea483d4b6121d86e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 55/57] fix: account for both bytes of the CRC in the MTU of
 the Python Crc16Layer

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index db7cc23..a3978f3 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -507,7 +507,7 @@ class Crc16Layer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 256
-        return min(256, max(1, m - 1))
+        return min(256, max(1, m - 2))
 
 class ProtocolStack(ProtocolLayer):
     name = 'stack'
-- 
2.43.0


From d419db9ae50c7b0d3dafa3c49b8facc3e67c8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 56/57] fix: decode all complete messages by the Python
 TerminalLayer

Messages were not decoded when the received data ended with half an escape
code, until more data arrives.
---
 python/libstored/protocol.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index a3978f3..3349fa6 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -179,20 +179,22 @@ class TerminalLayer(ProtocolLayer):
 
         self._data += data
 
-        if data[-1] == self.start[0]:
-            # Got partial escape code. Wait for more data.
-            return
-
         while True:
             if not self._inMsg:
                 c = self._data.split(self.start, 1)
+                partial = bytearray()
+                if len(c) == 1 and c[0][-1:] == self.start[:1]:
+                    # Got partial escape code. Wait for more data.
+                    partial = c[0][-1:]
+                    c[0] = c[0][:-1]
+
                 if c[0] != b'':
                     self.logger.debug('non-debug %s', bytes(c[0]))
                     self.nonDebugData(c[0])
 
                 if len(c) == 1:
                     # No start of message in here.
-                    self._data = bytearray()
+                    self._data = partial
                     return
                 else:
                     # Keep rest of data, and continue decoding.
-- 
2.43.0


From 58ffbdd162f750d4756ce66020741f10c464b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 57/57] fix: allow read-only access to multiple variables when
 synchronizing with hooks

Synchronizable enters read-only access to all variables of the store before
it sends a Welcome. When a store overrides the __hookEntryRO() and
__hookExitRO() hooks and calls the base class, as the hooks example does, the
check on nested access failed.
---
 include/libstored/store.h.tmpl | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index 7a5c849..645139d 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -289,7 +289,7 @@ protected:
 #	ifdef NDEBUG
 	is_default
 #	else
-		: m_locked(false)
+		: m_locked(0)
 	{
 		STORED_MAKE_MEM_NOACCESS(&m_data, sizeof(m_data));
 	}
@@ -695,7 +695,7 @@ protected:
 		STORED_UNUSED(buffer)
 		STORED_UNUSED(len)
 
-		__hookEntryCheck();
+		__hookEntryCheck(true);
 		STORED_MAKE_MEM_DEFINED(buffer, len);
 	}
 
@@ -706,7 +706,7 @@ protected:
 	void __hookExitX(Type::type type, void* buffer, size_t len, bool changed) noexcept
 	{
 		STORED_MAKE_MEM_NOACCESS(buffer, len);
-		__hookExitCheck();
+		__hookExitCheck(true);
 
 		if(changed)
 			hookChanged(type, buffer, len);
@@ -740,7 +740,7 @@ protected:
 		STORED_UNUSED(buffer)
 		STORED_UNUSED(len)
 
-		__hookEntryCheck();
+		__hookEntryCheck(false);
 		STORED_MAKE_MEM_DEFINED(buffer, len);
 	}
 
@@ -755,34 +755,36 @@ protected:
 		STORED_UNUSED(len)
 
 		STORED_MAKE_MEM_NOACCESS(buffer, len);
-		__hookExitCheck();
+		__hookExitCheck(false);
 	}
 
 private:
 #	ifndef NDEBUG
-	bool m_locked;
+	// Number of RO accesses, or -1 when there is an X access.
+	int m_locked;
 
-	void __hookEntryCheck() noexcept
+	void __hookEntryCheck(bool exclusive) noexcept
 	{
 		if(Config::EnableAssert && Config::EnableHooks) {
-			// You should not enter RO/X twice. It could happen if
+			// You should not enter X twice, or combine it with RO. It could happen if
 			// you access a store variable within a entry/exit RO/X
-			// scope.
-			stored_assert(!m_locked);
-			m_locked = true;
+			// scope.  RO access to multiple variables is fine, which is done
+			// when the full buffer is synchronized.
+			stored_assert(m_locked >= 0 && (!exclusive || m_locked == 0));
+			m_locked = exclusive ? -1 : m_locked + 1;
 		}
 	}
 
-	void __hookExitCheck() noexcept
+	void __hookExitCheck(bool exclusive) noexcept
 	{
 		if(Config::EnableAssert && Config::EnableHooks) {
-			stored_assert(m_locked);
-			m_locked = false;
+			stored_assert(exclusive ? m_locked == -1 : m_locked > 0);
+			m_locked = exclusive ? 0 : m_locked - 1;
 		}
 	}
 #	else // NDEBUG
-	void __hookEntryCheck() noexcept {}
-	void __hookExitCheck() noexcept {}
+	void __hookEntryCheck(bool /*exclusive*/) noexcept {}
+	void __hookExitCheck(bool /*exclusive*/) noexcept {}
 #	endif // NDEBUG
 
 protected:
-- 
2.43.0

