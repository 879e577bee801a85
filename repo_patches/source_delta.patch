From 39acc05f4f8ac7f2b7882f1cf999d9eba0e42b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:54 +0000
Subject: [PATCH 01/28] fix: CircularBuffer high water mark is wrong with
 capacity over 127

---
 src/CircularBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CircularBuffer.h b/src/CircularBuffer.h
index ba4bc4b..368e93f 100644
--- a/src/CircularBuffer.h
+++ b/src/CircularBuffer.h
@@ -133,7 +133,8 @@ void CircularBuffer<E>::clear()
 template <typename E>
 uint8_t CircularBuffer<E>::bufUse()
 {
-  int8_t size = capacity;
+  // Use int as the capacity may be too large for an int8_t.
+  int size = capacity;
   if (!full)
   {
     size = head - tail;
-- 
2.43.0


From 15b45ef0df3bb5db14c224c405b699e7a32edb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:46 +0000
Subject: [PATCH 02/28] fix: MODE learn on/off for another node must not change
 this node's learn mode

---
 src/EventTeachingService.cpp | 9 +++++++--
 src/EventTeachingService.h   | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index aec6cab..8da0402 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -45,7 +45,7 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   {
   case OPC_MODE:
     // 76 - Set Operating Mode
-    handleLearnMode(msg);
+    handleLearnMode(msg, nn);
     break;
 
   case OPC_NNLRN:
@@ -111,8 +111,13 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   }
 }
 
-void EventTeachingService::handleLearnMode(const VlcbMessage *msg)
+void EventTeachingService::handleLearnMode(const VlcbMessage *msg, unsigned int nn)
 {
+  if (!isThisNodeNumber(nn))
+  {
+    return;
+  }
+
   //DEBUG_SERIAL << F("ets> MODE -- request op-code received for NN = ") << nn << endl;
   byte requestedMode = msg->data[3];
   switch (requestedMode)
diff --git a/src/EventTeachingService.h b/src/EventTeachingService.h
index 0b6ddf4..55e2ba1 100644
--- a/src/EventTeachingService.h
+++ b/src/EventTeachingService.h
@@ -28,7 +28,7 @@ private:
   bool bLearn = false;
 
   void handleMessage(const VlcbMessage *msg);
-  void handleLearnMode(const VlcbMessage *msg);
+  void handleLearnMode(const VlcbMessage *msg, unsigned int nn);
   void handleLearn(unsigned int nn);
   void handleUnlearnEvent(const VlcbMessage *msg, unsigned int nn, unsigned int en);
   void handleUnlearn(unsigned int nn);
-- 
2.43.0


From 6dfc246bc96e7613afaf5420af87b3630421ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:40 +0000
Subject: [PATCH 03/28] fix: do not write an event outside the event table when
 it is full

---
 src/EventProducerService.cpp | 36 +++++++++++++++++++++++++++++++-----
 src/EventProducerService.h   |  2 +-
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 986cf17..2fa5d99 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -47,6 +47,11 @@ byte EventProducerService::createDefaultEvent(byte evValue)
   
   byte index = module_config->findEventSpace();
   //TODO: Consider full event table error message. Should error come from Configuration?
+  if (index >= module_config->EE_MAX_EVENTS)
+  {
+    // The event table is full. There is nowhere to store the event.
+    return index;
+  }
   
   // Find next available event number.
   unsigned int eventNum;
@@ -92,13 +97,17 @@ void EventProducerService::process(const Action * action)
   }
 }
 
-void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
+bool EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
 {
   Configuration *module_config = controller->getModuleConfig();
   byte index = module_config->findExistingEventByEv(evIndex, evValue);
   if (index >= module_config->EE_MAX_EVENTS)
   {
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
   }
 
   module_config->readEvent(index, nn_en);
@@ -108,8 +117,13 @@ void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byt
     // This table entry was not initalised correctly.
     // This may happen if an event is deleted but the hash table is not updated.
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
     module_config->readEvent(index, nn_en);
   }
+  return true;
 }
 
 void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en)
@@ -125,7 +139,10 @@ void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte
 void EventProducerService::sendEvent(bool state, byte evValue)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -147,7 +164,10 @@ void EventProducerService::sendEvent(bool state, byte evValue)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -170,7 +190,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -194,7 +217,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2, byte data3)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 9cd78d5..0ab3dfd 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -42,7 +42,7 @@ private:
   
   void setProducedEvents();
   byte createDefaultEvent(byte evValue);
-  void findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
+  bool findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
   void sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en);
 
   bool uninit = false;
-- 
2.43.0


From f9b00e0d949e0289209bb81dbf5a51528a4c28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:41 +0000
Subject: [PATCH 04/28] fix: initialise the request event handler

---
 src/EventProducerService.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 0ab3dfd..5249ba0 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -37,7 +37,7 @@ public:
   
 
 private:
-  void (*requesteventhandler)(byte index, const VlcbMessage *msg);
+  void (*requesteventhandler)(byte index, const VlcbMessage *msg) = nullptr;
   void handleProdSvcMessage(const VlcbMessage *msg);
   
   void setProducedEvents();
-- 
2.43.0


From b84e1eea1804fbed67f427849cf1b9026a29b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 05/28] fix: do not find EVs of deleted events

---
 src/Configuration.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 74cec09..38677b6 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -184,7 +184,13 @@ byte Configuration::findExistingEventByEv(byte evnum, byte evval) const
   {
     if (getEventEVval(i, evnum) == evval)
     {
-      break;
+      // A free slot may still contain the EVs of a deleted event.
+      byte nnen[EE_HASH_BYTES];
+      readEvent(i, nnen);
+      if (!nnenEquals(nnen, unused_entry))
+      {
+        break;
+      }
     }
   }
   return i;
-- 
2.43.0


From fc0847cb5106749c3c7de4d04969c69cfa3bb4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 06/28] fix: NENRD of an empty slot reports an error instead of
 event FFFF:FFFF

---
 src/EventTeachingService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 8da0402..b14b71a 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -250,7 +250,7 @@ void EventTeachingService::handleReadEventIndex(unsigned int nn, byte eventIndex
   if (isThisNodeNumber(nn))
   {
     Configuration *module_config = controller->getModuleConfig();
-    if ((eventIndex >= module_config->EE_MAX_EVENTS) && (module_config->getEvTableEntry(eventIndex) == 0))
+    if ((eventIndex >= module_config->EE_MAX_EVENTS) || (module_config->getEvTableEntry(eventIndex) == 0))
     {
       controller->sendCMDERR(CMDERR_INV_EN_IDX);
       controller->sendGRSP(OPC_NENRD, getServiceID(), CMDERR_INV_EN_IDX);
-- 
2.43.0


From c77eaa34dda1bc3c18d255e21f5c14886e13fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:29 +0000
Subject: [PATCH 07/28] fix: EVLRN of a new event stores the event whichever EV
 comes first

---
 src/EventTeachingService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index b14b71a..3065bd9 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -459,8 +459,8 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   // write the event to EEPROM at this location -- EVs are indexed from 1 but storage offsets start at zero !!
   // DEBUG_SERIAL << F("ets> writing EV = ") << evnum << F(", at index = ") << index << F(", offset = ") << (module_config->EE_EVENTS_START + (index * module_config->EE_BYTES_PER_EVENT)) << endl;
 
-  // don't repeat this for subsequent EVs
-  if (evnum <= 1)
+  // don't repeat this for subsequent EVs of an event already in the table
+  if (evnum <= 1 || module_config->getEvTableEntry(index) == 0)
   {
     module_config->writeEvent(index, &msg->data[1]);
   }
-- 
2.43.0


From 8aa1a2c97193847619e2437b345a31adff5ad636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:30 +0000
Subject: [PATCH 08/28] fix: NVSET and NVSETRD of NV 0 must not write outside
 the NVs

---
 src/NodeVariableService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NodeVariableService.cpp b/src/NodeVariableService.cpp
index bab8fff..4656311 100644
--- a/src/NodeVariableService.cpp
+++ b/src/NodeVariableService.cpp
@@ -90,7 +90,7 @@ void NodeVariableService::handleSetNV(const VlcbMessage *msg, unsigned int nn)
     }
 
     Configuration *module_config = controller->getModuleConfig();
-    if (msg->data[3] > module_config->EE_NUM_NVS)
+    if (msg->data[3] == 0 || msg->data[3] > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSET, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
@@ -120,7 +120,7 @@ void NodeVariableService::handleSetAndReadNV(const VlcbMessage *msg, unsigned in
 
     byte nvindex = msg->data[3];
     Configuration *module_config = controller->getModuleConfig();
-    if (nvindex > module_config->EE_NUM_NVS)
+    if (nvindex == 0 || nvindex > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSETRD, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
-- 
2.43.0


From a53c574b19a376da5ecaa9e510344311e215a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:09 +0000
Subject: [PATCH 09/28] fix: fragments of other streams disturb the long
 message being received

---
 src/LongMessageService.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 23eb939..5e5e2e0 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -152,6 +152,12 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
 
 	// DEBUG_SERIAL << F("> L: processing received long message packet, message length = ") << _incoming_message_length << F(", rcvd so far = ") << _incoming_bytes_received << endl;
 
+	if (_is_receiving && frame->data[1] != _receive_stream_id)
+	{
+		// a fragment of another stream must not affect the one in progress - we don't support concurrent streams
+		return;
+	}
+
 	_last_fragment_received = millis();
 
 	byte i, j;
-- 
2.43.0


From 31da853b3b047ab0823ec29be7208fb76997984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:09 +0000
Subject: [PATCH 10/28] fix: long messages of more than 255 fragments could not
 be received

---
 src/LongMessageService.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 5e5e2e0..820086b 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -210,7 +210,7 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
     {
       // it's the same stream id
 
-      if (frame->data[2] == _expected_next_receive_sequence_num)
+      if (frame->data[2] == lowByte(_expected_next_receive_sequence_num))
       {
         // and it's the expected sequence id
 
@@ -571,7 +571,18 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 	// DEBUG_SERIAL << F("> Lex: handling incoming message fragment") << endl;
 	// DEBUG_SERIAL.flush();
 
-  if (frame->data[2] == 0)
+  // the sequence number of a long stream wraps to zero, then it is not a header packet
+  bool is_header = (frame->data[2] == 0);
+  for (i = 0; i < _num_receive_contexts; i++)
+  {
+    if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == frame->data[1]
+        && lowByte(_receive_context[i]->expected_next_receive_sequence_num) == 0)
+    {
+      is_header = false;
+    }
+  }
+
+  if (is_header)
   {
     // sequence zero = a header packet with start of new stream
 
@@ -650,7 +661,7 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
     }
 
     // error if out of sequence
-    if (frame->data[2] != _receive_context[i]->expected_next_receive_sequence_num)
+    if (frame->data[2] != lowByte(_receive_context[i]->expected_next_receive_sequence_num))
     {
       // DEBUG_SERIAL << F("> Lex: ERROR: expected receive sequence num = ") << _receive_context[i]->expected_next_receive_sequence_num << F(" but got = ") << frame->data[2] << endl;
       (void) (*_messagehandler)(_receive_context[i]->buffer, _receive_context[i]->receive_buffer_index,
-- 
2.43.0


From 64924bf015133499e1c4d7d6c1d8c933a613264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:05 +0000
Subject: [PATCH 11/28] fix: extended long messages are copied as binary data
 to a free send context

---
 src/LongMessageService.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 820086b..dc00ea0 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -423,7 +423,7 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 		}
 	}
 
-	if (i > _num_send_contexts)
+	if (i >= _num_send_contexts)
   {
 		// DEBUG_SERIAL << F("> Lex: ERROR: unable to find free send context") << endl;
 		return false;
@@ -431,10 +431,18 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 
 	// DEBUG_SERIAL << F("> Lex: using send context = ") << i << endl;
 
+	// copy the message to the send context, will free later
+	// note that the message is binary data, it is not necessarily a terminated string
+	_send_context[i]->buffer = (byte *)malloc(msg_len > 0 ? msg_len : 1);
+	if (_send_context[i]->buffer == NULL)
+  {
+		return false;
+	}
+	memcpy(_send_context[i]->buffer, msg, msg_len);
+
 	// initialise context
 	_send_context[i]->in_use = true;
-	// _send_context[i]->buffer = (byte *)msg;
-	_send_context[i]->buffer = (byte *)strdup((char *)msg);														// copy the message to the send content, will free later
+	_send_context[i]->last_fragment_sent = 0UL;
 	_send_context[i]->send_buffer_len = msg_len;
 	_send_context[i]->send_stream_id = stream_id;
   _send_context[i]->send_buffer_index = 0;
-- 
2.43.0


From f6857398dcf8a7735b8a64793adaf35bfa2fa62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:05 +0000
Subject: [PATCH 12/28] fix: do not report a CRC error when CRC checks are not
 enabled

---
 src/LongMessageService.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index dc00ea0..c1c2f63 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -692,13 +692,15 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
       {
         // DEBUG_SERIAL << F("> Lex: message data has been fully consumed") << endl;
 
-        if (_use_crc && _receive_context[i]->incoming_message_crc != 0)
+        // a CRC of zero means that the sender did not include one
+        bool check_crc = _use_crc && _receive_context[i]->incoming_message_crc != 0;
+        if (check_crc)
         {
           // DEBUG_SERIAL << F("> Lex: calculating CRC16") << endl;
           tmpcrc = crc16((uint8_t *) _receive_context[i]->buffer, _receive_context[i]->receive_buffer_index);
         }
 
-        if (_receive_context[i]->incoming_message_crc != tmpcrc)
+        if (check_crc && _receive_context[i]->incoming_message_crc != tmpcrc)
         {
           // DEBUG_SERIAL << F("> Lex: message CRC error, expected = ") << _receive_context[i]->incoming_message_crc << F(", calculated = ") << tmpcrc << endl;
           status = LONG_MESSAGE_CRC_ERROR;
-- 
2.43.0


From c8f3613cac009b4c6997732ac87e2493113d1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:07 +0000
Subject: [PATCH 13/28] fix: each extended long message service has its own
 position in its send contexts

---
 src/LongMessageService.cpp | 36 +++++++++++++++++-------------------
 src/LongMessageService.h   |  1 +
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index c1c2f63..b7c474c 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -479,8 +479,6 @@ bool LongMessageServiceEx::process()
 	byte i;
 	VlcbMessage frame;
 
-	static byte context = 0;				// we round-robin the context list when sending
-
 	/// check receive timeout for each active context
 
 	for (i = 0; i < _num_receive_contexts; i++)
@@ -497,43 +495,43 @@ bool LongMessageServiceEx::process()
 
 	/// send the next outgoing fragment from each active context, after a configurable delay to avoid flooding the bus
 	/// concurrent streams will be interleaved
-	if (_send_context[context]->in_use && millis() - _send_context[context]->last_fragment_sent >= _msg_delay)
+	if (_send_context[_next_send_context]->in_use && millis() - _send_context[_next_send_context]->last_fragment_sent >= _msg_delay)
   {
-		// DEBUG_SERIAL << F("> Lex: processing send context = ") << context << endl;
+		// DEBUG_SERIAL << F("> Lex: processing send context = ") << _next_send_context << endl;
 
 		memset(&frame.data, 0, sizeof(frame.data));
-		frame.data[1] = _send_context[context]->send_stream_id;
-		frame.data[2] = _send_context[context]->send_sequence_num;
+		frame.data[1] = _send_context[_next_send_context]->send_stream_id;
+		frame.data[2] = _send_context[_next_send_context]->send_sequence_num;
 
 		/// only the last fragment is potentially less than 5 bytes long
-    for (i = 0; i < 5 && _send_context[context]->send_buffer_index < _send_context[context]->send_buffer_len; i++)  // for up to 5 bytes of payload
+    for (i = 0; i < 5 && _send_context[_next_send_context]->send_buffer_index < _send_context[_next_send_context]->send_buffer_len; i++)  // for up to 5 bytes of payload
     {
-			frame.data[i + 3] = _send_context[context]->buffer[_send_context[context]->send_buffer_index];																// take the next byte
-			// DEBUG_SERIAL << F("> Lex: consumed data byte = ") << (char)_send_context[context]->buffer[_send_context[context]->send_buffer_index] << endl;
-			++_send_context[context]->send_buffer_index;
+			frame.data[i + 3] = _send_context[_next_send_context]->buffer[_send_context[_next_send_context]->send_buffer_index];																// take the next byte
+			// DEBUG_SERIAL << F("> Lex: consumed data byte = ") << (char)_send_context[_next_send_context]->buffer[_send_context[_next_send_context]->send_buffer_index] << endl;
+			++_send_context[_next_send_context]->send_buffer_index;
 		}
 
 		ret = sendMessageFragment(&frame);																												// send the data packet
-		// DEBUG_SERIAL << F("> Lex: process: sent message fragment, seq = ") << _send_context[context]->send_sequence_num << F(", size = ") << i << F(", ret  = ") << ret << endl;
+		// DEBUG_SERIAL << F("> Lex: process: sent message fragment, seq = ") << _send_context[_next_send_context]->send_sequence_num << F(", size = ") << i << F(", ret  = ") << ret << endl;
 
 		// release context once message content exhausted
-		if (_send_context[context]->send_buffer_index >= _send_context[context]->send_buffer_len)
+		if (_send_context[_next_send_context]->send_buffer_index >= _send_context[_next_send_context]->send_buffer_len)
     {
-			_send_context[context]->in_use = false;
-			_send_context[context]->send_buffer_len = 0;
-			free(_send_context[context]->buffer);
+			_send_context[_next_send_context]->in_use = false;
+			_send_context[_next_send_context]->send_buffer_len = 0;
+			free(_send_context[_next_send_context]->buffer);
 			// DEBUG_SERIAL << F("> Lex: message complete, context released") << endl;
     }
     else
     {
-			++_send_context[context]->send_sequence_num;
-			_send_context[context]->last_fragment_sent = millis();
+			++_send_context[_next_send_context]->send_sequence_num;
+			_send_context[_next_send_context]->last_fragment_sent = millis();
 		}
 	}
 
 	// increment context counter and wrap
-	++context;
-	context = (context >= _num_send_contexts) ? 0 : context;
+	++_next_send_context;
+	_next_send_context = (_next_send_context >= _num_send_contexts) ? 0 : _next_send_context;
 	return ret;
 }
 
diff --git a/src/LongMessageService.h b/src/LongMessageService.h
index 87855d3..0f745c9 100644
--- a/src/LongMessageService.h
+++ b/src/LongMessageService.h
@@ -113,6 +113,7 @@ private:
   byte _num_receive_contexts = NUM_EX_CONTEXTS, _num_send_contexts = NUM_EX_CONTEXTS;
   receive_context_t **_receive_context = NULL;
   send_context_t **_send_context = NULL;
+  byte _next_send_context = 0;              // we round-robin the context list when sending
 };
 
 }
\ No newline at end of file
-- 
2.43.0


From 8fa298a166dd8d14e4eaba230febeb58482d4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:07 +0000
Subject: [PATCH 14/28] fix: a new header must not leave two extended messages
 open on one stream

---
 src/LongMessageService.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index b7c474c..0722d43 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -606,6 +606,17 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 
           // DEBUG_SERIAL << F("> Lex: we are subscribed to this stream ID = ") << frame->data[1] << endl;
 
+          // a new header ends an unfinished message of the same stream
+          for (i = 0; i < _num_receive_contexts; i++)
+          {
+            if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == frame->data[1])
+            {
+              (void) (*_messagehandler)(_receive_context[i]->buffer, _receive_context[i]->receive_buffer_index,
+                                        _receive_context[i]->receive_stream_id, LONG_MESSAGE_SEQUENCE_ERROR);
+              _receive_context[i]->in_use = false;
+            }
+          }
+
           // find a free receive context
           for (i = 0; i < _num_receive_contexts; i++)
           {
-- 
2.43.0


From fa40add02e2a251c302a98b2ed867789653540a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:10 +0000
Subject: [PATCH 15/28] fix: flash writes that cross a page boundary went
 outside the page cache

---
 src/FlashStorage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FlashStorage.cpp b/src/FlashStorage.cpp
index d24cf70..1b5771b 100644
--- a/src/FlashStorage.cpp
+++ b/src/FlashStorage.cpp
@@ -215,7 +215,8 @@ bool flash_write_bytes(const uint16_t address, const uint8_t *data, const uint16
       buffer_index = 0;                                 // set cache buffer index to zero
     }
 
-    cache_page.data[buffer_index + a] = data[a];
+    cache_page.data[buffer_index] = data[a];
+    ++buffer_index;
   }
 
   // set page dirty flag
-- 
2.43.0


From 87947f0eeaa27601156b6ff964677790151ce2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:10 +0000
Subject: [PATCH 16/28] fix: external EEPROM accesses must not cross page
 boundaries or exceed the I2C buffer

---
 src/EepromExternalStorage.cpp | 74 +++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/EepromExternalStorage.cpp b/src/EepromExternalStorage.cpp
index 24093ec..b5ecc19 100644
--- a/src/EepromExternalStorage.cpp
+++ b/src/EepromExternalStorage.cpp
@@ -10,6 +10,18 @@
 namespace VLCB
 {
 
+// Multi-byte accesses are split at multiples of this size.
+// A write must not cross a page boundary of the EEPROM, as the address would wrap to the start of that page.
+// The smallest page of EEPROMs with 16-bit addresses is 32 bytes.
+// It must also be small enough for address and data to fit in the 32 byte I2C buffer.
+static const byte BLOCK_SIZE = 16;
+
+static byte bytesInBlock(unsigned int eeaddress, byte nbytes)
+{
+  byte size = BLOCK_SIZE - eeaddress % BLOCK_SIZE;
+  return size < nbytes ? size : nbytes;
+}
+
 EepromExternalStorage::EepromExternalStorage(byte address)
 {
   external_address = address;
@@ -72,20 +84,29 @@ byte EepromExternalStorage::read(unsigned int eeaddress)
 //
 byte EepromExternalStorage::readBytes(unsigned int eeaddress, byte nbytes, byte dest[])
 {
-  I2Cbus->beginTransmission(external_address);
-  I2Cbus->write((int)(eeaddress >> 8));    // MSB
-  I2Cbus->write((int)(eeaddress & 0xFF));  // LSB
-  int r = I2Cbus->endTransmission();
+  byte count = 0;
+  while (count < nbytes) {
+    byte size = bytesInBlock(eeaddress + count, nbytes - count);
+    byte end = count + size;
 
-  if (r < 0) {
-    // DEBUG_SERIAL << F("> readBytes: I2C write error = ") << r << endl;
-  }
+    I2Cbus->beginTransmission(external_address);
+    I2Cbus->write((int)((eeaddress + count) >> 8));    // MSB
+    I2Cbus->write((int)((eeaddress + count) & 0xFF));  // LSB
+    int r = I2Cbus->endTransmission();
 
-  I2Cbus->requestFrom((int)external_address, (int)nbytes);
+    if (r < 0) {
+      // DEBUG_SERIAL << F("> readBytes: I2C write error = ") << r << endl;
+    }
 
-  byte count = 0;
-  while (I2Cbus->available() && count < nbytes) {
-    dest[count++] = I2Cbus->read();
+    I2Cbus->requestFrom((int)external_address, (int)size);
+
+    while (I2Cbus->available() && count < end) {
+      dest[count++] = I2Cbus->read();
+    }
+
+    if (count < end) {
+      break;    // no (more) data from the EEPROM
+    }
   }
 
   // DEBUG_SERIAL << F("> readBytes: read ") << count << F(" bytes from EEPROM in ") << micros() - t1 << F("us") << endl;
@@ -118,24 +139,27 @@ void EepromExternalStorage::write(unsigned int eeaddress, byte data)
 //
 void EepromExternalStorage::writeBytes(unsigned int eeaddress, const byte src[], byte numbytes)
 {
-  // *** TODO *** handle greater than 32 bytes -> the Arduino I2C write buffer size
-  // max write = EEPROM pagesize - 64 bytes
+  byte count = 0;
+  while (count < numbytes)
+  {
+    byte end = count + bytesInBlock(eeaddress + count, numbytes - count);
 
-  I2Cbus->beginTransmission(external_address);
-  I2Cbus->write((int) (eeaddress >> 8));   // MSB
-  I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
+    I2Cbus->beginTransmission(external_address);
+    I2Cbus->write((int) ((eeaddress + count) >> 8));   // MSB
+    I2Cbus->write((int) ((eeaddress + count) & 0xFF)); // LSB
 
-  for (byte i = 0; i < numbytes; i++)
-  {
-    I2Cbus->write(src[i]);
-  }
+    while (count < end)
+    {
+      I2Cbus->write(src[count++]);
+    }
 
-  int r = I2Cbus->endTransmission();
-  delay(5);
+    int r = I2Cbus->endTransmission();
+    delay(5);
 
-  if (r < 0)
-  {
-    // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    if (r < 0)
+    {
+      // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    }
   }
 }
 
-- 
2.43.0


From 781e047a6627421250931d16e8265b898528fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:11 +0000
Subject: [PATCH 17/28] fix: factory reset leaves events where the storage does
 not clear all of them

---
 src/Configuration.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 38677b6..0adae82 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -533,6 +533,17 @@ void Configuration::resetModule()
   // clear the learned events from storage
   storage->reset();
 
+  // not all storage types clear everything, make sure that no event is left
+  for (byte i = 0; i < EE_MAX_EVENTS; i++)
+  {
+    byte nnen[EE_HASH_BYTES];
+    readEvent(i, nnen);
+    if (!nnenEquals(nnen, unused_entry))
+    {
+      cleareventEEPROM(i);
+    }
+  }
+
   // DEBUG_SERIAL << F("> setting Uninitialised config") << endl;
 
   // set the node identity defaults
-- 
2.43.0


From d8c4eb9727f777b64c1e540de6d5c3ba1c6992b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:28 +0000
Subject: [PATCH 18/28] fix: resetting the CAN2515 must keep its poll mode and
 SPI bus

---
 src/CAN2515.cpp | 3 ++-
 src/CAN2515.h   | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/CAN2515.cpp b/src/CAN2515.cpp
index 86fddef..74c13bd 100644
--- a/src/CAN2515.cpp
+++ b/src/CAN2515.cpp
@@ -42,6 +42,7 @@ bool CAN2515::begin(bool poll, SPIClass & spi)
   _numMsgsSent = 0;
   _numMsgsRcvd = 0;
   _poll = poll;
+  _spi = &spi;
 
   ACAN2515Settings settings(_osc_freq, CANBITRATE);
 
@@ -185,7 +186,7 @@ void CAN2515::reset()
 {
   canp->end();
   delete canp;
-  begin();
+  begin(_poll, *_spi);    // as it was started
 }
 
 //
diff --git a/src/CAN2515.h b/src/CAN2515.h
index 547b355..f866601 100644
--- a/src/CAN2515.h
+++ b/src/CAN2515.h
@@ -73,6 +73,12 @@ private:
   byte _num_rx_buffers, _num_tx_buffers;
   bool _poll;
 
+#ifdef ARDUINO_ARCH_RP2040
+  SPIClassRP2040 * _spi;
+#else
+  SPIClass * _spi;
+#endif
+
 #ifdef ARDUINO_ARCH_RP2040
   byte _mosi_pin, _miso_pin, _sck_pin;
 #endif
-- 
2.43.0


From 0e0f9d5800d1feac146fd2af1a4ffdc48be8c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:43 +0000
Subject: [PATCH 19/28] fix: default events were created again when they exist
 already

---
 src/EventProducerService.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 2fa5d99..ae142d2 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -33,10 +33,15 @@ void EventProducerService::begin()
 
 void EventProducerService::setProducedEvents()
 { 
-  for (byte i = 1; i <= controller->getModuleConfig()->EE_PRODUCED_EVENTS; i++)
+  Configuration *module_config = controller->getModuleConfig();
+  for (byte i = 1; i <= module_config->EE_PRODUCED_EVENTS; i++)
   {
-    createDefaultEvent(i);    
-  }    
+    // The event may exist already if the module has been in normal mode before.
+    if (module_config->findExistingEventByEv(1, i) >= module_config->EE_MAX_EVENTS)
+    {
+      createDefaultEvent(i);
+    }
+  }
 }
 
 byte EventProducerService::createDefaultEvent(byte evValue)
-- 
2.43.0


From cc5978b4d5a82663f126e4cf74d7d480bfdafd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:21 +0000
Subject: [PATCH 20/28] fix: endless loop when 255 default events are
 configured

---
 src/EventProducerService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index ae142d2..4a823a2 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -34,7 +34,7 @@ void EventProducerService::begin()
 void EventProducerService::setProducedEvents()
 { 
   Configuration *module_config = controller->getModuleConfig();
-  for (byte i = 1; i <= module_config->EE_PRODUCED_EVENTS; i++)
+  for (unsigned int i = 1; i <= module_config->EE_PRODUCED_EVENTS; i++)
   {
     // The event may exist already if the module has been in normal mode before.
     if (module_config->findExistingEventByEv(1, i) >= module_config->EE_MAX_EVENTS)
-- 
2.43.0


From 38a78207f41364d636c6fa5fa7eb25a0de1a9334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 21/28] fix: each serial GridConnect transport has its own
 receive position

---
 src/SerialGC.cpp | 1 -
 src/SerialGC.h   | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SerialGC.cpp b/src/SerialGC.cpp
index 4484e58..e5cd45f 100644
--- a/src/SerialGC.cpp
+++ b/src/SerialGC.cpp
@@ -33,7 +33,6 @@ namespace VLCB
   bool SerialGC::available()
   {
     bool result = false;
-    static int rxIndex = 0;
     if (serial.available())
     {     
       char c = serial.read();
diff --git a/src/SerialGC.h b/src/SerialGC.h
index 58a6090..72ac79e 100644
--- a/src/SerialGC.h
+++ b/src/SerialGC.h
@@ -46,6 +46,7 @@ namespace VLCB
     typeof(Serial)& serial;
 	
     char rxBuffer[RXBUFFERSIZE]; // Define a byte array to store the incoming data
+    int rxIndex = 0;             // Position of the next character in rxBuffer, 0 before the start of a message
     char txBuffer[RXBUFFERSIZE]; // Define a byte array to store the outgoing data
     CANFrame rxCANFrame;
 
-- 
2.43.0


From ff2397894ec0ec990adbfdd4c1ab70c9fe84a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:05 +0000
Subject: [PATCH 22/28] fix: uninitialised mode was shown as unknown

---
 src/Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 0adae82..e0a3ed0 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -297,7 +297,7 @@ void Configuration::updateEvHashEntry(byte idx)
 // Return a readable string for a mode value
 const char * Configuration::modeString(VlcbModeParams mode)
 {
-  switch (mode & 0x07)
+  switch (mode)
   {
     case MODE_NORMAL: return "Normal";
     case MODE_UNINITIALISED: return "Uninitialised";
-- 
2.43.0


From 469edc7e34db5026202d656b73878c5e9654bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 23/28] fix: endless loop when 255 node variables are shown

---
 src/SerialUserInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SerialUserInterface.cpp b/src/SerialUserInterface.cpp
index b3a52e1..af95525 100644
--- a/src/SerialUserInterface.cpp
+++ b/src/SerialUserInterface.cpp
@@ -111,7 +111,7 @@ void SerialUserInterface::processSerialInput()
         Serial << F("   NV   Val") << endl;
         Serial << F("  --------------------") << endl;
 
-        for (byte j = 1; j <= modconfig->EE_NUM_NVS; j++)
+        for (int j = 1; j <= modconfig->EE_NUM_NVS; j++)
         {
           byte v = modconfig->readNV(j);
           sprintf(msgstr, " - %02d : %3hd | 0x%02hx", j, v, v);
-- 
2.43.0


From 8e80ea59f041a4aa59282bf28af2e040efd247d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 24/28] fix: NNREL was lost when resetting to manufacturer's
 defaults

---
 src/Controller.h           | 1 +
 src/MinimumNodeService.cpp | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Controller.h b/src/Controller.h
index 6ae6ff1..dd4ef04 100644
--- a/src/Controller.h
+++ b/src/Controller.h
@@ -41,6 +41,7 @@ enum ACTION : byte
   ACT_RENEGOTIATE,
   ACT_INDICATE_ACTIVITY,
   ACT_INDICATE_MODE,
+  ACT_RESET_MODULE,
   // ...
 };
 
diff --git a/src/MinimumNodeService.cpp b/src/MinimumNodeService.cpp
index 326410c..19e12fd 100644
--- a/src/MinimumNodeService.cpp
+++ b/src/MinimumNodeService.cpp
@@ -150,6 +150,10 @@ void MinimumNodeService::process(const Action *action)
         handleMessage(&action->vlcbMessage);
         break;
 
+      case ACT_RESET_MODULE:
+        controller->getModuleConfig()->resetModule();
+        break;
+
       default:
           break;
     }
@@ -243,7 +247,8 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
       if (isThisNodeNumber(nn))
       {        
         controller->sendMessageWithNN(OPC_NNREL);  // release node number first
-        module_config->resetModule();        
+        // The NNREL message is sent from the action queue, so queue the reset, which reboots, after it.
+        controller->putAction(ACT_RESET_MODULE);
       }
       break;
       
-- 
2.43.0


From 1a475bc5d296099c328b17cf1a7b768ce0feff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:24 +0000
Subject: [PATCH 25/28] fix: EepromInternalStorage did not compile for ESP32
 and ESP8266

---
 src/EepromInternalStorage.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/EepromInternalStorage.cpp b/src/EepromInternalStorage.cpp
index c414aa9..b7459a7 100644
--- a/src/EepromInternalStorage.cpp
+++ b/src/EepromInternalStorage.cpp
@@ -16,11 +16,7 @@ void EepromInternalStorage::begin()
 {
   // these devices require an explicit begin with the desired emulated size
 
-#if defined ESP32 || defined ESP8266
-  EEPROM.begin(EE_EVENTS_START + (EE_MAX_EVENTS * EE_BYTES_PER_EVENT));
-#endif
-
-#ifdef ARDUINO_ARCH_RP2040
+#if defined ESP32 || defined ESP8266 || defined ARDUINO_ARCH_RP2040
   EEPROM.begin(4096);
 #endif
 }
-- 
2.43.0


From 48c334ffffa36f6cc2c1e725f3af27ee1236321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:00 +0000
Subject: [PATCH 26/28] fix: Polling LongMessageServiceEx without send contexts
 reads outside the context list

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 0722d43..ed968b7 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -495,7 +495,7 @@ bool LongMessageServiceEx::process()
 
 	/// send the next outgoing fragment from each active context, after a configurable delay to avoid flooding the bus
 	/// concurrent streams will be interleaved
-	if (_send_context[_next_send_context]->in_use && millis() - _send_context[_next_send_context]->last_fragment_sent >= _msg_delay)
+	if (_num_send_contexts > 0 && _send_context[_next_send_context]->in_use && millis() - _send_context[_next_send_context]->last_fragment_sent >= _msg_delay)
   {
 		// DEBUG_SERIAL << F("> Lex: processing send context = ") << _next_send_context << endl;
 
-- 
2.43.0


From f5dcbc65eeb8805184a11bb21bbd43a5059632c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:05 +0000
Subject: [PATCH 27/28] fix: an event of node number 65535 was taken for an
 unused entry when it was sent

---
 src/EventProducerService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 4a823a2..955cac3 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -117,7 +117,7 @@ bool EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byt
 
   module_config->readEvent(index, nn_en);
   //DEBUG_SERIAL << F("eps>index = ") << index << F(" , Node Number = 0x") << _HEX(nn_en[0]) << _HEX(nn_en[1]) << endl;
-  if ((nn_en[0] == 0xff) && (nn_en[1] == 0xff))
+  if ((nn_en[0] == 0xff) && (nn_en[1] == 0xff) && (nn_en[2] == 0xff) && (nn_en[3] == 0xff))
   {
     // This table entry was not initalised correctly.
     // This may happen if an event is deleted but the hash table is not updated.
-- 
2.43.0


From dd4df58ebffd103ed98d96bd9f3aadfc1a1587ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:14 +0000
Subject: [PATCH 28/28] fix: an event sent before setup took the place of the
 module's default event

---
 src/EventProducerService.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 955cac3..82f3098 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -49,6 +49,11 @@ byte EventProducerService::createDefaultEvent(byte evValue)
   // This function is only called when an event needs to be created, so no need to check if event exists.
   Configuration *module_config = controller->getModuleConfig();
   unsigned int nodeNum = module_config->nodeNum;
+  if (nodeNum == 0)
+  {
+    // There is no node number yet that the event could get, with 0 it would be a short event.
+    return module_config->EE_MAX_EVENTS;
+  }
   
   byte index = module_config->findEventSpace();
   //TODO: Consider full event table error message. Should error come from Configuration?
-- 
2.43.0

