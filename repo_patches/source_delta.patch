From dfe15cde11647ab1260226b4b8e5d047d04f4930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 01/45] fix: UUID inequality and hash agree with equality

---
 pyogp/lib/base/datatypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyogp/lib/base/datatypes.py b/pyogp/lib/base/datatypes.py
index bdfff7c..7c812cd 100644
--- a/pyogp/lib/base/datatypes.py
+++ b/pyogp/lib/base/datatypes.py
@@ -240,6 +240,11 @@ class UUID(object):
         else:
             return False
 
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.uuid)
 
     def __xor__(self, arg):
         """ the xor of two UUIDs """
-- 
2.43.0


From 0c429a53b69afff217bea6e9f53e28d64b6f7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 02/45] fix: pack fixed-size and IP address fields without a
 terminator

---
 pyogp/lib/base/message/data_packer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/data_packer.py b/pyogp/lib/base/message/data_packer.py
index 6897298..39c1f7c 100644
--- a/pyogp/lib/base/message/data_packer.py
+++ b/pyogp/lib/base/message/data_packer.py
@@ -29,13 +29,13 @@ from pyogp.lib.base.helpers import Helpers
 class DataPacker(object):
     def __init__(self):
         self.packer = {}
-        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_string)  #:DE 23oct2008 added handler for MVT_FIXED
+        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_fixed)  #:DE 23oct2008 added handler for MVT_FIXED
         self.packer[MsgType.MVT_VARIABLE]       = ('>',self.__pack_string)
         self.packer[MsgType.MVT_S8]             = ('>','b')
         self.packer[MsgType.MVT_U8]             = ('>','B')
         self.packer[MsgType.MVT_BOOL]           = ('>','B')
         self.packer[MsgType.MVT_LLUUID]         = ('>',self.__pack_uuid)
-        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_string)
+        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_fixed)
         self.packer[MsgType.MVT_IP_PORT]        = ('>','H')
         self.packer[MsgType.MVT_U16]            = ('<','H')
         self.packer[MsgType.MVT_U32]            = ('<','I')
@@ -93,6 +93,10 @@ class DataPacker(object):
         else:
             return uuid.bytes
 
+    def __pack_fixed(self, endian, data):
+        """Return fixed-size data, which has neither a terminator nor a length on the wire."""
+        return data
+
     def __pack_string(self, endian, pack_string):
         """Return the string UTF-8 encoded and null terminated."""
         if pack_string == None:
-- 
2.43.0


From 49bba6fc73c3991833c81b23b839aefc3b27d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 03/45] fix: do not terminate binary 'Data' fields, which the
 deserializer reads verbatim

---
 pyogp/lib/base/message/udpserializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 452bdfe..5d63840 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -141,6 +141,10 @@ class UDPMessageSerializer(object):
 
                 data = self.packer.pack_data(var_data, v.type)
 
+                # 'Data' is binary, not a null terminated string (see the deserializer)
+                if v.type == MsgType.MVT_VARIABLE and v.name == 'Data':
+                    data = data[:-1]
+
                 if variable == None:
                     raise exc.MessageSerializationError(variable.name, "variable value is not set")
 
-- 
2.43.0


From c2295fedecaf6e6dab2f147b7da5f0cbd15417f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 04/45] fix: write the appended acks that a packet with the ack
 flag announces

---
 pyogp/lib/base/message/circuit.py       | 7 ++++++-
 pyogp/lib/base/message/udpserializer.py | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 8d336f0..56f3c54 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -72,6 +72,10 @@ class Circuit(object):
 
         packet.packet_id = self.next_packet_id()
 
+        #a message that is sent again must not carry the acks of its previous packet
+        packet.acks = []
+        packet.num_acks = 0
+
         #if we have acks that we can add on, add them
         ack_count = len(self.acks)
         if ack_count > 0 and packet.name != "PacketAck":
@@ -79,7 +83,8 @@ class Circuit(object):
 
             #also, sends as many acks as we can onto the end of the packet
             #acks are just the packet_id that we are acking
-            for packet_id in self.acks:
+            #(the count of the appended acks is a single byte)
+            for packet_id in self.acks[:255]:
                 packet.add_ack(packet_id)
 
         if flag == PackFlags.LL_RELIABLE_FLAG:
diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 5d63840..c85123c 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -21,7 +21,7 @@ import struct
 from logging import getLogger
 
 # pygop
-from msgtypes import MsgType, MsgBlockType, EndianType
+from msgtypes import MsgType, MsgBlockType, EndianType, PackFlags
 from data_packer import DataPacker
 from template_dict import TemplateDictionary
 from pyogp.lib.base import exc
@@ -102,6 +102,13 @@ class UDPMessageSerializer(object):
             # testing a hack to let RegionHandshakeReply get parsed
             msg_buffer += struct.pack(">I", 0)
 
+        #the acks follow the message data: the ids, then their count
+        if self.context.send_flags & PackFlags.LL_ACK_FLAG:
+            for ack in self.context.acks:
+                msg_buffer += self.packer.pack_data(ack, MsgType.MVT_U32, \
+                                                    endian_type=EndianType.BIG)
+            msg_buffer += self.packer.pack_data(len(self.context.acks), MsgType.MVT_U8)
+
         self.message_buffer = msg_buffer
 
         return msg_buffer
-- 
2.43.0


From d7c3691df363105f2f4c464ff79257605a90d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 05/45] fix: read appended acks in network byte order

---
 pyogp/lib/base/message/udpdeserializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 5ad6c4f..e06c530 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -240,7 +240,8 @@ class UDPMessageDeserializer(object):
             ack_pos = 0
             while acks > 0:
                 ack_packet_id = self.unpacker.unpack_data(ack_data, MsgType.MVT_U32, \
-                                                          start_index=ack_pos)
+                                                          start_index=ack_pos, \
+                                                          endian_type=EndianType.BIG)
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
-- 
2.43.0


From 090c14a60f0e81c7389c208822636c70f0e394ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 06/45] fix: report truncated and malformed packets as
 deserialization errors

---
 pyogp/lib/base/message/udpdeserializer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index e06c530..8cbda2e 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -67,6 +67,14 @@ class UDPMessageDeserializer(object):
 
     def deserialize(self, context):
 
+        try:
+            return self.__deserialize(context)
+        except (IndexError, TypeError, ValueError, struct.error), error:
+            # a field reaches past the end of the buffer
+            raise exc.MessageDeserializationError("packet", error)
+
+    def __deserialize(self, context):
+
         self.context = context
 
         #Must first strip off acks if present, and zero-decode, 
-- 
2.43.0


From ac4a2a8abb825acf3ad1bb9d7e83b201e431ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 07/45] fix: do not decode appended acks as message data

---
 pyogp/lib/base/message/udpdeserializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 8cbda2e..017d965 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -253,6 +253,7 @@ class UDPMessageDeserializer(object):
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
+            data = data[:msg_size-ack_start]
 
         #RELIABLE - means the message wants to be acked by us
         if packet.send_flags & PackFlags.LL_RELIABLE_FLAG:
-- 
2.43.0


From 7d9751338c6ba10ea87c7abaa44f4dba3d3f07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 08/45] fix: process acks of packets whose parsing would be
 deferred

---
 pyogp/lib/base/message/circuit.py         | 5 +++++
 pyogp/lib/base/message/udpdeserializer.py | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 56f3c54..407b9f7 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -95,6 +95,11 @@ class Circuit(object):
         for ack_packet_id in packet.acks:
             self.ack_reliable_packet(ack_packet_id)
 
+        #a PacketAck carries acks in its message data
+        if packet.name == "PacketAck":
+            for block in packet.get_block("Packets"):
+                self.ack_reliable_packet(block["ID"])
+
         if packet.reliable == True:
             self.collect_ack(packet.packet_id)
 
diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 017d965..1bb7c29 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -129,7 +129,9 @@ class UDPMessageDeserializer(object):
                 return None
 
             # if the packet is being handled, or if have have disabled deferred packet parsing, handle it!
-            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING:
+            # a packet that acks packets of ours is always parsed, the circuit needs it
+            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING \
+               or temp_acks or self.current_template.name == 'PacketAck':
 
                 try:
                     return self.__decode_data(msg_buff)
-- 
2.43.0


From def5188a79c01209f09cf69531c0c6d39b47dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 09/45] fix: only ack skipped packets that were sent reliably

---
 pyogp/lib/base/message/udpdispatcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index bb4325d..b0a8311 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -142,7 +142,8 @@ class UDPDispatcher(object):
                 packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, 1, endian_type=EndianType.BIG)
 
                 # queue the ack up
-                circuit.collect_ack(packet_id)
+                if send_flags & PackFlags.LL_RELIABLE_FLAG:
+                    circuit.collect_ack(packet_id)
 
                 return None
 
-- 
2.43.0


From 38981aa1eecebaec1c32c5d95f60ea92adb02e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 10/45] fix: a malformed datagram does not end the UDP loop

---
 pyogp/lib/base/message_manager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 2cf8f4b..9614e7b 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -25,6 +25,7 @@ from pyogp.lib.base.message.message_handler import MessageHandler
 from pyogp.lib.base.message.message_dot_xml import MessageDotXML
 from pyogp.lib.base.event_queue import EventQueueClient
 from pyogp.lib.base.settings import Settings
+from pyogp.lib.base.exc import MessageDeserializationError
 
 # related
 from eventlet import api
@@ -172,9 +173,12 @@ class MessageManager(object):
         while self._is_running:
             api.sleep(0)
             msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)
-            recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
-                                                            msg_buf, 
-                                                            msg_size)
+            try:
+                recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
+                                                                msg_buf, 
+                                                                msg_size)
+            except MessageDeserializationError, error:
+                logger.warning("Discarding a malformed packet: %s" % (error))
             #self.incoming_queue.append(recv_packet)
             if self.udp_dispatcher.has_unacked():
                 self.udp_dispatcher.process_acks()
-- 
2.43.0


From c85cbf99d04d2dd8adebca1d9124a605db02e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 11/45] fix: every received datagram has its own sender

---
 pyogp/lib/base/network/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 3a4274b..82e74e5 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -49,8 +49,8 @@ class NetUDPClient(object):
         except:
             return '', 0
         #print self.sender
-        self.sender.ip = addr[0]
-        self.sender.port = addr[1]
+        # circuits keep the host they were made with, so do not change an old one
+        self.sender = Host((addr[0], addr[1]))
         return data, len(data)
 
     def start_udp_connection(self):
-- 
2.43.0


From 22808acb06797639a696bcd1fe6eb41937c682a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 12/45] fix: pass the message template of the serializer by its
 name

---
 pyogp/lib/base/message/udpserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index c85123c..5e7bf45 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -40,7 +40,7 @@ class UDPMessageSerializer(object):
         """initialize the adapter"""
         self.context = None	# the UDPMessage
 
-        self.template_dict = TemplateDictionary(message_template)
+        self.template_dict = TemplateDictionary(message_template = message_template)
         self.current_template = None
         self.packer = DataPacker()
 
-- 
2.43.0


From a1ec9baea5b394cd221e56335482b434d128ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 13/45] fix: a custom message.xml reaches the UDP serializer
 and deserializer

---
 pyogp/lib/base/message/udpdispatcher.py | 6 ++++--
 pyogp/lib/base/message_manager.py       | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index b0a8311..b0c4916 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -100,8 +100,10 @@ class UDPDispatcher(object):
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
                                                         self.settings,
-                                                        message_template = self.message_template)
-        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template)
+                                                        message_template = self.message_template,
+                                                        message_xml = self.message_xml)
+        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template,
+                                                   message_xml = self.message_xml)
 
     def find_circuit(self, host):
         circuit = self.circuit_manager.get_circuit(host)
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 9614e7b..0858dec 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -110,7 +110,8 @@ class MessageManager(object):
 
         self.udp_dispatcher = UDPDispatcher(settings = self.settings,
                                             message_handler = self.message_handler,
-                                            message_template = self.message_template)
+                                            message_template = self.message_template,
+                                            message_xml = self.message_xml)
 
         # if start parameter = True, kick off the queue monitors
         if start_monitors:
-- 
2.43.0


From 908de6ad29de8f71ae870e2988134b6c3dd55c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 14/45] fix: unsubscribing an unknown handler raises
 ValueError, clearing works, notifying walks a copy

---
 pyogp/lib/base/events.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 45f45a9..0786ecc 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -46,13 +46,13 @@ class Event(object):
 
         except:
 
-            raise ValueError("Handler '%s' is not subscribed to this event." %s (handler))
+            raise ValueError("Handler '%s' is not subscribed to this event." % (handler,))
 
         return self
 
     def notify(self, args):
 
-        for instance, inner_args, kwargs in self.subscribers:
+        for instance, inner_args, kwargs in self.subscribers[:]:
 
             try:
 
@@ -70,7 +70,7 @@ class Event(object):
 
     def clearSubscribers(self):
 
-        self.subscribers.clear()
+        self.subscribers = []
         return self
 
     def getSubscribers(self):
-- 
2.43.0


From 697ed55b7eb1f17fcd6e5186bdbda6e4790040c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 15/45] fix: do not hide KeyErrors of message subscribers

---
 pyogp/lib/base/message/message_handler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyogp/lib/base/message/message_handler.py b/pyogp/lib/base/message/message_handler.py
index 4daa4ac..ca8b87b 100644
--- a/pyogp/lib/base/message/message_handler.py
+++ b/pyogp/lib/base/message/message_handler.py
@@ -69,7 +69,10 @@ class MessageHandler(object):
         try:
 
             handler = self.handlers[message.name]
-
+        except KeyError:
+            #logger.info("Received an unhandled message: %s" % (message.name))
+            pass
+        else:
             # Handle the message if we have subscribers
             # Conveniently, this will also enable verbose message logging
             if len(handler) > 0:
@@ -77,10 +80,6 @@ class MessageHandler(object):
 
                 handler(message)
 
-        except KeyError:
-            #logger.info("Received an unhandled message: %s" % (message.name))
-            pass
-
 class MessageHandledNotifier(object):
     """ pseudo subclassing the Event class to treat the message like an event """
 
-- 
2.43.0


From 32516988188e3b7e9e8da0229f13142acadda196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 16/45] fix: a failed post to the event queue does not repeat
 the previous events

---
 pyogp/lib/base/event_queue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 0c06fe3..2d53856 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -194,6 +194,8 @@ class EventQueueClient(object):
                         else:
                             host_string = ''
                         logger.info("Received an error we ought not care about%s: %s" % (host_string, error))
+                        # self.result is that of an earlier post, which has been handled
+                        continue
 
                     if self.result != None: 
                         self.last_id = self.result['id']
-- 
2.43.0


From 1d6a30e9bf951aacd52dd7fe0d19d3a0eab00f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 17/45] fix: stop_monitors without an event queue

---
 pyogp/lib/base/message_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 0858dec..37aaccc 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -142,7 +142,7 @@ class MessageManager(object):
 
         #stops event_queue
 
-        if self.event_queue._running:
+        if self.event_queue != None and self.event_queue._running:
             self.event_queue.stop()        
 
     def monitor_outgoing_queue(self):
-- 
2.43.0


From 8e8e13f4b9e4e489f3468dea0054782b880aeb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 18/45] fix: warn about unusable template and message.xml
 arguments

---
 pyogp/lib/base/message/udpdispatcher.py | 2 +-
 pyogp/lib/base/message_manager.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index b0c4916..6a3b6c6 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -78,7 +78,7 @@ class UDPDispatcher(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
                 self.message_template = None
 
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 37aaccc..4c8bd2b 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -71,7 +71,7 @@ class MessageManager(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
 
                 from pyogp.lib.base.data import msg_tmpl
@@ -85,7 +85,7 @@ class MessageManager(object):
             if isinstance(message_xml, file):
                 self.message_xml = MessageDotXML(message_xml = message_xml.read())
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message.xml" % (message_xml, type(message_xml)))
                 self.message_xml = MessageDotXML()
 
-- 
2.43.0


From 4b3441a318329fce0dfb0cb0c94ff66287ad3768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 19/45] fix: the template parser can raise its own exceptions

---
 pyogp/lib/base/message/template_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 4dd402a..f403eeb 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -23,6 +23,7 @@ import re
 import pprint
 
 #local libraries
+from pyogp.lib.base import exc
 import template
 from data import msg_tmpl
 from msgtypes import MsgFrequency, MsgTrust, MsgEncoding
-- 
2.43.0


From 4cdfbb8b527314580ebe1b3526809c040fbe3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 20/45] fix: low frequency message numbers have two bytes

---
 pyogp/lib/base/message/template_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index f403eeb..c79768f 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -137,7 +137,7 @@ class MessageTemplateParser(object):
             msg_num_hex = binTemp
             msg_num = struct.unpack('>h', '\x00' + binTemp[3])[0]
         elif frequency == MsgFrequency.LOW_FREQUENCY_MESSAGE:
-            msg_num_hex = struct.pack('>BBB', 0xff, 0xff, msg_num)
+            msg_num_hex = struct.pack('>BBH', 0xff, 0xff, msg_num)
         elif frequency == MsgFrequency.MEDIUM_FREQUENCY_MESSAGE:
             msg_num_hex = struct.pack('>BB', 0xff, msg_num)
         elif frequency == MsgFrequency.HIGH_FREQUENCY_MESSAGE:
-- 
2.43.0


From 68a93ea8a34e5eace87a339a83450b8c1507c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 21/45] fix: refuse to serialize data that its length or count
 field cannot hold

---
 pyogp/lib/base/message/udpserializer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 5e7bf45..dcdcf20 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -135,6 +135,8 @@ class UDPMessageSerializer(object):
         #mark how many blocks there are of this type that repeat, stored in
         #the data
         if template_block.block_type == MsgBlockType.MBT_VARIABLE:
+            if block_count > 255:
+                raise exc.MessageSerializationError(template_block.name, "too many blocks")
             block_buffer += struct.pack('>B', block_count)
             bytes += 1            
 
@@ -155,6 +157,12 @@ class UDPMessageSerializer(object):
                 if variable == None:
                     raise exc.MessageSerializationError(variable.name, "variable value is not set")
 
+                #variable data has to fit its length field, anything else is as long as the template says
+                if v.type == MsgType.MVT_VARIABLE:
+                    if len(data) >= 1 << (8 * var_size):
+                        raise exc.MessageSerializationError(v.name, "variable is too long")
+                elif len(data) != var_size:
+                    raise exc.MessageSerializationError(v.name, "variable size mismatch")
 
                 #if its a VARIABLE type, we have to write in the size of the data
                 if v.type == MsgType.MVT_VARIABLE:
-- 
2.43.0


From 9fbc8fc6a005aa64840888399b9bae25edd4f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 22/45] fix: serialize messages without any repeat of a
 variable block

---
 pyogp/lib/base/message/udpserializer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index dcdcf20..62031cd 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -120,7 +120,11 @@ class UDPMessageSerializer(object):
         #the MsgData blocks is a list of lists
         #each block in the list is a block_list because you can have more than
         #one block for any given name
-        block_list = message_data.get_block(template_block.name)
+        if template_block.block_type == MsgBlockType.MBT_VARIABLE:
+            #there may be none of them
+            block_list = message_data.blocks.get(template_block.name, [])
+        else:
+            block_list = message_data.get_block(template_block.name)
         block_count = len(block_list)
 
         #multiple block type means there is a static number of these blocks
-- 
2.43.0


From ecdc08920e1e9f48f71585eb6db8e95f3dba6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 23/45] fix: a GET on a capability sends the custom headers

---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 0d05b33..b7df45d 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -71,7 +71,7 @@ class Capability(object):
         if self.settings.ENABLE_CAPS_LOGGING: logger.debug('%s: GETing %s' %(self.name, self.public_url))
 
         try:
-            response = self.restclient.GET(self.public_url)
+            response = self.restclient.GET(self.public_url, headers=custom_headers)
         except HTTPError, e:
             if e.code==404:
                 raise ResourceNotFound(self.public_url)
-- 
2.43.0


From 35311d5b8c18d5651c65d2672b7aa0d4e5c3baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 24/45] fix: an LLSD document may be the number zero

---
 pyogp/lib/base/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 518e9df..b6cfd2a 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -266,7 +266,7 @@ class LLSDDeserializer(object):
             r = llsd.parse(data)
         except llsd.LLSDParseError, e:
             raise DeserializationFailed(data, str(e))
-        if r==False:
+        if r is False:
             raise DeserializationFailed(data, 'result was False')
         return r
 
-- 
2.43.0


From 2094c3e11c405bb0ec9980aefdf305623a193bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 25/45] fix: check that a message has a template before using
 it

---
 pyogp/lib/base/message/udpserializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 62031cd..17254ce 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -62,6 +62,9 @@ class UDPMessageSerializer(object):
 
         self.set_current_template()
 
+        if self.current_template == None:
+            return None
+
         # validate whether we are allowed to receive this message over udp
         if not self.message_xml.validate_udp_msg(self.current_template.name):
             logger.warning("Sending '%s' over UDP, which is deprecated. Discarding." % (self.current_template.name))
@@ -82,9 +85,6 @@ class UDPMessageSerializer(object):
         #pack in the offset to the data. NOTE: for 1 byte, endian doesn't matter
         msg_buffer += self.packer.pack_data(0, MsgType.MVT_U8)
 
-        if self.current_template == None:
-            return None
-
         #don't need to pack the frequency and message number. The template
         #stores it because it doesn't change per template.
         pack_freq_num = self.current_template.msg_num_hex
-- 
2.43.0


From 29583189a1631889d48b416520ab32ab62fe713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 26/45] fix: a failed last ack does not leave the event queue
 running

---
 pyogp/lib/base/event_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 2d53856..bce8ac4 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -211,7 +211,10 @@ class EventQueueClient(object):
                 # Need to ack the last message received, otherwise it will be
                 # resent if we re-connect to the same queue
                 self.data = {'ack':self.last_id, 'done':True}
-                self.cap.POST(self.data)
+                try:
+                    self.cap.POST(self.data)
+                except Exception, error:
+                    logger.warning("Error in the last post to the event queue. Error was: %s" % (error))
 
             self._running = False
 
-- 
2.43.0


From 6ef153bc13f33db048c72bd33f7c308fc6161aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 27/45] fix: the event queue of a message manager has the
 manager's settings

---
 pyogp/lib/base/message_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 4c8bd2b..b5a4ee6 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -98,6 +98,7 @@ class MessageManager(object):
         self.capabilities = capabilities
         if self.capabilities.has_key('EventQueueGet'):
             self.event_queue = EventQueueClient(self.capabilities['EventQueueGet'], 
+                                                settings = self.settings,
                                                 message_handler = self.message_handler, 
                                                 host = self.host)
         else:
-- 
2.43.0


From da73ad01fdbae48233eba1eaa2604a1e5fe6442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 28/45] fix: capabilities of a seed capability have its
 settings

---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index b7df45d..08c46b2 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -187,7 +187,7 @@ class SeedCapability(Capability):
         caps = {}
         for name in names:
             # TODO: some caps might be seed caps, how do we know? 
-            caps[name]=Capability(name, parsed_result[name], self.restclient)
+            caps[name]=Capability(name, parsed_result[name], self.restclient, self.settings)
 
         return caps
 
-- 
2.43.0


From 4728db670cc970fd14ca14bdaab736b90965626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 29/45] fix: the embedded template is in the message package

---
 pyogp/lib/base/message_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index b5a4ee6..e4073b5 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -74,7 +74,7 @@ class MessageManager(object):
                 logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
 
-                from pyogp.lib.base.data import msg_tmpl
+                from pyogp.lib.base.message.data import msg_tmpl
                 self.message_template = msg_tmpl
 
         # allow the passing in of message.xml as a file handle
-- 
2.43.0


From e50ee9fe951702e6bab9b208d6f867d0a1f570d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 30/45] fix: components that do not handle packets can be
 created

---
 pyogp/lib/base/message/udpdeserializer.py | 2 +-
 pyogp/lib/base/message/udpdispatcher.py   | 2 +-
 pyogp/lib/base/message_manager.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 1bb7c29..407c003 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -62,7 +62,7 @@ class UDPMessageDeserializer(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             self.message_handler = MessageHandler()
 
     def deserialize(self, context):
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 6a3b6c6..08b8b60 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -93,7 +93,7 @@ class UDPDispatcher(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             from pyogp.lib.base.message.message_handler import MessageHandler
             self.message_handler = MessageHandler()
 
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index e4073b5..15802f4 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -61,7 +61,7 @@ class MessageManager(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             self.message_handler = MessageHandler()
 
         # allow the passing in of message_template.msg as a file handle
-- 
2.43.0


From 36c23bb2de38a697caca62585858ac4841b9e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 31/45] fix: stop_monitors also stops an event queue that was
 spawned but does not run yet

---
 pyogp/lib/base/message_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 15802f4..18502f4 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -139,11 +139,12 @@ class MessageManager(object):
 
         #stops udp_dispatcher
 
+        was_running = self._is_running
         self._is_running = False
 
-        #stops event_queue
+        #stops event_queue, which may be spawned but not running yet
 
-        if self.event_queue != None and self.event_queue._running:
+        if self.event_queue != None and (was_running or self.event_queue._running):
             self.event_queue.stop()        
 
     def monitor_outgoing_queue(self):
-- 
2.43.0


From d621231f6ce8a87b667c9cbdd70e7962c1b0fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 32/45] fix: a message as a dict holds every repeat of its
 blocks

---
 pyogp/lib/base/message/message.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index b9f2529..3cb86bc 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -140,10 +140,10 @@ class Message(MessageBase):
                     this_var = _vars.get_variable(avar)
                     new_vars[this_var.name] = this_var.data
  
-            if block in base_repr['body']:
-                base_repr['body'][block].append(new_vars)
-            else: 
-                base_repr['body'][block] = [new_vars]
+                if block in base_repr['body']:
+                    base_repr['body'][block].append(new_vars)
+                else: 
+                    base_repr['body'][block] = [new_vars]
 
         return base_repr
 
-- 
2.43.0


From 8fe208723209419ae69c700c5f0b244f9ba8d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 33/45] fix: messages with non-ascii text or odd fixed-size
 data can be shown

---
 pyogp/lib/base/message/template.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/template.py b/pyogp/lib/base/message/template.py
index 52a033f..09b6b64 100644
--- a/pyogp/lib/base/message/template.py
+++ b/pyogp/lib/base/message/template.py
@@ -90,10 +90,13 @@ class MsgVariableData(object):
         return MsgType.MVT_as_string(self.var_type) #LDE 23oct2008 adding var_type_as_string to allow for easier display
 
     def get_data_as_string(self):
-        if self.var_type == MsgType.MVT_VARIABLE:
+        if isinstance(self.data, unicode):
+            return self.data.encode('utf-8')
+        elif self.var_type == MsgType.MVT_VARIABLE:
             return self.data
         elif self.var_type == MsgType.MVT_FIXED:
-            return str(struct.unpack('h'*(len(self.data)/2), self.data))
+            size = len(self.data)
+            return str(struct.unpack('h'*(size/2) + 'b'*(size%2), self.data))
         else: 
             return str(self.data)
 
-- 
2.43.0


From 927e11ad792fb68f72f6a1c09ed602d84984e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 34/45] fix: whatever the LLSD parser raises is a failed
 deserialization

---
 pyogp/lib/base/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index b6cfd2a..b8aed22 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -266,6 +266,9 @@ class LLSDDeserializer(object):
             r = llsd.parse(data)
         except llsd.LLSDParseError, e:
             raise DeserializationFailed(data, str(e))
+        except (IndexError, ValueError), e:
+            # incomplete elements, or text that is no number, uuid or date
+            raise DeserializationFailed(data, repr(e))
         if r is False:
             raise DeserializationFailed(data, 'result was False')
         return r
-- 
2.43.0


From 75384cc7b433b8ac30f49ea62bc3cc657d522f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 35/45] fix: false is a valid LLSD document

---
 pyogp/lib/base/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index b8aed22..c592ebb 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -269,7 +269,7 @@ class LLSDDeserializer(object):
         except (IndexError, ValueError), e:
             # incomplete elements, or text that is no number, uuid or date
             raise DeserializationFailed(data, repr(e))
-        if r is False:
+        if r is False and not data.strip():
             raise DeserializationFailed(data, 'result was False')
         return r
 
-- 
2.43.0


From 40e092478eaf184778ded2f91b6d96309b5d80e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 36/45] fix: a template that lacks the count of a block or the
 size of a field is refused as such

---
 pyogp/lib/base/message/template_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index c79768f..397be22 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -191,6 +191,8 @@ class MessageTemplateParser(object):
             block_type = MsgBlockType.MBT_SINGLE
         elif match.group(2) == 'Multiple':
             block_type = MsgBlockType.MBT_MULTIPLE
+            if match.group(4) == None:
+                raise exc.MessageTemplateParsingError("no count for block %s" % (match.group(1)))
             block_num = int(match.group(4))
         elif match.group(2) == 'Variable':
             block_type = MsgBlockType.MBT_VARIABLE
@@ -248,6 +250,8 @@ class MessageTemplateParser(object):
             elif type_string == 'Variable':
                 var_type = MsgType.MVT_VARIABLE
 
+            if match.group(4) == None:
+                raise exc.MessageTemplateParsingError("no size for %s %s" % (type_string, match.group(1)))
             var_size = int(match.group(4))
             if var_size <= 0:
                 raise exc.MessageTemplateParsingError("variable size %s does not match %s" % (var_size, type_string))
-- 
2.43.0


From 5e2538721d86dac028c47a848835080d17df0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 37/45] fix: comments behind a declaration of the template are
 no declarations

---
 pyogp/lib/base/message/template_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 397be22..0647687 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -78,6 +78,7 @@ class MessageTemplateParser(object):
                 break
             if re.match(comment_re, line):
                 continue
+            line = line.split('//')[0]
 
             start = re.match(start_re, line)
             end = re.match(end_re, line)
-- 
2.43.0


From 8b92cfabd9e8972e8696c3cc59674ab88f8dd4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 38/45] fix: send_retry takes the message and the host in the
 order of its arguments

---
 pyogp/lib/base/message/udpdispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 08b8b60..cb906c2 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -182,7 +182,7 @@ class UDPDispatcher(object):
     def send_retry(self, message, host):
         """ This is a retry because we didn't get acked """
         #sets up the message so send_message will add the RETRY flag to it
-        return self.__send_message(host, message, retrying=True)                
+        return self.__send_message(message, host, retrying=True)                
 
     def send_message(self, message, host):
         return self.__send_message(message, host)
@@ -271,7 +271,7 @@ class UDPDispatcher(object):
 
                 self.send_buffer = ''
                 self.send_buffer += unacked_packet.buffer
-                self.send_retry(unacked_packet.host, unacked_packet.buffer)
+                self.send_retry(unacked_packet.buffer, unacked_packet.host)
 
                 if unacked_packet.retries <= 0:
 
-- 
2.43.0


From 61f5c742f0bfeeedd9687a6461e04c9c46c08214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 39/45] fix: a UDP client can be shown

---
 pyogp/lib/base/network/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 82e74e5..b181215 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -67,7 +67,7 @@ class NetUDPClient(object):
 
     def __repr__(self):
 
-        return self.sender.__repr__
+        return repr(self.sender)
 
 """
 Contributors can be viewed at:
-- 
2.43.0


From 482db88361f65cba47a7cd0e33f6b6c2b19736a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:23 +0000
Subject: [PATCH 40/45] fix: a raising handler lost the remaining events of an
 event queue answer

---
 pyogp/lib/base/event_queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index bce8ac4..51c60e6 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -256,7 +256,12 @@ class EventQueueClient(object):
                 parsed_data = self._decode_eq_result(data)
 
                 for packet in parsed_data:
-                    self.message_handler.handle(packet)
+                    try:
+                        self.message_handler.handle(packet)
+                    except Exception, error:
+                        # the other events of the answer are not sent again
+                        traceback.print_exc()
+                        logger.warning("Error handling %s%s. Error: %s" % (packet.name, host_string, error))
 
         except Exception, error:
 
-- 
2.43.0


From 37a8071442674d44e7cb1e3591f4e53aae0a4918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:29 +0000
Subject: [PATCH 41/45] fix: listing the templates of a dictionary made from a
 list raised AttributeError

---
 pyogp/lib/base/message/template_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/template_dict.py b/pyogp/lib/base/message/template_dict.py
index 3ce62df..61bd0f5 100644
--- a/pyogp/lib/base/message/template_dict.py
+++ b/pyogp/lib/base/message/template_dict.py
@@ -38,8 +38,9 @@ class TemplateDictionary(object):
 
             template_list = parser.message_templates
             template_dict = TemplateDictionary(template_list)
-            # adding below so we can check how many packets we can parse easily len(self.template_list)
-            self.template_list = template_list
+
+        # adding below so we can check how many packets we can parse easily len(self.template_list)
+        self.template_list = template_list
 
         # maps name to template
         self.message_templates = {}
-- 
2.43.0


From 125f8109d5b0262b3b8df7599804834cb846a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:12 +0000
Subject: [PATCH 42/45] fix: a message.xml file given to a second message
 manager was ignored

---
 pyogp/lib/base/message_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 18502f4..95c07dd 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -83,6 +83,8 @@ class MessageManager(object):
             self.message_xml = MessageDotXML()
         else:
             if isinstance(message_xml, file):
+                # the file may have been read for another manager
+                message_xml.seek(0)
                 self.message_xml = MessageDotXML(message_xml = message_xml.read())
             else:
                 logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
-- 
2.43.0


From bb3625828944e62739818d69f0d11ad4792276d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:49 +0000
Subject: [PATCH 43/45] fix: a message with no or several blocks where the
 template has a single one was sent or raised KeyError

The receiver reads exactly one such block, so further ones were taken for the
fields that follow.
---
 pyogp/lib/base/message/udpserializer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 17254ce..8631c75 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -120,11 +120,8 @@ class UDPMessageSerializer(object):
         #the MsgData blocks is a list of lists
         #each block in the list is a block_list because you can have more than
         #one block for any given name
-        if template_block.block_type == MsgBlockType.MBT_VARIABLE:
-            #there may be none of them
-            block_list = message_data.blocks.get(template_block.name, [])
-        else:
-            block_list = message_data.get_block(template_block.name)
+        #there may be none of them
+        block_list = message_data.blocks.get(template_block.name, [])
         block_count = len(block_list)
 
         #multiple block type means there is a static number of these blocks
@@ -135,6 +132,11 @@ class UDPMessageSerializer(object):
             if template_block.number != block_count:
                 raise exc.MessageSerializationError(template_block.name, "block data mismatch")
 
+        #single means there is exactly one, which is not counted in the buffer either
+        if template_block.block_type == MsgBlockType.MBT_SINGLE:
+            if block_count != 1:
+                raise exc.MessageSerializationError(template_block.name, "block data mismatch")
+
         #variable means the block variables can repeat, so we have to
         #mark how many blocks there are of this type that repeat, stored in
         #the data
-- 
2.43.0


From d8ff71047a6fe09b2cd29440f60aac246faf1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:29 +0000
Subject: [PATCH 44/45] fix: Wait lasts fractions of a second too instead of
 cutting them off

---
 pyogp/lib/base/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index c592ebb..5b9bba3 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -287,7 +287,7 @@ class Wait(object):
 
     def __init__(self, duration):
 
-        self.duration = int(duration)
+        self.duration = float(duration)
 
         # let's be nice and enabled a kill switch
         self.enabled = False
-- 
2.43.0


From c837b8b67eb0efb8c802b62d39b2ac94c1f8197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:14 +0000
Subject: [PATCH 45/45] fix: a component hands its settings on to the message
 handler it makes

---
 pyogp/lib/base/event_queue.py             | 2 +-
 pyogp/lib/base/message/udpdeserializer.py | 2 +-
 pyogp/lib/base/message/udpdispatcher.py   | 2 +-
 pyogp/lib/base/message_manager.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 51c60e6..00054bd 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -79,7 +79,7 @@ class EventQueueClient(object):
         if message_handler != None:
             self.message_handler = message_handler
         else:
-            self.message_handler = MessageHandler()
+            self.message_handler = MessageHandler(self.settings)
 
         self.host = host
 
diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 407c003..03a352b 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -63,7 +63,7 @@ class UDPMessageDeserializer(object):
         if message_handler != None:
             self.message_handler = message_handler
         else:
-            self.message_handler = MessageHandler()
+            self.message_handler = MessageHandler(self.settings)
 
     def deserialize(self, context):
 
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index cb906c2..785c8c9 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -95,7 +95,7 @@ class UDPDispatcher(object):
             self.message_handler = message_handler
         else:
             from pyogp.lib.base.message.message_handler import MessageHandler
-            self.message_handler = MessageHandler()
+            self.message_handler = MessageHandler(self.settings)
 
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 95c07dd..0e13193 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -62,7 +62,7 @@ class MessageManager(object):
         if message_handler != None:
             self.message_handler = message_handler
         else:
-            self.message_handler = MessageHandler()
+            self.message_handler = MessageHandler(self.settings)
 
         # allow the passing in of message_template.msg as a file handle
         if not message_template:
-- 
2.43.0

