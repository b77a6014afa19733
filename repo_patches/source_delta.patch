From 019a5f49fe269e46695f2298e663e360eaac8a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 01/54] fix: Node.sendAndReceive lost a report that arrived
 before the ack

The session registered before sending was not handed to waitForMessage, which
registered a new one when the report had already resolved the first.
---
 pyzwave/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index c75c56c..d89b7f9 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,12 +244,12 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        self.addWaitingSession(waitFor)
+        session = self.addWaitingSession(waitFor)
         retval = await self.send(cmd, **kwargs)
         if not retval:
             # Node did not wakeup in time!
             raise asyncio.TimeoutError()
-        return await self.waitForMessage(waitFor, timeout=timeout)
+        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
 
     @contextmanager
     def storageLock(self):
-- 
2.43.0


From 632c12860aa96cf530c37ad4241160dc998a3f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 02/54] fix: wrap the network management sequence number to one
 byte

The 256th network management command could not be composed (OverflowError).
---
 pyzwave/zipgateway.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d8f5b11..9948fac 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -32,7 +32,7 @@ class ZIPGateway(ZIPConnection):
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.ANY_S2,
@@ -48,7 +48,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddDSKSet(
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
@@ -61,7 +61,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddKeysSet(
             seqNo=self._nmSeq,
             grantCSA=grantCSA,
@@ -75,7 +75,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def addNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.STOP,
@@ -106,7 +106,7 @@ class ZIPGateway(ZIPConnection):
         return connection
 
     async def getFailedNodeList(self) -> list:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.FailedNodeListGet(seqNo=self._nmSeq,)
         try:
             report = await self.sendAndReceive(
@@ -117,7 +117,7 @@ class ZIPGateway(ZIPConnection):
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelEndPointGet(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -133,7 +133,7 @@ class ZIPGateway(ZIPConnection):
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
     ) -> NetworkManagementProxy.MultiChannelCapabilityReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelCapabilityGet(
             seqNo=self._nmSeq, nodeID=nodeId, endPoint=endpoint
         )
@@ -150,7 +150,7 @@ class ZIPGateway(ZIPConnection):
         if self._nodes:
             # Return cached list
             return set(self._nodes.keys())
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeListGet(seqNo=self._nmSeq)
         try:
             report = await self.sendAndReceive(
@@ -166,7 +166,7 @@ class ZIPGateway(ZIPConnection):
     async def getNodeInfo(
         self, nodeId: int
     ) -> NetworkManagementProxy.NodeInfoCachedReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeInfoCachedGet(
             seqNo=self._nmSeq, maxAge=15, nodeID=nodeId
         )
@@ -206,7 +206,7 @@ class ZIPGateway(ZIPConnection):
     async def removeFailedNode(
         self, nodeId: int
     ) -> NetworkManagementInclusion.FailedNodeRemoveStatus.Status:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.FailedNodeRemove(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -221,7 +221,7 @@ class ZIPGateway(ZIPConnection):
         return report.status
 
     async def removeNode(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.ANY
         )
@@ -233,7 +233,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def removeNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.STOP
         )
-- 
2.43.0


From 60b0b9c0a71762a62b6e7ab02b6e563edebaf9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 03/54] fix: accept a queued nack without a header extension

---
 pyzwave/adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 4a6e05f..459b2d0 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -78,7 +78,8 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             ack = self._ackQueue.get(ackId, None)
             if not ack:
                 return False
-            ack.queued(zipPkt.headerExtension.expectedDelay)
+            # The header extension is optional, treat a missing one as no delay
+            ack.queued(getattr(zipPkt.headerExtension, "expectedDelay", 0))
             return True
         ack = self._ackQueue.pop(ackId, None)
         if not ack:
-- 
2.43.0


From c2c2968c842760451593485da35e52630fb22eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 04/54] fix: one session per waiter, removed when the waiter is
 done

---
 pyzwave/adapter.py |  7 +++++--
 pyzwave/node.py    | 13 ++++++++-----
 pyzwave/util.py    | 26 ++++++++++++++++----------
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 459b2d0..29d1b41 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -212,8 +212,11 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
     ) -> Message:
         """Send a message and wait for the response"""
         session = self.addWaitingSession(waitFor)
-        await self.send(cmd, **kwargs)
-        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        try:
+            await self.send(cmd, **kwargs)
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @abc.abstractmethod
     async def setNodeInfo(self, generic, specific, cmdClasses):
diff --git a/pyzwave/node.py b/pyzwave/node.py
index d89b7f9..80784b6 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -245,11 +245,14 @@ class Node(Listenable, MessageWaiter):
     ) -> Message:
         """Send a message and wait for the response"""
         session = self.addWaitingSession(waitFor)
-        retval = await self.send(cmd, **kwargs)
-        if not retval:
-            # Node did not wakeup in time!
-            raise asyncio.TimeoutError()
-        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        try:
+            retval = await self.send(cmd, **kwargs)
+            if not retval:
+                # Node did not wakeup in time!
+                raise asyncio.TimeoutError()
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @contextmanager
     def storageLock(self):
diff --git a/pyzwave/util.py b/pyzwave/util.py
index b90edd0..b0a74ed 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -174,20 +174,26 @@ class MessageWaiter:
         Setup the session to wait for _before_ doing the wait. Do this to avoid
         a race condition where the message is received before we wait for it
         """
-        hid = msgType.hid()
-        session = self._sessions.get(hid, None)
-        if not session:
-            session = asyncio.get_event_loop().create_future()
-            self._sessions[hid] = session
+        session = asyncio.get_event_loop().create_future()
+        self._sessions.setdefault(msgType.hid(), []).append(session)
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
-        session = self._sessions.pop(message.hid(), None)
-        if session:
+        handled = False
+        for session in self._sessions.pop(message.hid(), []):
+            if session.done():
+                # The waiter has given up (timeout or cancelled)
+                continue
             session.set_result(message)
-            return True
-        return False
+            handled = True
+        return handled
+
+    def removeWaitingSession(self, msgType, session):
+        """Remove a session that is no longer waited for"""
+        sessions = self._sessions.get(msgType.hid(), [])
+        if session in sessions:
+            sessions.remove(session)
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
@@ -199,5 +205,5 @@ class MessageWaiter:
             _LOGGER.warning("Timeout waiting for message %s", msgType)
             raise
         finally:
-            self._sessions.pop(msgType.hid(), None)
+            self.removeWaitingSession(msgType, session)
         return session.result()
-- 
2.43.0


From 1468f042cf58737980a41d61eca552dc82e546ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 05/54] fix: forget the ack id when the waiter is done, also if
 cancelled

---
 pyzwave/adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 29d1b41..49dbc32 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -237,5 +237,7 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             await ack.wait(timeout)
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout waiting for response for ack %s", ackId)
-            del self._ackQueue[ackId]
             raise
+        finally:
+            if self._ackQueue.get(ackId) is ack:
+                del self._ackQueue[ackId]
-- 
2.43.0


From 00a230daf9ff91b15b153267558755c6732e2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 06/54] fix: do not reuse the sequence number of a command
 waiting for its ack

---
 pyzwave/zipconnection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 4643208..e886713 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -138,7 +138,11 @@ class ZIPConnection(Adapter):
         self._keepAlive = asyncio.get_event_loop().call_later(25, self.keepAlive)
 
     async def send(self, cmd, sourceEP=0, destEP=0, timeout=3) -> bool:
-        self._seq = (self._seq + 1) & 0xFF
+        for _ in range(256):
+            self._seq = (self._seq + 1) & 0xFF
+            if self._seq not in self._ackQueue:
+                # Not used by a command still waiting for its ack
+                break
         msg = Zip.ZipPacket(
             ackRequest=True,
             ackResponse=False,
-- 
2.43.0


From 941a66af68dc248d8d2eaef54814cd1b12b39eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 07/54] fix: always send reserved bits as zero

---
 pyzwave/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 64dc0d3..c5e3b4a 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -329,6 +329,10 @@ def reserved_t(size):  # pylint: disable=invalid-name
         default = 0
         sizeBits = size
 
+        def serialize(self, stream: BitStreamWriter):
+            """Reserved bits are always sent as zero, whatever was received"""
+            stream.addBits(0, self.sizeBits)
+
     return reserved_t
 
 
-- 
2.43.0


From 3eca1bd31594af83bba5bea1bfbb71a5d65b82f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 08/54] fix: write the length of the command encapsulated in a
 supervision get

---
 pyzwave/commandclass/Supervision.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Supervision.py b/pyzwave/commandclass/Supervision.py
index fb16621..e95f58d 100644
--- a/pyzwave/commandclass/Supervision.py
+++ b/pyzwave/commandclass/Supervision.py
@@ -1,5 +1,12 @@
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bits_t, flag_t, reserved_t, uint8_t
+from pyzwave.types import (
+    BitStreamReader,
+    BitStreamWriter,
+    bits_t,
+    flag_t,
+    reserved_t,
+    uint8_t,
+)
 from . import ZWaveMessage, registerCmdClass
 
 
@@ -23,6 +30,12 @@ class Get(Message):
         ("command", Message),
     )
 
+    def compose_command(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Write the command prefixed with its length"""
+        command = self.command.compose()
+        stream.addBytes(len(command), 1, False)
+        stream.extend(command)
+
     @staticmethod
     def parse_command(stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse the length prefixed command"""
-- 
2.43.0


From 15bc5e81cfbc18b5c9a658c45b270725520c6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 09/54] fix: do not restore a stored interviewed: false as
 interviewed

---
 pyzwave/commandclass/CommandClass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 240ca51..c92b416 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -201,7 +201,8 @@ class CommandClass(AttributesMixin, Listenable):
 
     def __setstate__(self, state):
         self._version = int(state.get("version", 0))
-        self._interviewed = bool(state.get("interviewed", False))
+        # The storage may return the value as a string
+        self._interviewed = str(state.get("interviewed", False)).lower() == "true"
         super().__setstate__(state)
 
     @staticmethod
-- 
2.43.0


From 3eac3cf91c9ae948960fd8ce347b5e45dec4ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 10/54] fix: store values of builtin types, not the null state
 Python 3.11 gives them

---
 pyzwave/commandclass/CommandClass.py |  4 ++--
 pyzwave/util.py                      | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index c92b416..8dbc2e3 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -2,7 +2,7 @@ import asyncio
 import logging
 from typing import Dict, Any
 
-from pyzwave.util import AttributesMixin, Listenable
+from pyzwave.util import AttributesMixin, Listenable, stateOf
 from pyzwave.commandclass import ZWaveCommandClass
 from pyzwave.message import Message
 
@@ -42,7 +42,7 @@ def VarDictAttribute(KeyType, ValueType):  # pylint: disable=invalid-name
             return "{}:\n{}".format(self.__class__.__name__, "\n".join(attrs))
 
         def __getstate__(self):
-            return {i: value.__getstate__() for i, value in self.items()}
+            return {i: stateOf(value) for i, value in self.items()}
 
         def __setitem__(self, name, value):
             if isinstance(value, ValueType):
diff --git a/pyzwave/util.py b/pyzwave/util.py
index b0a74ed..3b137a4 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -10,6 +10,18 @@ from pyzwave.types import BitStreamReader
 _LOGGER = logging.getLogger(__name__)
 
 
+def stateOf(value):
+    """
+    Return the state to store for a value. Values of types not defining a state, such as
+    the builtin ones, are stored as is.
+    """
+    getstate = getattr(type(value), "__getstate__", None)
+    # All objects inherits a __getstate__ from Python 3.11
+    if getstate is None or getstate is getattr(object, "__getstate__", None):
+        return value
+    return value.__getstate__()
+
+
 class AttributesMixin:
     """Inheritable class to implement defined attributes"""
 
@@ -80,10 +92,7 @@ class AttributesMixin:
     def __getstate__(self) -> Dict[str, Any]:
         values = {}
         for attr, value in self._attributes.items():
-            if hasattr(value, "__getstate__"):
-                values[attr] = value.__getstate__()
-            else:
-                values[attr] = value
+            values[attr] = stateOf(value)
         return values
 
     def __setattr__(self, name, value):
-- 
2.43.0


From ac3a77e29bbaef9da38122e18abe9794ed8d80b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 11/54] fix: ignore unsolicited datagrams that are not Z/IP
 packets

---
 pyzwave/zipgateway.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 9948fac..d659e89 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -263,7 +263,15 @@ class ZIPGateway(ZIPConnection):
         Called when an unsolicited message is received.
         We do not know the node id the message is from. Only the ip address.
         """
-        zipPkt = Message.decode(pkt)
+        try:
+            zipPkt = Message.decode(pkt)
+        except Exception:
+            _LOGGER.error("Could not decode message. Raw message:")
+            _LOGGER.error("%s", pkt)
+            return False
+        if not isinstance(zipPkt, Zip.ZipPacket):
+            _LOGGER.warning("Received unknown unsolicited message: %s", zipPkt)
+            return False
         sourceIp = ipaddress.IPv6Address(address[0])
         sourceEP = zipPkt.sourceEP
 
-- 
2.43.0


From 8531b1e88f972e1e77935a3d52675b4d43df40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 12/54] fix: do not pass on Z/IP packets that carry no command

---
 pyzwave/adapter.py    | 3 +++
 pyzwave/zipgateway.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 49dbc32..77179c7 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -124,6 +124,9 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             msg = cmd.command
         else:
             msg = cmd
+        if msg is None:
+            _LOGGER.warning("Received packet without command: %s", cmd)
+            return
         if not self.messageReceived(msg):
             self.speak("onMessageReceived", cmd)
 
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d659e89..7da084a 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -287,6 +287,9 @@ class ZIPGateway(ZIPConnection):
                 ackReponse = zipPkt.response(success=True)
                 self._unsolicitedConnection.sendTo(ackReponse.compose(), address)
 
+            if zipPkt.command is None:
+                # Nothing to pass on
+                return True
             self.speak(
                 "messageReceived",
                 nodeId,
-- 
2.43.0


From c71e3e1556a012c7dda69c59379f24d4a56a600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 13/54] fix: reading the remaining bytes must end at the end of
 the stream

---
 pyzwave/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index c5e3b4a..39bba95 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -48,7 +48,7 @@ class BitStreamReader:
         """Return all the remaining bytes in the stream"""
         startByte = int(self._start / 8)
         if advance:
-            self.advance(len(self._value) * 8)
+            self._start = max(self._start, len(self._value) * 8)
         return self._value[startByte:]
 
     def value(self, size: int, advance: bool = True) -> bytes:
-- 
2.43.0


From 4444d0f08b2bd9bf8ac40a16a4d4e44747b910b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 14/54] fix: decode all 29 bytes of a node list, nodes 225-232
 were lost

---
 pyzwave/commandclass/NetworkManagementProxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index b5fd04d..0c3c70f 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -37,7 +37,7 @@ class NodeList(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize nodes from stream"""
         nodeList = cls()
-        for i in range(28):
+        for i in range(29):
             nodeByte = uint8_t.deserialize(stream)
             for j in range(8):
                 if nodeByte & (1 << j):
-- 
2.43.0


From 90e4e3432c5cbb9f88bcf60ce44d8680d66d0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 15/54] fix: decode sensor type bit masks of several bytes and
 with unlisted types

---
 pyzwave/commandclass/SensorMultilevel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 7e5c134..eb15e23 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -56,11 +56,15 @@ class SensorSupported(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize types from stream"""
         supported = cls()
-        value = int.from_bytes(stream.remaining(), byteorder="big", signed=False)
+        value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
         i = 1
         while value > 0:
             if value & 1 == 1:
-                supported.add(SensorType(i))
+                try:
+                    supported.add(SensorType(i))
+                except ValueError:
+                    # Type not known by us, add the raw value
+                    supported.add(i)
             value >>= 1
             i += 1
         return supported
-- 
2.43.0


From 7fe30890eaa9241658db272474427bfc5719681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 16/54] fix: keep a mailbox entry that could not be delivered

---
 pyzwave/mailbox.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 68ca9af..2fa3c6b 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -99,15 +99,21 @@ class MailboxService:
                 ),
             )
         queueItem = self._queue[queueHandle].pop()
-        ret = await self._adapter.sendToNode(
-            nodeId,
-            Mailbox.Queue(
-                last=len(self._queue[queueHandle]) == 0,
-                operation=Mailbox.Queue.Operation.POP,
-                queueHandle=queueHandle,
-                mailboxEntry=queueItem.data,
-            ),
-        )
+        ret = False
+        try:
+            ret = await self._adapter.sendToNode(
+                nodeId,
+                Mailbox.Queue(
+                    last=len(self._queue[queueHandle]) == 0,
+                    operation=Mailbox.Queue.Operation.POP,
+                    queueHandle=queueHandle,
+                    mailboxEntry=queueItem.data,
+                ),
+            )
+        finally:
+            if not ret:
+                # Not delivered, keep it in the queue
+                self._queue[queueHandle].append(queueItem)
         _LOGGER.info("Sent message from queue: %s", ret)
         if ret:
             queueItem.stop()
-- 
2.43.0


From 9788ea272131546dc5e17616c87e1d0ae948f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 17/54] fix: do not queue a message twice if it is pushed again
 while being announced

---
 pyzwave/mailbox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 2fa3c6b..3fac272 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -135,7 +135,8 @@ class MailboxService:
                 mailboxEntry=message,
             ),
         )
-        if ret:
+        if ret and checksum not in [item.checksum for item in self._queue[queueHandle]]:
+            # Checked again since the same message may have been pushed while sending
             queueItem.start()
             self._queue[queueHandle].append(queueItem)
         return ret
-- 
2.43.0


From e4b6d6b6ee495879597a1fea45dd3aa1e1631e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 18/54] fix: mailbox ack with handle 0 before any wakeup
 notification

---
 pyzwave/mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 3fac272..f059bb3 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -158,7 +158,7 @@ class MailboxService:
             isinstance(message, Mailbox.Queue)
             and message.operation == Mailbox.Queue.Operation.ACK
         ):
-            queueHandle = message.queueHandle or self._lastQueueId
+            queueHandle = message.queueHandle or self._lastQueueId or 0
             return await self.__popQueue__(rootNodeId, queueHandle)
 
         if (
-- 
2.43.0


From 63e9687424df05e309eb27ac39366fc5033f16c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 19/54] fix: do not truncate the stored settings if they cannot
 be converted

---
 pyzwave/persistantstorage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c2244e8..7b28c61 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -46,8 +46,10 @@ class YamlStorage(PersistantStorage):
         settings = {"supported": {}}
         for cmdClassId, cmdClass in node.supported.items():
             settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
+        # Convert before opening the file. Opening it truncates what was stored before
+        data = yaml.dump(settings)
         with open(self.pathForNode(node.nodeId), "w") as fd:
-            yaml.dump(settings, fd)
+            fd.write(data)
 
     @property
     def path(self) -> str:
-- 
2.43.0


From 9a6e80804815e7b06cc61fb26a6941809d3406ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 20/54] fix: restore the stored commands of an association
 group as numbers

---
 pyzwave/commandclass/AssociationGrpInfo.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8355033..fb91754 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -23,6 +23,18 @@ from . import ZWaveMessage, ZWaveMessageHandler, ZWaveCommandClass
 from .CommandClass import DictAttribute, CommandClass
 
 
+class Commands(list):
+    """The commands, as pairs of command class and command, sent by a group"""
+
+    def __getstate__(self):
+        return [list(command) for command in self]
+
+    def __setstate__(self, state):
+        for command in state:
+            # The storage may return the values as strings
+            self.append([int(value) for value in command])
+
+
 class Group(DictAttribute):
     """Attribute for an association group"""
 
@@ -31,7 +43,7 @@ class Group(DictAttribute):
         # ("mode", uint8_t),  # Not used according to docs, always zero. No need to save it
         ("profile", uint16_t),
         # ("eventCode", uint16_t),  # Not used according to docs, always zero. No need to save it
-        ("commands", list),
+        ("commands", Commands),
     )
 
 
-- 
2.43.0


From 455c2d59ad04c5fb5c11d7de3f62468b7eaab6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 21/54] fix: ignore a command list report for an unknown
 association group

---
 pyzwave/commandclass/AssociationGrpInfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index fb91754..d4e4188 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -182,6 +182,8 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
+        if report.groupingIdentifier not in self.groupings:
+            return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
         return True
 
-- 
2.43.0


From 09a27c6a10abb069af8e972f5ad5375a8d0a0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 22/54] fix: do not read past the end of a command class list
 ending with 0xF1

---
 pyzwave/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 80784b6..a562eef 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -85,7 +85,8 @@ class Node(Listenable, MessageWaiter):
         securityS0 = False
         while i < len(cmdClasses):
             cmdClass = cmdClasses[i]
-            if cmdClass == 0xF1 and cmdClasses[i + 1] == 0x00:
+            isLast = i + 1 == len(cmdClasses)
+            if cmdClass == 0xF1 and not isLast and cmdClasses[i + 1] == 0x00:
                 # Security Scheme 0 Mark
                 securityS0 = True
                 supported = True
-- 
2.43.0


From 02762cb2358f8bf2870e8ab750602f824572c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 23/54] fix: decode the value of a configuration set

---
 pyzwave/commandclass/Configuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 87e9e86..285debe 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -107,6 +107,10 @@ class Set(Message):
         """Write the value to the bitstream. The value is variable size"""
         stream.addBytes(self.value, self.size, False)
 
+    def parse_value(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Decode the value. The value is variable size"""
+        return int.from_bytes(stream.value(self.size), "big", signed=False)
+
 
 class ConfigurationValue(DictAttribute):
     """Helper class for holding one configuration value"""
-- 
2.43.0


From 4b8a0877184812668a373052595189549abd3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 24/54] fix: decode Z/IP packets with unknown header extension
 options

---
 pyzwave/commandclass/Zip.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 2dfcefb..4ff91e8 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -116,9 +116,13 @@ class ZIPPacketOptionMaintenanceReport(
         """Deserialize ZIP Maintenance Report"""
         retval = {}
         while stream.bytesLeft():
-            imeType = IMEType(stream.byte())
+            imeType = stream.byte()
             length = stream.byte()
             imeVal = stream.value(length)
+            if imeType not in list(IMEType):
+                # Unknown type, skip it
+                continue
+            imeType = IMEType(imeType)
             typeCls = IME_MAPPING.get(imeType, IMEUnknownValue)
             retval[imeType] = typeCls.load(BitStreamReader(imeVal))
         return retval
@@ -138,6 +142,10 @@ class ZIPPacketOptionExpectedDelay(ZIPPacketOptionData, int24_t):
     """Zip Packet option expexted delay"""
 
 
+class ZIPPacketOptionUnknown(ZIPPacketOptionData, bytes_t):
+    """Option not yet implemented"""
+
+
 class ZIPPacketOptionType(IntEnum):
     """ZIP Packet option type"""
 
@@ -159,7 +167,7 @@ class ZIPPacketOption(AttributesMixin):
 
     def parse_optionData(self, stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse attribute optionData"""
-        clsType = ZIPPacketOptionData
+        clsType = ZIPPacketOptionUnknown
         length = stream.byte()
         data = stream.value(length)
         if self.optionType == ZIPPacketOptionType.MAINTENANCE_REPORT:
@@ -204,6 +212,9 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
             option.parseAttributes(reader)
+            if option.optionType not in list(ZIPPacketOptionType):
+                # Unknown option, skip it
+                continue
             retval[option.optionType] = option.optionData
         return retval
 
-- 
2.43.0


From 30c91d292944084b194f1409bdacf4d152bfe71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 25/54] fix: do not use the address advertised for another node

---
 pyzwave/zipgateway.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 7da084a..03782c1 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -200,9 +200,18 @@ class ZIPGateway(ZIPConnection):
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
         self._conn.send(msg.compose())
-        response = await self.waitForMessage(ZipND.ZipNodeAdvertisement, timeout=3)
+        response = await asyncio.wait_for(self.__advertisementOfNode__(nodeId), 3)
         return response.ipv6
 
+    async def __advertisementOfNode__(self, nodeId) -> ZipND.ZipNodeAdvertisement:
+        """Wait for the advertisement of a specific node, ignore the ones for others"""
+        while True:
+            response = await self.waitForMessage(
+                ZipND.ZipNodeAdvertisement, timeout=None
+            )
+            if response.nodeId == nodeId:
+                return response
+
     async def removeFailedNode(
         self, nodeId: int
     ) -> NetworkManagementInclusion.FailedNodeRemoveStatus.Status:
-- 
2.43.0


From 053e7acab04bbaeb21d92c1940b0366cb4dd98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 26/54] fix: nodes changing or not answering while the
 ip-addresses are retrieved

---
 pyzwave/zipgateway.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 03782c1..e96fd13 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -190,12 +190,24 @@ class ZIPGateway(ZIPConnection):
 
         # Find new nodes
         for nodeId in report.nodes:
-            if nodeId in self._nodes:
-                continue
-            # Retrieve ip
-            self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+            self._nodes.setdefault(nodeId, {})
+        await self.__resolveNodes__(report.nodes)
         self.speak("nodeListUpdated")
 
+    async def __resolveNodes__(self, nodeIds):
+        """Retrieve the ip-address of the nodes where it is not yet known"""
+        for nodeId in nodeIds:
+            if nodeId not in self._nodes or self._nodes[nodeId].get("ip"):
+                continue
+            try:
+                ipv6 = await self.ipOfNode(nodeId)
+            except asyncio.TimeoutError:
+                _LOGGER.warning("No ip-address received for node %s", nodeId)
+                continue
+            # The node may have been removed while waiting
+            if nodeId in self._nodes:
+                self._nodes[nodeId] = {"ip": ipv6}
+
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
@@ -347,6 +359,4 @@ class ZIPGateway(ZIPConnection):
             )
         )
         # Retrieve node list, and get ip-addresses
-        for nodeId in await self.getNodeList():
-            if not self._nodes[nodeId].get("ip"):
-                self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+        await self.__resolveNodes__(await self.getNodeList())
-- 
2.43.0


From a4b12ad8597e35717dc9af92c75b1fbe78b8bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 27/54] fix: keep the known ip-addresses when the node list is
 read again

---
 pyzwave/zipgateway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index e96fd13..17504cc 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -160,7 +160,7 @@ class ZIPGateway(ZIPConnection):
             # No response
             return set()
         self._nodeId = report.nodeListControllerId
-        self._nodes = {x: {} for x in report.nodes}
+        self._nodes = {x: self._nodes.get(x, {}) for x in report.nodes}
         return report.nodes
 
     async def getNodeInfo(
-- 
2.43.0


From e1d86cebef1772c7f9577dff0baa92713b1e59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 28/54] fix: one connection per node, also if commands are sent
 concurrently

---
 pyzwave/zipgateway.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 17504cc..b3828d3 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -28,6 +28,7 @@ class ZIPGateway(ZIPConnection):
         self._unsolicitedConnection = Connection()
         self._unsolicitedConnection.onMessage(self.onUnsolicitedMessage)
         self._connections = {}
+        self._connectLocks = {}
         self._nodes = {}
         self._nmSeq = 0
 
@@ -97,13 +98,18 @@ class ZIPGateway(ZIPConnection):
         if nodeId in self._connections:
             return self._connections[nodeId]
 
-        ipv6 = await self.ipOfNode(nodeId)
+        # Several commands may be sent before the connection is up, only connect once
+        async with self._connectLocks.setdefault(nodeId, asyncio.Lock()):
+            if nodeId in self._connections:
+                return self._connections[nodeId]
 
-        connection = ZIPConnection(ipv6.compressed, self.psk)
-        connection.addListener(self)
-        await connection.connect()
-        self._connections[nodeId] = connection
-        return connection
+            ipv6 = await self.ipOfNode(nodeId)
+
+            connection = ZIPConnection(ipv6.compressed, self.psk)
+            connection.addListener(self)
+            await connection.connect()
+            self._connections[nodeId] = connection
+            return connection
 
     async def getFailedNodeList(self) -> list:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
-- 
2.43.0


From e454cba992f3228308148446369368ead3fd3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 29/54] fix: node list updates running concurrently

---
 pyzwave/application.py | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index c57a4b0..786cd10 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+import asyncio
 import logging
 from typing import Any, Dict
 
@@ -31,6 +32,7 @@ class Application(Listenable):
         self._storage = storage
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
+        self._nodesLock = asyncio.Lock()
         self._cmdClasses = []
 
     async def loadEndPointNode(self, node: Node, endpoint: int):
@@ -97,26 +99,30 @@ class Application(Listenable):
 
     async def nodeListUpdated(self, _sender):
         """Called when the node list has been updated"""
-        nodeList = await self.adapter.getNodeList()
         nodesToRemove = []
-        for nodeId, node in self._nodes.items():
-            if node.rootNodeId in nodeList:
-                continue
-            nodesToRemove.append(nodeId)
+        newNodes = []
+        # The list may be updated again while the nodes are loaded
+        async with self._nodesLock:
+            nodeList = await self.adapter.getNodeList()
+            for nodeId, node in self._nodes.items():
+                if node.rootNodeId in nodeList:
+                    continue
+                nodesToRemove.append(nodeId)
+            for nodeId in nodesToRemove:
+                del self._nodes[nodeId]
+
+            # Find new nodes
+            for nodeId in nodeList:
+                if "{}:0".format(nodeId) in self._nodes:
+                    continue
+                newNodes.extend(await self.loadNode(nodeId))
+
         for nodeId in nodesToRemove:
-            del self._nodes[nodeId]
             await self.ask("nodeRemoved", nodeId)
         # For clients supporting batch removing
         if nodesToRemove:
             await self.ask("nodesRemoved", nodesToRemove)
 
-        # Find new nodes
-        newNodes = []
-        for nodeId in nodeList:
-            if "{}:0".format(nodeId) in self._nodes:
-                continue
-            newNodes.extend(await self.loadNode(nodeId))
-
         if newNodes:
             await self.ask("nodesAdded", newNodes)
         for node in newNodes:
@@ -167,12 +173,14 @@ class Application(Listenable):
 
     async def startup(self):
         """Start and initialize the application and the adapter"""
-        for nodeId in await self.adapter.getNodeList():
-            await self.loadNode(nodeId)
+        async with self._nodesLock:
+            for nodeId in await self.adapter.getNodeList():
+                await self.loadNode(nodeId)
+            nodes = list(self._nodes.values())
 
         for nodeId in await self.adapter.getFailedNodeList():
             _LOGGER.warning("FAILED node %s", nodeId)
 
-        await self.ask("nodesAdded", list(self._nodes.values()))
-        for _, node in self._nodes.items():
+        await self.ask("nodesAdded", nodes)
+        for node in nodes:
             await self.ask("nodeAdded", node)
-- 
2.43.0


From 72edd43fae9c2aa0a49cab0403b440a6c642acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 30/54] fix: answer a supervision get without a command

---
 pyzwave/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index a562eef..5a4358c 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -27,7 +27,7 @@ def supervision(func):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
         # Handle supervision calls
-        if await func(self, message.command, flags):
+        if message.command is not None and await func(self, message.command, flags):
             await self.send(
                 Supervision.Report(
                     moreStatusUpdates=False,
-- 
2.43.0


From 109fd064a96fd16e4ceb8441d26efb731a981e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 31/54] fix: decode provisioning list entries with unknown
 metadata types

---
 pyzwave/commandclass/NodeProvisioning.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NodeProvisioning.py b/pyzwave/commandclass/NodeProvisioning.py
index 941f727..d3ec311 100644
--- a/pyzwave/commandclass/NodeProvisioning.py
+++ b/pyzwave/commandclass/NodeProvisioning.py
@@ -39,7 +39,11 @@ class MetadataExtension(VarDictAttribute(MetadataExtensionType, bytes)):
             metadataType = stream.bits(7)
             _critical = stream.bit()
             length = stream.byte()
-            retval[metadataType] = stream.value(length)
+            value = stream.value(length)
+            if metadataType not in list(MetadataExtensionType):
+                # Unknown type, skip it
+                continue
+            retval[metadataType] = value
         return retval
 
 
-- 
2.43.0


From 3f27d90fca15dee95a6d8544f07067cbe8ffed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 32/54] fix: provisioning list set without the length of the
 DSK

---
 pyzwave/commandclass/NodeProvisioning.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NodeProvisioning.py b/pyzwave/commandclass/NodeProvisioning.py
index d3ec311..01436d2 100644
--- a/pyzwave/commandclass/NodeProvisioning.py
+++ b/pyzwave/commandclass/NodeProvisioning.py
@@ -1,6 +1,14 @@
 from enum import IntEnum
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bytes_t, dsk_t, reserved_t, uint5_t, uint8_t
+from pyzwave.types import (
+    BitStreamReader,
+    BitStreamWriter,
+    bytes_t,
+    dsk_t,
+    reserved_t,
+    uint5_t,
+    uint8_t,
+)
 from . import ZWaveMessage, registerCmdClass
 from .CommandClass import VarDictAttribute
 
@@ -55,6 +63,18 @@ class Set(Message):
 
     attributes = (("seqNo", uint8_t), ("dsk", dsk_t), ("metaDataExtension", bytes_t))
 
+    def compose_dsk(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Write the DSK prefixed with its length"""
+        dsk = BitStreamWriter()
+        self.dsk.serialize(dsk)
+        stream.addBytes(len(dsk), 1, False)
+        stream.extend(dsk)
+
+    @staticmethod
+    def parse_dsk(stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse the length prefixed DSK"""
+        return dsk_t.deserializeN(stream, stream.byte() & 0x1F)
+
 
 @ZWaveMessage(
     COMMAND_CLASS_NODE_PROVISIONING, COMMAND_NODE_PROVISIONING_LIST_ITERATION_GET
-- 
2.43.0


From 2afc4be40e0523e56fb0777a0b697aaaada9cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 33/54] fix: encoding a decoded message with reserved fields of
 different sizes

---
 pyzwave/message.py | 3 ++-
 pyzwave/types.py   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 2e75928..8cc0a22 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -25,7 +25,8 @@ class Message(AttributesMixin):
         stream.addBytes(cmdClass, 1, False)
         stream.addBytes(cmd, 1, False)
         for name, attrType in self.attributes:
-            if name not in self._attributes:
+            if name not in self._attributes or getattr(attrType, "reserved", False):
+                # Several reserved fields may share a name, do not use the stored value for those
                 default = getattr(attrType, "default", None)
                 if default is not None:
                     attrType(default).serialize(stream)
diff --git a/pyzwave/types.py b/pyzwave/types.py
index 39bba95..f643886 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -327,6 +327,7 @@ def reserved_t(size):  # pylint: disable=invalid-name
         """Type for when the bits are reserved and must not be used"""
 
         default = 0
+        reserved = True
         sizeBits = size
 
         def serialize(self, stream: BitStreamWriter):
-- 
2.43.0


From 74e96f8b5c63f2d58f8a14917b99f2bc0e42b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 34/54] fix: ignore node list reports without a node list

A report cut off before the node list made the handler raise TypeError in its
task, and getNodeList() in its caller.
---
 pyzwave/zipgateway.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index b3828d3..100b590 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -165,6 +165,9 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return set()
+        if report.nodes is None:
+            # Incomplete report
+            return set()
         self._nodeId = report.nodeListControllerId
         self._nodes = {x: self._nodes.get(x, {}) for x in report.nodes}
         return report.nodes
@@ -188,6 +191,9 @@ class ZIPGateway(ZIPConnection):
         self, report: NetworkManagementProxy.NodeListReport
     ):
         """Update nodes from a nodeListReport"""
+        if report.nodes is None:
+            _LOGGER.warning("Ignoring node list report without node list")
+            return
         # Find removed nodes
         for nodeId in list(self._nodes.keys()):
             if nodeId in report.nodes:
-- 
2.43.0


From 44e7a491d498b472f0a179b3c2304e29409b39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 35/54] fix: accept failed node and endpoint reports lacking
 their last fields

getMultiChannelEndPoints() raised TypeError and getFailedNodeList() returned
None if the report was cut off before them.
---
 pyzwave/zipgateway.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 100b590..0fd3c1e 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -120,7 +120,7 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return set()
-        return report.failedNodeList
+        return report.failedNodeList or set()
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
@@ -134,7 +134,8 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return 0
-        return report.individualEndPoints + report.aggregatedEndPoints
+        # Fields missing in the report means there are none
+        return (report.individualEndPoints or 0) + (report.aggregatedEndPoints or 0)
 
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
-- 
2.43.0


From 7db28f3f32920837b1f7d9dbc16e5f44bd24c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 36/54] fix: ignore node advertisements cut off before the
 address

Such an advertisement ended the lookup of the node without an address:
connectToNode() raised AttributeError and the node list lost the address.
---
 pyzwave/zipgateway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 0fd3c1e..570d16d 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -234,7 +234,7 @@ class ZIPGateway(ZIPConnection):
             response = await self.waitForMessage(
                 ZipND.ZipNodeAdvertisement, timeout=None
             )
-            if response.nodeId == nodeId:
+            if response.nodeId == nodeId and response.ipv6 is not None:
                 return response
 
     async def removeFailedNode(
-- 
2.43.0


From e94870b968d5c5f5f39b2be5f06217437be79625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 37/54] fix: do not let a raising coroutine listener break the
 one asking

Plain listeners that raise are logged and skipped, but an exception from a
coroutine listener was raised in the sender and the other answers were lost.
---
 pyzwave/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 3b137a4..3faf764 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -145,7 +145,15 @@ class Listenable:
         Send message to listeners and wait for the listeners to respond.
         This a shorthand for awaiting thre result from speak()
         """
-        return await asyncio.gather(*self.speak(message, *args))
+        answers = []
+        for answer in await asyncio.gather(
+            *self.speak(message, *args), return_exceptions=True
+        ):
+            if isinstance(answer, BaseException):
+                _LOGGER.warning("Error calling listener.%s: %s", message, answer)
+                continue
+            answers.append(answer)
+        return answers
 
     def speak(self, message, *args) -> list:
         """
-- 
2.43.0


From 1f79201cb60e440a5e8853230f63bdc07e1ab0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 38/54] fix: compare bit fields with each other by value

Two bit fields with the same value were never equal, so setting an attribute to
the value it already has was reported as a change.
---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index f643886..86ff58b 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -215,6 +215,8 @@ class BitsBase:
         self._value = int(value)
 
     def __eq__(self, other):
+        if isinstance(other, BitsBase):
+            other = int(other)
         return self._value.__eq__(other)
 
     def __int__(self):
-- 
2.43.0


From a696a70384a24e2f4fb1e846103fbe6016365346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 39/54] fix: keep updates when storage locks are nested or
 overlap

---
 pyzwave/node.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 5a4358c..2bad4c8 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -72,6 +72,7 @@ class Node(Listenable, MessageWaiter):
         self._controlled = {}
         # Flag is this node need to be saved to persistant storage
         self._storageStatus: StorageStatus = StorageStatus.CLEAN
+        self._storageLocks = 0
         self._endpoint = 0
         self._flirs = False
         self._genericDeviceClass = 0
@@ -274,13 +275,19 @@ class Node(Listenable, MessageWaiter):
                 node.interview()
             # The storage will happen here, only once
         """
-        try:
+        self._storageLocks += 1
+        # Locks may be nested or overlap, do not forget updates in another lock
+        if self._storageStatus == StorageStatus.CLEAN:
             self._storageStatus = StorageStatus.LOCKED_CLEAN
+        try:
             yield
         finally:
-            if self._storageStatus == StorageStatus.LOCKED_DIRTY:
-                self.speak("nodeUpdated")
-            self._storageStatus = StorageStatus.CLEAN
+            self._storageLocks -= 1
+            if self._storageLocks == 0:
+                updated = self._storageStatus == StorageStatus.LOCKED_DIRTY
+                self._storageStatus = StorageStatus.CLEAN
+                if updated:
+                    self.speak("nodeUpdated")
 
     @property
     def specificDeviceClass(self) -> int:
-- 
2.43.0


From 82dad58b8306c3f0c22668ab4a9edf289f0783d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 40/54] fix: ignore configuration reports without size or value

---
 pyzwave/commandclass/Configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 285debe..9377f88 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -128,6 +128,9 @@ class Configuration(CommandClass):
 
     @ZWaveMessageHandler(Report)
     async def __report__(self, report: Report, _flags):
+        if report.size is None or report.value is None:
+            # Incomplete report
+            return False
         number = int(report.parameterNumber)
         parameter = self.parameters.setdefault(number, ConfigurationValue())
         parameter.value = report.value
-- 
2.43.0


From e945f7f21ad621204ba0dda9f5eeb01b0bdc5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 41/54] fix: ignore missing groups in cut off group info
 reports

---
 pyzwave/commandclass/AssociationGrpInfo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index d4e4188..131c82d 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -189,7 +189,10 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
-        for group in report.groups:
+        for group in report.groups or []:
+            if group.groupingIdentifier is None or group.profile is None:
+                # Incomplete report
+                continue
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
             await self.send(
-- 
2.43.0


From 214f4b1c61054315a31c3dee65a9b5fff46766ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 42/54] fix: always answer supervised commands

---
 pyzwave/node.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 2bad4c8..fb714ec 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -26,8 +26,18 @@ def supervision(func):
     async def __wrapper__(self, message: Message, flags):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
+        if message.sessionID is None:
+            # Nothing but the identifier was received
+            return False
         # Handle supervision calls
-        if message.command is not None and await func(self, message.command, flags):
+        handled = False
+        if message.command is not None:
+            try:
+                handled = await func(self, message.command, flags)
+            except Exception as error:  # pylint: disable=broad-except
+                # The node must be answered anyway
+                _LOGGER.warning("Error handling %s: %s", message.command, error)
+        if handled:
             await self.send(
                 Supervision.Report(
                     moreStatusUpdates=False,
-- 
2.43.0


From ffef2dd9b868d3d70397f8c5217282d41d143f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 43/54] fix: ignore group name and command reports without name
 or commands

---
 pyzwave/commandclass/AssociationGrpInfo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 131c82d..69c8132 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -182,7 +182,10 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
-        if report.groupingIdentifier not in self.groupings:
+        if (
+            report.groupingIdentifier not in self.groupings
+            or report.commandClass is None
+        ):
             return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
         return True
@@ -204,7 +207,7 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupNameReport)
     async def __groupNameReport__(self, report: GroupNameReport, _flags):
-        if report.groupingIdentifier not in self.groupings:
+        if report.groupingIdentifier not in self.groupings or report.name is None:
             return True
         self.groupings[report.groupingIdentifier].name = report.name
         return True
-- 
2.43.0


From e5deb84bc864edcc93460a3d34c1f8599ba35bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 44/54] fix: do not stop mailbox heartbeats when one could not
 be sent

---
 pyzwave/mailbox.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index f059bb3..7a6aa4d 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -58,15 +58,19 @@ class QueueItem:
             operation = Mailbox.Queue.Operation.WAITING
             if i % 10 == 0:
                 operation = Mailbox.Queue.Operation.PING
-            await self._adapter.sendToNode(
-                self._nodeId,
-                Mailbox.Queue(
-                    last=False,
-                    operation=operation,
-                    queueHandle=self._handle,
-                    mailboxEntry=self._data,
-                ),
-            )
+            try:
+                await self._adapter.sendToNode(
+                    self._nodeId,
+                    Mailbox.Queue(
+                        last=False,
+                        operation=operation,
+                        queueHandle=self._handle,
+                        mailboxEntry=self._data,
+                    ),
+                )
+            except Exception as error:  # pylint: disable=broad-except
+                # Try again in a minute
+                _LOGGER.warning("Could not send mailbox heartbeat: %s", error)
 
 
 class MailboxService:
-- 
2.43.0


From a55aed6fe349a13c35978d44416b98427553abff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:18 +0000
Subject: [PATCH 45/54] fix: do not store a message twice when pushed during a
 failed delivery

---
 pyzwave/mailbox.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 7a6aa4d..2619c51 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -117,7 +117,12 @@ class MailboxService:
         finally:
             if not ret:
                 # Not delivered, keep it in the queue
-                self._queue[queueHandle].append(queueItem)
+                queue = self._queue[queueHandle]
+                if queueItem.checksum in [item.checksum for item in queue]:
+                    # The same message was pushed again during the delivery
+                    queueItem.stop()
+                else:
+                    queue.append(queueItem)
         _LOGGER.info("Sent message from queue: %s", ret)
         if ret:
             queueItem.stop()
-- 
2.43.0


From 4ee314c7168830cad44fdc7b1285a5aaa53e8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 46/54] fix: inclusion and exclusion commands the controller
 never acknowledged were reported as sent

---
 pyzwave/zipgateway.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 570d16d..3b5d787 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -41,7 +41,9 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                # Never acknowledged by the controller
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -54,7 +56,9 @@ class ZIPGateway(ZIPConnection):
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                # Never acknowledged by the controller
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -70,7 +74,9 @@ class ZIPGateway(ZIPConnection):
             grantedKeys=grantedKeys,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                # Never acknowledged by the controller
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -83,7 +89,9 @@ class ZIPGateway(ZIPConnection):
             txOptions=TxOptions.NULL,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                # Never acknowledged by the controller
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -261,7 +269,9 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                # Never acknowledged by the controller
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -273,7 +283,9 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                # Never acknowledged by the controller
+                return False
         except asyncio.TimeoutError:
             return False
         return True
-- 
2.43.0


From 1db4f81b2e170f4cb935386a1089d05f0572297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 47/54] fix: an incomplete report in the interview of a command
 class does not end the interview of the node

---
 pyzwave/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index fb714ec..e58b7b9 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -201,6 +201,9 @@ class Node(Listenable, MessageWaiter):
                 await cmdClass.interview()
             except asyncio.TimeoutError:
                 _LOGGER.warning("Timeout interviewing %s", cmdClass.name)
+            except Exception as error:  # pylint: disable=broad-except
+                # Such as an incomplete report. Continue with the others.
+                _LOGGER.warning("Error interviewing %s: %s", cmdClass.name, error)
 
     @property
     def isFailed(self) -> bool:
-- 
2.43.0


From 86116854f92e573466af29cdc87adb7992deb1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 48/54] fix: association group information never asked for is
 not marked as interviewed

---
 pyzwave/commandclass/AssociationGrpInfo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 69c8132..c0b24a7 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -215,9 +215,12 @@ class AssociationGrpInfo(CommandClass):
     async def interview(self):
         # We may get several reports from this command. At this point we do not know how many so
         # it is easier to handle them all in groupInfoReport than waiting here
-        await self.send(
+        sent = await self.send(
             GroupInfoGet(refreshCache=False, listMode=True, groupingIdentifier=0)
         )
+        if sent is False:
+            # Never acknowledged by the node
+            return False
         # We do not know when we have received everything so we mark the command class
         # as interviewed...
         return True
-- 
2.43.0


From 662b44af52c781e8c6b822fc8368f2ba2f38510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 49/54] fix: sensor reports are not dropped while it is not
 known which sensors the node supports

---
 pyzwave/commandclass/SensorMultilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index eb15e23..92ec505 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -164,7 +164,7 @@ class SensorMultilevel(CommandClass):
     @ZWaveMessageHandler(Report)
     async def __report__(self, report: Report, _flags):
         # Match report against supported types and filter out if we get any non supported
-        if self.version < 5:
+        if self.version < 5 or not (self.supportedTypes or self.interviewed):
             # We do not know whats supported
             return False
         supportedScales = self.supportedTypes.get(report.sensorType)
-- 
2.43.0


From c3f75648219296a818d82f8c8105de035375ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 50/54] fix: the supported sensors are those of the last
 complete interview

---
 pyzwave/commandclass/SensorMultilevel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 92ec505..4bd649e 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -183,8 +183,11 @@ class SensorMultilevel(CommandClass):
         report: Message = await self.sendAndReceive(
             SupportedGetSensor(), SupportedSensorReport
         )
+        supportedTypes = {}
         for sensor in report.bitMask:
             scaleReport = await self.sendAndReceive(
                 SupportedGetScale(sensorType=sensor), SupportedScaleReport
             )
-            self.supportedTypes[int(sensor)] = scaleReport.scaleBitMask
+            supportedTypes[int(sensor)] = scaleReport.scaleBitMask
+        # Everything is known, replace what was supported before
+        self.supportedTypes = supportedTypes
-- 
2.43.0


From 21dcdfb8d2cb17eddffe1e8a24d028af19220cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 51/54] fix: refuse a header extension without room for its own
 length

---
 pyzwave/commandclass/Zip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 4ff91e8..f8c2786 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -208,6 +208,9 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         """Deserialize header extension from stream"""
         retval = {}
         extLength = stream.byte() - 1
+        if extLength < 0:
+            # The length includes the length byte itself
+            raise ValueError("Header extension without room for its own length")
         reader = BitStreamReader(stream.value(extLength))
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
-- 
2.43.0


From 304dc1752be70b4983be1fcad5f4c56029b0670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 52/54] fix: do not use the connection of a removed node when
 it is included again

---
 pyzwave/zipconnection.py | 7 +++++++
 pyzwave/zipgateway.py    | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index e886713..df255c2 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -49,6 +49,13 @@ class ZIPConnection(Adapter):
         await self._conn.connect(self._address, self._psk)
         self.resetKeepAlive()
 
+    def disconnect(self):
+        """Close the connection"""
+        if self._keepAlive:
+            self._keepAlive.cancel()
+            self._keepAlive = None
+        self._conn.stop()
+
     async def getFailedNodeList(self) -> list:
         raise NotImplementedError()
 
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 3b5d787..f250c14 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -208,6 +208,10 @@ class ZIPGateway(ZIPConnection):
             if nodeId in report.nodes:
                 continue
             del self._nodes[nodeId]
+            # It may have another address if it is included again
+            connection = self._connections.pop(nodeId, None)
+            if connection:
+                connection.disconnect()
 
         # Find new nodes
         for nodeId in report.nodes:
-- 
2.43.0


From 87d1170db81e03b9bfbab67f5d24ce130aaa8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 53/54] fix: learn the controller's node id from every node
 list report

---
 pyzwave/zipgateway.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index f250c14..37a3ee9 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -203,6 +203,7 @@ class ZIPGateway(ZIPConnection):
         if report.nodes is None:
             _LOGGER.warning("Ignoring node list report without node list")
             return
+        self._nodeId = report.nodeListControllerId
         # Find removed nodes
         for nodeId in list(self._nodes.keys()):
             if nodeId in report.nodes:
-- 
2.43.0


From 13b59572ac95487d69309af385cb1eaea8306608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 54/54] fix: ignore cut-off mailbox messages without a queue
 handle

---
 pyzwave/mailbox.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 2619c51..cb82b76 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -159,7 +159,10 @@ class MailboxService:
         _flags: Zip.HeaderExtension,
     ):
         """Handle incoming mailbox messages"""
-        if isinstance(message, Mailbox.WakeupNotification):
+        if (
+            isinstance(message, Mailbox.WakeupNotification)
+            and message.queueHandle is not None
+        ):
             self._lastQueueId = message.queueHandle
             return await self.__popQueue__(rootNodeId, message.queueHandle)
 
@@ -173,6 +176,7 @@ class MailboxService:
         if (
             isinstance(message, Mailbox.Queue)
             and message.operation == Mailbox.Queue.Operation.PUSH
+            and message.queueHandle is not None
         ):
             return await self.__pushQueue__(
                 rootNodeId, message.queueHandle, message.mailboxEntry
-- 
2.43.0

