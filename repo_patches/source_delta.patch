From 55f72cfded561dc0d1c6e589cceaf1095e9c3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 01/66] fix: write the queue's closed flag under the queue lock

A consumer in wait() tests the flag and blocks under the lock; close() set the
flag and notified without taking it, so a close() between test and block was
lost and the consumer slept forever.
---
 include/maf/threading/ThreadSafeQueue.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 7e1d6ad..0db2efc 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -106,11 +106,19 @@ class ThreadSafeQueue {
     return false;
   }
 
-  void reOpen() { closed_.store(false, std::memory_order_release); }
+  void reOpen() {
+    std::lock_guard lock(queue_);
+    closed_.store(false, std::memory_order_release);
+  }
 
   void close() {
     bool alreadyClosed = false;
-    closed_.compare_exchange_strong(alreadyClosed, true);
+    {
+      // waiters test closed_ under this lock: do not overtake a waiter that is
+      // between its test and its block
+      std::lock_guard lock(queue_);
+      closed_.compare_exchange_strong(alreadyClosed, true);
+    }
     if (!alreadyClosed) {
       queueNotEmpty_.notify_all();
     }
-- 
2.43.0


From 5b0ef250c50f10f3ebd4f5eec95f6390d45c6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 02/66] fix: report failure of every part when decoding
 containers, pairs, tuples and pointers

---
 include/maf/utils/serialization/Serializer.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 340a876..f1b6de6 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -211,8 +211,8 @@ struct Serializer {
       p = nullptr;
       uint8_t isNotNull = 0;
 
-      is.read(internal::to_cstr(&isNotNull), 1);
-      if (isNotNull) {
+      success = maf::srz::deserialize(is, isNotNull);
+      if (success && isNotNull) {
         p = new NormalTypeOfPointerType{};
         success = maf::srz::deserialize(is, *p);
         if (!success) {
@@ -271,11 +271,11 @@ struct Serializer {
       auto success = false;
       SizeType size = 0;
 
-      if (success |= maf::srz::deserialize(is, size); success && size > 0) {
+      if (success = maf::srz::deserialize(is, size); success && size > 0) {
         internal::ContainerReserver<Container>::reserve(c, size);
         for (SizeType i = 0; i < size; ++i) {
           DSBElemType elem;
-          if (success |= maf::srz::deserialize(is, elem); success) {
+          if (success = maf::srz::deserialize(is, elem); success) {
             if constexpr (nstl::is_back_insertible_v<Container>) {
               c.push_back(std::move(elem));
             } else {
@@ -312,11 +312,8 @@ struct Serializer<OStream, IStream, std::pair<First, Second>, void> {
   }
 
   bool deserialize(IStream &is, NCDType &value) {
-    bool success = false;
-    if (success |= maf::srz::deserialize(is, value.first); success) {
-      success |= maf::srz::deserialize(is, value.second);
-    }
-    return success;
+    return maf::srz::deserialize(is, value.first) &&
+           maf::srz::deserialize(is, value.second);
   }
 };
 
@@ -339,9 +336,9 @@ struct Serializer<OStream, IStream, Tuple,
   }
 
   bool deserialize(IStream &is, SrType &tp) {
-    bool success = false;
+    bool success = true;
     nstl::tuple_for_each(tp, [&is, &success](auto &elem) {
-      success |= maf::srz::deserialize(is, elem);
+      success = success && maf::srz::deserialize(is, elem);
     });
     return success;
   }
-- 
2.43.0


From 2f30bcd888c7696214198ba3ec57cfab0a076877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 03/66] fix: decoding replaces the previous contents of a
 container or string

---
 include/maf/utils/serialization/Serializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index f1b6de6..c108363 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -271,6 +271,7 @@ struct Serializer {
       auto success = false;
       SizeType size = 0;
 
+      c.clear();
       if (success = maf::srz::deserialize(is, size); success && size > 0) {
         internal::ContainerReserver<Container>::reserve(c, size);
         for (SizeType i = 0; i < size; ++i) {
@@ -368,8 +369,8 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
   bool deserialize(IStream &is, SrType &value) {
     SizeType size = 0;
     if (maf::srz::deserialize(is, size)) {
+      value.resize(size);
       if (size > 0) {
-        value.resize(size);
         is.read(internal::to_cstr(&value[0]), size * sizeof(CharT));
       }
     }
-- 
2.43.0


From c82228bca35dd4e40f8cdf1f0d41e10bac147a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 04/66] fix: order addresses by name, then port

---
 src/common/maf/messaging/client-server/Address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Address.cpp b/src/common/maf/messaging/client-server/Address.cpp
index 6b5b00a..9783e91 100644
--- a/src/common/maf/messaging/client-server/Address.cpp
+++ b/src/common/maf/messaging/client-server/Address.cpp
@@ -16,7 +16,7 @@ bool Address::operator!=(const Address &other) const {
 }
 
 bool Address::operator<(const Address &other) const {
-  return name_ < other.name_ || port_ < other.port_;
+  return cas_tuple() < other.cas_tuple();
 }
 
 bool Address::valid() const {
-- 
2.43.0


From 34bae3234836f6603ce435a5cb45905006b4350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 05/66] fix: order registration ids by request id, then
 operation

---
 include/maf/messaging/client-server/RegID.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/RegID.h b/include/maf/messaging/client-server/RegID.h
index af3f385..d6fb380 100644
--- a/include/maf/messaging/client-server/RegID.h
+++ b/include/maf/messaging/client-server/RegID.h
@@ -3,6 +3,8 @@
 #include <maf/messaging/client-server/CSTypes.h>
 #include <maf/utils/IDManager.h>
 
+#include <tuple>
+
 namespace maf {
 namespace messaging {
 
@@ -56,7 +58,7 @@ inline bool operator==(const RegID &r1, const RegID &r2) {
 inline bool operator!=(const RegID &r1, const RegID &r2) { return !(r1 == r2); }
 
 inline bool operator<(const RegID &r1, const RegID &r2) {
-  return (r1.requestID < r2.requestID) && (r1.opID < r2.opID);
+  return std::tie(r1.requestID, r1.opID) < std::tie(r2.requestID, r2.opID);
 }
 
 }  // namespace messaging
-- 
2.43.0


From 5be1dbdef2156eb6ecf8b067a96eb271e2170b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 06/66] fix: report failure when a message could not be written
 completely

---
 .../messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index abdfb42..87e2726 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -61,12 +61,13 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
         } else {
           MAF_SOCKET_ERROR("Failed to send bytes to receiver, total written = ",
                            totalWritten);
-          acs = ActionCallStatus::FailedUnknown;
           break;
         }
       } while (totalWritten < payloadSize);
 
-      acs = ActionCallStatus::Success;
+      if (totalWritten == payloadSize) {
+        acs = ActionCallStatus::Success;
+      }
     } else {
       MAF_SOCKET_ERROR("Failed to send payload size[", payloadSize,
                        "] to receiver");
-- 
2.43.0


From 1a0d39b7a5257307e6a367b14533d67e5e0bcdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 07/66] fix: do not let a vanished receiver kill the sender
 with SIGPIPE

---
 .../client-server/ipc/LocalIPCBufferSenderImpl.cpp     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index 87e2726..8f8f2c4 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -49,13 +49,15 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
     SizeType payloadSize = static_cast<SizeType>(payload.length());
 
     // First write is to send payload size to receiver to reserve a buffer
-    if (auto written = ns_global::write(
-            fd, reinterpret_cast<char *>(&payloadSize), sizeof(SizeType));
+    if (auto written = ns_global::send(
+            fd, reinterpret_cast<char *>(&payloadSize), sizeof(SizeType),
+            MSG_NOSIGNAL);
         written == sizeof(SizeType)) {
       // Second write is to send payload content
       do {
-        if (written = ns_global::write(fd, payload.data() + totalWritten,
-                                       payloadSize - totalWritten);
+        if (written = ns_global::send(fd, payload.data() + totalWritten,
+                                      payloadSize - totalWritten,
+                                      MSG_NOSIGNAL);
             written != -1) {
           totalWritten += written;
         } else {
-- 
2.43.0


From 0a09f51505985186232ed04fc9f3480167e1912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 08/66] fix: a receiver name too long for a socket path is
 unavailable, not a buffer overflow

---
 .../messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index 8f8f2c4..c48b2fd 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -32,6 +32,9 @@ Availability LocalIPCBufferSenderImpl::checkReceiverStatus(
     const Address &destination) const {
   static thread_local sockaddr_un destSockAddr;
   static thread_local Address destAddr;
+  if (!isValidSocketPath(destination.get_name())) {
+    return Availability::Unavailable;
+  }
   if (destination != destAddr) {
     destAddr = destination;
     destSockAddr = createUnixAbstractSocketAddr(destAddr.get_name());
-- 
2.43.0


From d45c79ddf72cef9daa8ef85388726e24c5a54400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 09/66] fix: read only the missing bytes of a message and stop
 at end of stream

---
 .../client-server/ipc/LocalIPCBufferReceiverImpl.cpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 9a22f2a..eb7dfeb 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -160,8 +160,9 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
           auto payload = srz::Buffer{};
           payload.resize(messageLength);
           while (totalRead < messageLength) {
-            if (bytesRead = read(sd, payload.data() + totalRead, messageLength);
-                bytesRead != -1) {
+            if (bytesRead = read(sd, payload.data() + totalRead,
+                                 messageLength - totalRead);
+                bytesRead > 0) {
               totalRead += bytesRead;
             } else {
               MAF_SOCKET_ERROR("Could not read bytes from socket total read = ",
-- 
2.43.0


From 95a9253034c2c8302fe63439a9aff8b8e082ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 10/66] fix: moving a descriptor owner must not close an
 uninitialised descriptor

---
 .../unix/maf/messaging/client-server/ipc/SocketShared.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
index 08a58f3..207ba2e 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
@@ -25,7 +25,7 @@ class AutoCloseFD {
 
 public:
   AutoCloseFD(FileDescriptor fd_ = INVALID_VALUE) : fd{fd_} {}
-  AutoCloseFD(AutoCloseFD &&rhs) { takefrom(std::move(rhs)); }
+  AutoCloseFD(AutoCloseFD &&rhs) : fd{INVALID_VALUE} { takefrom(std::move(rhs)); }
   AutoCloseFD &operator=(AutoCloseFD &&rhs) {
     takefrom(std::move(rhs));
     return *this;
-- 
2.43.0


From 32320aadd274d22ef0df865f5052df8aa4c7d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 11/66] fix: stop listening when the receiver stops, so that
 the address can be served again

---
 .../messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp | 3 +++
 .../messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index eb7dfeb..5d89c5f 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -56,8 +56,11 @@ bool LocalIPCBufferReceiverImpl::start() {
     }
   } catch (StoppedInterruption) {
   } catch (...) {
+    fdMySock_.reset();
     return false;
   }
+  // nobody will serve this address any more, so stop accepting connections
+  fdMySock_.reset();
   return true;
 }
 
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
index 6678aac..683d7fa 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
@@ -46,7 +46,7 @@ class LocalIPCBufferReceiverImpl {
   BytesComeCallback bytesComeCallback_;
   Address myaddr_;
   sockaddr_un mySockAddr_;
-  int fdMySock_;
+  AutoCloseFD<SockFD> fdMySock_;
   std::atomic<State> state_ = State::Uninitialized;
 };
 
-- 
2.43.0


From d39424749076efcf887d62a73ebd039e82292a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 12/66] fix: leave connections waiting while there is no place
 to keep them

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 5d89c5f..cb99b74 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -102,9 +102,19 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
     // clear the socket set
     FD_ZERO(&readfds);
 
-    // add master socket to set
-    FD_SET(fdMySock_, &readfds);
-    maxSd = fdMySock_;
+    // look for a place to keep the next connection in
+    size_t freeSlot = 0;
+    while (freeSlot < MAXCLIENTS && fdClientSocks[freeSlot] != 0) {
+      ++freeSlot;
+    }
+
+    // add master socket to set, unless there is no place for a new connection:
+    // then it has to wait until one of the others is done
+    maxSd = INVALID_FD;
+    if (freeSlot < MAXCLIENTS) {
+      FD_SET(fdMySock_, &readfds);
+      maxSd = fdMySock_;
+    }
 
     // add child sockets to set
     for (size_t i = 0; i < MAXCLIENTS; i++) {
@@ -134,7 +144,7 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
 
     // If something happened on the master socket ,
     // then its an incoming connection
-    if (FD_ISSET(fdMySock_, &readfds)) {
+    if (freeSlot < MAXCLIENTS && FD_ISSET(fdMySock_, &readfds)) {
       auto acceptedSD = accept(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen);
       if (acceptedSD < 0) {
         MAF_LOGGER_ERROR("Failed on accepting new socket connection");
@@ -142,13 +152,7 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
       }
 
       // add new socket to array of sockets
-      for (size_t i = 0; i < MAXCLIENTS; i++) {
-        // if position is empty
-        if (fdClientSocks[i] == 0) {
-          fdClientSocks[i] = acceptedSD;
-          break;
-        }
-      }
+      fdClientSocks[freeSlot] = acceptedSD;
     }
 
     // else its some IO operation on some other socket
-- 
2.43.0


From ff56a8d317facf7f473c9df9c9542203280e443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 13/66] fix: close the open connections when the receiver stops

---
 .../client-server/ipc/LocalIPCBufferReceiverImpl.cpp     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index cb99b74..8482f61 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -97,6 +97,15 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
   auto maxSd = INVALID_FD;
   socklen_t sockLen = sizeof(mySockAddr_);
   std::vector<int> fdClientSocks(MAXCLIENTS, 0);
+  // the connections still open are closed however this function ends
+  struct ConnectionsCloser {
+    std::vector<int> &socks;
+    ~ConnectionsCloser() {
+      for (auto sd : socks) {
+        if (sd > 0) close(sd);
+      }
+    }
+  } connectionsCloser{fdClientSocks};
   fd_set readfds;
   do {
     // clear the socket set
-- 
2.43.0


From cedd2e4e215f41fb25ab31aa394d716db49052bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 14/66] fix: a receiver that could not be set up is not
 startable

---
 .../messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 8482f61..36f5f2c 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -21,7 +21,6 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
   auto sockpath = myaddr_.get_name();
   if (isValidSocketPath(sockpath)) {
     mySockAddr_ = createUnixAbstractSocketAddr(sockpath);
-    setState(State::Initialized);
     // Create the socket.
     int opt = true;
     fdMySock_ = socket(AF_UNIX, SOCK_STREAM, 0);
-- 
2.43.0


From c46161ba3f4e52f82855b3901e84a8068524a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 15/66] fix: a receiver stopped before its thread runs must not
 run forever

---
 .../client-server/ipc/LocalIPCServer.cpp      |  4 +---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 20 ++++++++++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 87a6adc..90e3e5f 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -35,9 +35,7 @@ bool LocalIPCServer::start() {
 }
 
 void LocalIPCServer::stop() {
-  if (pReceiver_->running()) {
-    pReceiver_->stop();
-  }
+  pReceiver_->stop();
   if (listeningThread_.joinable()) {
     listeningThread_.join();
   }
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 36f5f2c..047b840 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -47,8 +47,8 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
 
 bool LocalIPCBufferReceiverImpl::start() {
   try {
-    if (getState() == State::Initialized) {
-      setState(State::Running);
+    auto expectedState = State::Initialized;
+    if (state_.compare_exchange_strong(expectedState, State::Running)) {
       waitAndProcessConnections();
     } else {
       return false;
@@ -64,13 +64,15 @@ bool LocalIPCBufferReceiverImpl::start() {
 }
 
 void LocalIPCBufferReceiverImpl::stop() {
-  if (running()) {
-    auto currentState = getState();
-    setState(State::Stopped);
-    // trying connect to socket to wake the running thread
-    if (currentState == State::WaitingConnection) {
-      connectToSocket(myaddr_.get_name());
-    }
+  // a receiver that is about to run must not miss the stop request
+  auto currentState = getState();
+  while (currentState != State::Uninitialized &&
+         currentState != State::Stopped &&
+         !state_.compare_exchange_weak(currentState, State::Stopped)) {
+  }
+  // trying connect to socket to wake the running thread
+  if (currentState == State::WaitingConnection) {
+    connectToSocket(myaddr_.get_name());
   }
 }
 
-- 
2.43.0


From b2b36103f0258dc3dca1c2b6dda77739e0f3fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 16/66] fix: keep a slot alive while it runs

A slot that disconnects itself (or clears its signal) while it is being
notified destroyed the function object it was executing.
---
 include/maf/utils/SignalSlots.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 5760d34..78333ba 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -61,7 +61,9 @@ class SingleSlotKeeper {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected!");
       notifying_ = true;
-      mySlot()->operator()(args...);
+      // the slot may disconnect itself while it is running
+      auto slot = mySlot();
+      slot->operator()(args...);
       notifying_ = false;
     }
   }
@@ -113,7 +115,9 @@ class MultiSlotKeeper {
         if (!*it) {  // this this slot is disconnected;
           it = slots_.erase(it);
         } else {
-          std::invoke(*(*it), args...);
+          // the slot may disconnect itself while it is running
+          auto slot = *it;
+          std::invoke(*slot, args...);
           ++it;
         }
       }
-- 
2.43.0


From 7cd266624d7956fbfb51a7db8d56c2d42ba7174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 17/66] fix: clearing a signal while it is being notified

MultiSlotKeeper::clear() emptied the list notify() was iterating over; during
a notification the slots are only marked disconnected now, as remove() does.
---
 include/maf/utils/SignalSlots.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 78333ba..a3a2b7b 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -142,7 +142,15 @@ class MultiSlotKeeper {
 
   bool valid() const { return !slots_.empty(); }
 
-  void clear() { slots_.clear(); }
+  void clear() {
+    if (!notifying_) {
+      slots_.clear();
+    } else {
+      for (auto& slot : slots_) {
+        slot.reset();
+      }
+    }
+  }
 
   bool has(const SlotPtrType& s) const {
     return find(begin(slots_), end(slots_), s) != end(slots_);
-- 
2.43.0


From 6d5c06b15d25618434fdbc599b43b755add75e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 18/66] fix: a throwing slot left its signal in the notifying
 state

notifying_ stayed set when a slot threw, so the next notification asserted and
disconnected slots were never removed from the list again.
---
 include/maf/utils/SignalSlots.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index a3a2b7b..1884b9e 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -33,6 +33,18 @@ using Slot_ = function<void(ConstRef_<Args_>...)>;
 template <class... Args_>
 using SlotPtr_ = shared_ptr<Slot_<Args_...>>;
 
+struct NotifyingScope_ {
+  NotifyingScope_(bool& notifying) : notifying_{notifying} {
+    notifying_ = true;
+  }
+  ~NotifyingScope_() { notifying_ = false; }
+  NotifyingScope_(const NotifyingScope_&) = delete;
+  NotifyingScope_& operator=(const NotifyingScope_&) = delete;
+
+ private:
+  bool& notifying_;
+};
+
 template <class... Args_>
 class SingleSlotKeeper {
  public:
@@ -60,11 +72,10 @@ class SingleSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected!");
-      notifying_ = true;
+      NotifyingScope_ scope{notifying_};
       // the slot may disconnect itself while it is running
       auto slot = mySlot();
       slot->operator()(args...);
-      notifying_ = false;
     }
   }
 
@@ -109,8 +120,7 @@ class MultiSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected");
-      notifying_ = true;
-
+      NotifyingScope_ scope{notifying_};
       for (auto it = begin(slots_); it != end(slots_);) {
         if (!*it) {  // this this slot is disconnected;
           it = slots_.erase(it);
@@ -121,7 +131,6 @@ class MultiSlotKeeper {
           ++it;
         }
       }
-      notifying_ = false;
     }
   }
 
-- 
2.43.0


From 1229d995d4453b60167e16ae31eacb029663e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 19/66] fix: slots disconnected during a notification counted
 as connected

Their entries stay in the list, empty, until the next notification; connected()
and connectionCount() have to skip them.
---
 include/maf/utils/SignalSlots.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 1884b9e..6a2ae7c 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -149,7 +149,7 @@ class MultiSlotKeeper {
     return false;
   }
 
-  bool valid() const { return !slots_.empty(); }
+  bool valid() const { return size() > 0; }
 
   void clear() {
     if (!notifying_) {
@@ -165,7 +165,16 @@ class MultiSlotKeeper {
     return find(begin(slots_), end(slots_), s) != end(slots_);
   }
 
-  size_t size() const { return slots_.size(); }
+  size_t size() const {
+    // slots disconnected while being notified leave an empty entry behind
+    size_t count = 0;
+    for (const auto& slot : slots_) {
+      if (slot) {
+        ++count;
+      }
+    }
+    return count;
+  }
 
   SlotPtrType lastSlot() const { return slots_.back(); }
 
-- 
2.43.0


From 51bf60a842b398486b6e6bce511de7d1e931c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 20/66] fix: self move assignment disconnected a
 ScopedConnection

---
 include/maf/utils/SignalSlots.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 6a2ae7c..15195de 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -311,8 +311,10 @@ class ScopedConnection {
   ScopedConnection(ConnectionType&& c) : c_{move(c)} {}
   ScopedConnection(ScopedConnection&&) = default;
   ScopedConnection& operator=(ScopedConnection&& other) {
-    disconnect();
-    c_ = move(other.c_);
+    if (&other != this) {
+      disconnect();
+      c_ = move(other.c_);
+    }
     return *this;
   }
 
-- 
2.43.0


From 44e5f22be21eccda6e4e270aaa930a1b8be4954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 21/66] fix: destroying a moved-from signal

The destructor dereferenced the keeper, which a moved-from signal no longer
has.
---
 include/maf/utils/SignalSlots.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 15195de..8400d62 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -347,7 +347,11 @@ class BasicSignal_ {
   BasicSignal_& operator=(const BasicSignal_&) = delete;
   BasicSignal_(BasicSignal_&&) = default;
   BasicSignal_& operator=(BasicSignal_&&) = default;
-  ~BasicSignal_() { disconnect(); }
+  ~BasicSignal_() {
+    if (slotKeeper_) {
+      disconnect();
+    }
+  }
 
   void operator()(ConstRef_<Args_>... args) const { notify(args...); }
 
-- 
2.43.0


From f865430af09a4d9309c236c4b77661c8fa7ff6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 22/66] fix: single connection signals and observables with a
 shared mutex

SharedMutexSCSignal and SharedMutexSCObservable accepted any number of
connections.
---
 include/maf/utils/Observable.h  | 2 +-
 include/maf/utils/SignalSlots.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index 1d362a6..c4cbf28 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -628,7 +628,7 @@ using SharedMutexObservable =
     BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCObservable =
-    BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <class... _Args, class _Callback>
 auto waitableConnect(BasicObservable_<_Args...>& o, _Callback callback) {
diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 8400d62..df8720b 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -635,7 +635,7 @@ using SharedMutexSignal =
     BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCSignal =
-    BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <template <class, class...> class Signal_, class SlotKeeper_,
           typename... Args_>
-- 
2.43.0


From cbc950e91ea33b429122f76a36f3c3d618bf074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 23/66] fix: move assignment of an AtomicObject reference

It neither released the mutex it was holding nor returned a value.
---
 include/maf/threading/AtomicObject.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/AtomicObject.h b/include/maf/threading/AtomicObject.h
index 612e28b..d08c46d 100644
--- a/include/maf/threading/AtomicObject.h
+++ b/include/maf/threading/AtomicObject.h
@@ -19,8 +19,14 @@ class AtomicObject : public pattern::UnCopyable {
     }
 
     AtomicRefBase_ &operator=(AtomicRefBase_ &&other) {
-      pointed_ = other.pointed_;
-      other.pointed_ = nullptr;
+      if (&other != this) {
+        if (pointed_) {
+          pointed_->mutex_.unlock();
+        }
+        pointed_ = other.pointed_;
+        other.pointed_ = nullptr;
+      }
+      return *this;
     }
 
     ~AtomicRefBase_() {
-- 
2.43.0


From e532e46b22418a1e96c813a5dc483999462af634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 24/66] fix: dereferencing an AtomicObject reference gave a
 copy

*ref returned the protected object by value, so a change made through it was
lost; ref-> already gave access to the object itself.
---
 include/maf/threading/AtomicObject.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/AtomicObject.h b/include/maf/threading/AtomicObject.h
index d08c46d..09de715 100644
--- a/include/maf/threading/AtomicObject.h
+++ b/include/maf/threading/AtomicObject.h
@@ -48,7 +48,7 @@ class AtomicObject : public pattern::UnCopyable {
     decltype(auto) operator->() {
       return std::addressof(this->pointed_->data_);
     }
-    decltype(auto) operator*() { return this->pointed_->data_; }
+    decltype(auto) operator*() { return (this->pointed_->data_); }
   };
 
   template <class _D>
@@ -77,7 +77,7 @@ class AtomicObject : public pattern::UnCopyable {
     decltype(auto) operator->() const {
       return std::addressof(Base_::pointed_->data_);
     }
-    decltype(auto) operator*() const { return this->pointed_->data_; }
+    decltype(auto) operator*() const { return (this->pointed_->data_); }
   };
 
   template <class _D, class _M>
-- 
2.43.0


From 9ee6bfbd292644ff452d56027174287aa9868c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 25/66] fix: connecting a std::function (or member function) to
 an observable skipped the initial call with the current value

The using-declaration brought the plain signal's overloads into the observable; they beat the forwarding template whenever the argument type matched exactly, so the slot was never called with the current value.
---
 include/maf/utils/Observable.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index c4cbf28..b3ac5d9 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -111,7 +111,6 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
 
  public:
   using SlotsKeeperType = SlotsKeeper_;
-  using Base_::connect;
   using State = tuple<PurgeType_<SubStates_>...>;
   ObservableBasic_() = default;
   ObservableBasic_(ObservableBasic_&&) = default;
-- 
2.43.0


From 3f7aa0a8656867bcede045d25fd40a8c0557bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 26/66] fix: ParamTrait::translate: a payload that is not
 incoming data was decoded as one; status unset for outgoing data

---
 include/maf/messaging/client-server/ipc/local/ParamTrait.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/maf/messaging/client-server/ipc/local/ParamTrait.h b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
index 90e983a..ad9a2f7 100644
--- a/include/maf/messaging/client-server/ipc/local/ParamTrait.h
+++ b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
@@ -27,10 +27,16 @@ class ParamTrait : public ParamTraitBase {
     }
 
     if (payload->type() == CSPayloadType::OutgoingData) {
+      assign_ptr(status, TranslationStatus::Success);
       return std::static_pointer_cast<OutgoingPayloadT<Message>>(payload)
           ->content();
     }
 
+    if (payload->type() != CSPayloadType::IncomingData) {
+      assign_ptr(status, TranslationStatus::DestSrcMismatch);
+      return {};
+    }
+
     try {
       using PureContentType = std::decay_t<Message>;
       // Warning: avoid using dynamic_cast RTTI
-- 
2.43.0


From 14c7f1e0ac82bfb4bea51aa2f47eb1a580c27996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 27/66] fix: CSError: copying an error shared its data, which
 was then deleted twice

---
 include/maf/messaging/client-server/CSError.h      | 2 ++
 src/common/maf/messaging/client-server/CSError.cpp | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/maf/messaging/client-server/CSError.h b/include/maf/messaging/client-server/CSError.h
index dd49e01..dc68a57 100644
--- a/include/maf/messaging/client-server/CSError.h
+++ b/include/maf/messaging/client-server/CSError.h
@@ -30,6 +30,8 @@ class CSError : public CSMsgPayloadIF {
   MAF_EXPORT CSError(Description desc = {},
                      ErrorCode code = CSErrorCode::Unknown);
 
+  MAF_EXPORT CSError(const CSError &other);
+  MAF_EXPORT CSError &operator=(const CSError &other);
   MAF_EXPORT ~CSError();
   MAF_EXPORT CSPayloadType type() const override;
   MAF_EXPORT bool equal(const CSMsgPayloadIF *other) const override;
diff --git a/src/common/maf/messaging/client-server/CSError.cpp b/src/common/maf/messaging/client-server/CSError.cpp
index e93d5ea..42b9fa0 100644
--- a/src/common/maf/messaging/client-server/CSError.cpp
+++ b/src/common/maf/messaging/client-server/CSError.cpp
@@ -14,6 +14,14 @@ struct CSErrorDataPrv {
 CSError::CSError(Description desc, ErrorCode code)
     : d_{new CSErrorDataPrv{std::move(desc), code}} {}
 
+CSError::CSError(const CSError &other)
+    : CSMsgPayloadIF(other), d_{new CSErrorDataPrv{*other.d_}} {}
+
+CSError &CSError::operator=(const CSError &other) {
+  *d_ = *other.d_;
+  return *this;
+}
+
 CSError::~CSError() { delete d_; }
 
 bool CSError::equal(const CSMsgPayloadIF *other) const {
-- 
2.43.0


From 8b76857372d7a56583e3486a6b26001750acb2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 28/66] fix: answering a request that is no longer pending must
 not crash the service

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index b1c8169..820979b 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -71,7 +71,9 @@ ActionCallStatus ServiceProvider::respondToRequest(const CSMessagePtr &csMsg) {
     request = getRequestInfo(csMsg, false);
   } else {
     request = getRequestInfo(csMsg, true);
-    request->invalidate();
+    if (request) {
+      request->invalidate();
+    }
   }
   if (request) {
     return sendBackMessageToClient(csMsg);
-- 
2.43.0


From 5ea85f17973efcb48ac34d1994b0382f5befea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 29/66] fix: requests of different clients with the same id
 must not be mixed up

---
 src/common/maf/messaging/client-server/Request.cpp         | 5 +++++
 src/common/maf/messaging/client-server/Request.h           | 1 +
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index e71fb72..050e296 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -95,6 +95,11 @@ RequestID Request::getRequestID() const {
   return _csMsg->requestID();
 }
 
+Address Request::getSourceAddress() const {
+  std::lock_guard lock(_mutex);
+  return _csMsg->sourceAddress();
+}
+
 ActionCallStatus Request::sendMsgBackToClient() {
   if (auto stub = _svStub.lock()) {
     return stub->respondToRequest(_csMsg);
diff --git a/src/common/maf/messaging/client-server/Request.h b/src/common/maf/messaging/client-server/Request.h
index 97f77f6..93f3d4f 100644
--- a/src/common/maf/messaging/client-server/Request.h
+++ b/src/common/maf/messaging/client-server/Request.h
@@ -23,6 +23,7 @@ class Request : public RequestIF {
           std::weak_ptr<ServiceProviderIF> svStub);
   bool invalidate();
   AbortRequestCallback getAbortCallback();
+  Address getSourceAddress() const;
   ActionCallStatus sendMsgBackToClient();
   void setOperationCode(OpCode opCode);
 
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 820979b..ff3eec9 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -272,7 +272,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
     for (auto itRequest = requestList.begin(); itRequest != requestList.end();
          ++itRequest) {
       RequestPtr &requestTmp = *itRequest;
-      if (requestTmp->getRequestID() == msg->requestID()) {
+      // request ids are only unique within the client that allocated them
+      if (requestTmp->getRequestID() == msg->requestID() &&
+          requestTmp->getSourceAddress() == msg->sourceAddress()) {
         request = requestTmp;
         if (remove) {
           requestList.erase(itRequest);
-- 
2.43.0


From f52860efef09ddbac5fd180061e154969d56afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 30/66] fix: broadcasting must report success when a registered
 client got the message

---
 .../maf/messaging/client-server/ServiceProvider.cpp  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index ff3eec9..fbe4174 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -137,7 +137,7 @@ void ServiceProvider::broadcastServerSide(const OpID &opID,
 ActionCallStatus ServiceProvider::broadcastToClients(
     const OpID &propertyID, OpCode opCode, const CSPayloadIFPtr &payload) {
   using AddressList = std::vector<Address>;
-  bool success = false;
+  bool success = true;
   AddressList addresses;
 
   {  // locking _regEntriesMap block
@@ -156,12 +156,14 @@ ActionCallStatus ServiceProvider::broadcastToClients(
     auto csMsg = createCSMessage(serviceID(), propertyID, opCode,
                                  RequestIDInvalid, payload);
 
+    size_t sentCount = 0;
     auto trySendToDestinations =
-        [this, &csMsg](AddressList &addresses) -> AddressList {
+        [this, &csMsg, &sentCount](AddressList &addresses) -> AddressList {
       AddressList busyReceivers;
       for (const auto &addr : addresses) {
         auto errCode = sendMessage(csMsg, addr);
         if (errCode == ActionCallStatus::Success) {
+          ++sentCount;
           MAF_LOGGER_INFO("Sent message id: ", csMsg->operationID(),
                           " from server side!");
         } else if (errCode == ActionCallStatus::ReceiverBusy) {
@@ -188,10 +190,10 @@ ActionCallStatus ServiceProvider::broadcastToClients(
     }
 
     // success when succeeded to send msg to at least one receiver
-    success = (busyReceivers.size() != addresses.size());
+    success = (sentCount != 0);
   }
-  return success ? ActionCallStatus::ReceiverUnavailable
-                 : ActionCallStatus::Success;
+  return success ? ActionCallStatus::Success
+                 : ActionCallStatus::ReceiverUnavailable;
 }
 
 CSPayloadIFPtr ServiceProvider::getStatus(const OpID &propertyID) {
-- 
2.43.0


From 1506c6bd7eb5b8b09def4fc8ad66d101022a671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 31/66] fix: shutting a service down must remove its pending
 requests

---
 .../maf/messaging/client-server/ServiceProvider.cpp    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index fbe4174..1dfebe9 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -289,8 +289,13 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
 }
 
 void ServiceProvider::invalidateAndRemoveAllRequests() {
-  std::lock_guard lock(requestsMap_);
-  for (auto &[opID, requests] : *requestsMap_) {
+  RequestMap::DataType pendingRequests;
+  {
+    std::lock_guard lock(requestsMap_);
+    pendingRequests.swap(*requestsMap_);
+  }
+  // abort callbacks are free to use the service, don't call them under lock
+  for (auto &[opID, requests] : pendingRequests) {
     for (auto &request : requests) {
       request->invalidate();
       if (auto abortCallback = request->getAbortCallback()) {
@@ -298,7 +303,6 @@ void ServiceProvider::invalidateAndRemoveAllRequests() {
       }
     }
   }
-  regEntriesMap_->clear();
 }
 
 void ServiceProvider::saveRegisterInfo(const CSMessagePtr &msg) {
-- 
2.43.0


From af531a59031b818fe919b054e5a741c039a22a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 32/66] fix: server side listeners must be able to use the
 service

---
 .../messaging/client-server/ServiceProvider.cpp   | 15 +++++++++++----
 .../maf/messaging/client-server/ServiceProvider.h |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 1dfebe9..00a68bc 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -127,10 +127,17 @@ ActionCallStatus ServiceProvider::broadcast(const OpID &propertyID,
 
 void ServiceProvider::broadcastServerSide(const OpID &opID,
                                           const CSPayloadIFPtr &payload) {
-  LOCK(serverSideListenersMap_);
-  auto it = serverSideListenersMap_->find(opID);
-  if (it != serverSideListenersMap_->end()) {
-    it->second.notify(payload);
+  PropertyStatusChangedSignal *signal = nullptr;
+  {
+    LOCK(serverSideListenersMap_);
+    auto it = serverSideListenersMap_->find(opID);
+    if (it != serverSideListenersMap_->end()) {
+      signal = &it->second;  // entries are never removed from the map
+    }
+  }
+  // listeners are free to use the service, don't call them under lock
+  if (signal) {
+    signal->notify(payload);
   }
 }
 
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 8238614..3f81865 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -21,7 +21,7 @@ class ServiceProvider : public ServiceProviderIF,
 
   using RequestPtr                                = std::shared_ptr<Request>;
   using PropertyPtr                               = CSPayloadIFPtr;
-  using PropertyStatusChangedSignal               = signal_slots::SignalST<PropertyPtr>;
+  using PropertyStatusChangedSignal               = signal_slots::Signal<PropertyPtr>;
   using RequestMap                                = OpIDMap<std::list<RequestPtr>>;
   using PropertyMap                               = OpIDMap<PropertyPtr>;
   using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
-- 
2.43.0


From a77d1eea666ecf7299a4b208d9d226fcc3084c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 33/66] fix: abort callback of an aborted request must not be
 called under its lock

---
 src/common/maf/messaging/client-server/Request.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index 050e296..47a070e 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -71,8 +71,10 @@ CSPayloadIFPtr Request::getInput() {
 }
 
 void Request::onAborted(AbortRequestCallback abortCallback) {
-  std::lock_guard lock(_mutex);
+  std::unique_lock lock(_mutex);
   if (!_valid) {
+    // the callback is free to use this request
+    lock.unlock();
     abortCallback();
   } else {
     _abortCallback = std::move(abortCallback);
-- 
2.43.0


From 75d20f7e5354def0b16f2d07b0466238856241f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 34/66] fix: reading the cached status of a removed property
 must not crash

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 7d803fb..4c4f7cc 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -562,7 +562,7 @@ CSPayloadIFPtr ServiceRequester::getCachedProperty(
     const OpID &propertyID) const {
   std::lock_guard lock(propertiesCache_);
   if (auto itProp = propertiesCache_->find(propertyID);
-      itProp != propertiesCache_->end()) {
+      itProp != propertiesCache_->end() && itProp->second) {
     return CSPayloadIFPtr{itProp->second->clone()};
   }
   return {};
-- 
2.43.0


From f3ba95eacd9efbd9d312bc57c58dabd31700fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 35/66] fix: aborting a request that is not pending must report
 a status

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 4c4f7cc..e639620 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -114,6 +114,8 @@ void ServiceRequester::abortRequest(const RegID &regID,
     }
 
     assign_ptr(callStatus, status);
+  } else {
+    assign_ptr(callStatus, ActionCallStatus::NoAction);
   }
 }
 
-- 
2.43.0


From c2294dec87d009bdedd7409e665d314723a40147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 36/66] fix: more than one answer to a blocking request must
 not throw in the receiving thread

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index e639620..ed85dc0 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -201,7 +201,11 @@ CSPayloadIFPtr ServiceRequester::sendMessageSync(
   auto resultFuture = asyncResponse->get_future();
   auto onSyncMsgCallback =
       [asyncResponse = move(asyncResponse)](const CSPayloadIFPtr &msg) {
-        asyncResponse->set_value(msg);
+        try {
+          asyncResponse->set_value(msg);
+        } catch (const std::future_error &) {
+          // a partial update has already been taken as the result
+        }
       };
 
   auto regID = sendMessageAsync(operationID, opCode, msgContent,
-- 
2.43.0


From 70e6fb0b866469200a27c25792ac8f193c2b4d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 37/66] fix: failing to ask for a status must be reported

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index ed85dc0..74a86db 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -413,7 +413,7 @@ ActionCallStatus ServiceRequester::getStatus(
     callback(getCachedProperty(propertyID));
   } else {
     sendMessageAsync(propertyID, OpCode::StatusGet, {}, std::move(callback),
-                     nullptr);
+                     &callstatus);
   }
   return callstatus;
 }
-- 
2.43.0


From a3bc26ac27b8259f8f6daff011cb0c29dfccf812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 38/66] fix: registering while a status is being delivered must
 not miss it

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 74a86db..beb6cad 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -36,9 +36,12 @@ bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
         onRegistersUpdated(csMsg);
         break;
       case OpCode::StatusRegister: {
-        if (onRegistersUpdated(csMsg)) {
+        // cache it first: who registers after the callbacks are collected
+        // gets the latest status from cache
+        if (subscribingProperty(csMsg->operationID())) {
           cachePropertyStatus(csMsg->operationID(), csMsg->payload());
         }
+        onRegistersUpdated(csMsg);
       } break;
       case OpCode::PartialRequestUpdate:
       case OpCode::Request:
-- 
2.43.0


From 5574978644dd221e7c438ee1b9a9e401f0eaa134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 39/66] fix: service status observers must be able to use the
 requester

---
 .../messaging/client-server/ServiceRequester.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index beb6cad..493caa1 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -268,17 +268,20 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
 void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
                                                        Availability oldStatus,
                                                        Availability newStatus) {
-  std::lock_guard lock(serviceStatusObservers_);
-  for (auto itO = std::begin(*serviceStatusObservers_);
-       itO != std::end(*serviceStatusObservers_);) {
+  ServiceStatusObservers::DataType observers;
+  {
+    // observers are free to use this requester, don't notify them under lock
+    std::lock_guard lock(serviceStatusObservers_);
+    observers = *serviceStatusObservers_;
+  }
+  for (const auto &observer : observers) {
     try {
-      (*itO)->onServiceStatusChanged(sid, oldStatus, newStatus);
+      observer->onServiceStatusChanged(sid, oldStatus, newStatus);
     } catch (const UnavailableException &) {
       MAF_LOGGER_WARN(
           "An observer of ", sid,
           " is no longer available, then remove it from list observers");
-      itO = serviceStatusObservers_->erase(itO);
-      continue;
+      unregisterServiceStatusObserver(observer);
     } catch (const std::exception &e) {
       MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
                       " when notify service status change of ", sid);
@@ -289,7 +292,6 @@ void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
           sid);
       throw;
     }
-    ++itO;
   }
 }
 
-- 
2.43.0


From 39b0befc574b0b47343b0045c9ed12d4ef2516c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:47 +0000
Subject: [PATCH 40/66] fix: registering for a signal again must report a
 status

---
 .../maf/messaging/client-server/ServiceRequester.cpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 493caa1..ecfc0bf 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -316,11 +316,13 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
     }
 
     assign_ptr(callStatus, status);
-  } else if (opCode == OpCode::StatusRegister) {
-    if (auto cachedProperty = getCachedProperty(opID)) {
-      callback(cachedProperty);
-    }
+  } else {
     assign_ptr(callStatus, ActionCallStatus::Success);
+    if (opCode == OpCode::StatusRegister) {
+      if (auto cachedProperty = getCachedProperty(opID)) {
+        callback(cachedProperty);
+      }
+    }
   }
 
   return regID;
-- 
2.43.0


From 137302bc1bd2a2747f4bb45db25fb9e39f8fdfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 41/66] fix: a start function that throws left the thread bound
 to the processor

---
 src/common/maf/messaging/Processor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 1f9517c..86fb02f 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -193,15 +193,18 @@ const ProcessorID &Processor::id() const noexcept { return d_->id; }
 
 void Processor::run(ThreadFunction threadInit, ThreadFunction threadDeinit) {
   auto justSet = this_processor::testAndSetThreadLocalInstance(this);
+  CallOnExit clearInstance = [justSet] {
+    this_processor::clearTLInstanceIfSet(justSet);
+  };
+
   if (threadInit) {
     threadInit();
   }
 
-  CallOnExit deinit = [justSet, threadDeinit = std::move(threadDeinit)] {
+  CallOnExit deinit = [threadDeinit = std::move(threadDeinit)] {
     if (threadDeinit) {
       threadDeinit();
     }
-    this_processor::clearTLInstanceIfSet(justSet);
   };
 
   ExecutionUPtr exc;
-- 
2.43.0


From ef424fdbfbe16c1b7fbd7851113dc790bac7b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 42/66] fix: a function bound to a processor lost its job after
 the first call

---
 src/common/maf/messaging/Processor.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 86fb02f..15854f7 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -344,25 +344,25 @@ Processor::Executor Processor::getBlockingExecutor() {
 }
 
 Execution Processor::willExecuteOnThis(Execution exec) {
-  return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
+  return [wprocessor = this->weak_from_this(), exec = move(exec)] {
     if (auto processor = wprocessor.lock()) {
-      processor->execute(move(exec));
+      processor->execute(exec);
     }
   };
 }
 
 Execution Processor::willAsyncExecuteOnThis(Execution exec) {
-  return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
+  return [wprocessor = this->weak_from_this(), exec = move(exec)] {
     if (auto processor = wprocessor.lock()) {
-      processor->executeAsync(move(exec));
+      processor->executeAsync(exec);
     }
   };
 }
 
 Execution Processor::willBlockingExecuteOnThis(Execution exec) {
-  return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
+  return [wprocessor = this->weak_from_this(), exec = move(exec)] {
     if (auto processor = wprocessor.lock()) {
-      processor->waitableExecute(move(exec)).wait();
+      processor->waitableExecute(exec).wait();
     }
   };
 }
-- 
2.43.0


From d1cd4c5eea7b1ed6e85955621c743ec84f796b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 43/66] fix: a processor was called connected to a message
 whose handlers are all gone

---
 src/common/maf/messaging/Processor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 15854f7..8b6d148 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -296,7 +296,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
 }
 
 bool Processor::connected(const MessageID &mid) const {
-  return d_->msgHandlersMap.atomic()->count(mid) > 0;
+  return d_->msgConnected(mid);
 }
 
 bool Processor::executeAsync(Execution exec) {
-- 
2.43.0


From 131efe0ec09fbed268e2535c6757f7903c9af5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 44/66] fix: assigning a message connection leaked the old one,
 or lost itself

---
 src/common/maf/messaging/Processor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 8b6d148..a3a1955 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -525,8 +525,11 @@ MsgConnection::MsgConnection(MsgConnection &&con) noexcept {
 }
 
 MsgConnection &MsgConnection::operator=(MsgConnection &&con) noexcept {
-  _ = con._;
-  con._ = nullptr;
+  if (this != &con) {
+    delete asSSC(_);
+    _ = con._;
+    con._ = nullptr;
+  }
   return *this;
 }
 
-- 
2.43.0


From 816734d383c9acf16827f673d4caa882d9f14dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 45/66] fix: assigning to a running processor waited for its
 end without stopping it

---
 include/maf/messaging/ProcessorEx.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/ProcessorEx.h b/include/maf/messaging/ProcessorEx.h
index 40cf5c5..c9c4ac5 100644
--- a/include/maf/messaging/ProcessorEx.h
+++ b/include/maf/messaging/ProcessorEx.h
@@ -44,7 +44,14 @@ class AsyncProcessor : public ProcessorExBase {
   using Timeout = std::chrono::milliseconds;
   using ProcessorExBase::ProcessorExBase;
   AsyncProcessor(AsyncProcessor &&) = default;
-  AsyncProcessor &operator=(AsyncProcessor &&) = default;
+  AsyncProcessor &operator=(AsyncProcessor &&other) {
+    if (this != &other) {
+      stopAndWait();
+      ProcessorExBase::operator=(std::move(other));
+      stopSignal_ = std::move(other.stopSignal_);
+    }
+    return *this;
+  }
   ~AsyncProcessor() { stopAndWait(); }
 
   static StoppedSignal launchProcessor(const ProcessorInstance &comp,
-- 
2.43.0


From a100a45284dce4d4d2a945154263abe4c020ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 46/66] fix: two processors created at the same time got the
 same id, one of them unreachable

---
 src/common/maf/messaging/Processor.cpp | 8 ++------
 src/common/maf/messaging/Router.cpp    | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index a3a1955..95b5f2b 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -175,12 +175,8 @@ ProcessorInstance Processor::create(ProcessorID id) {
 
   auto comp = ProcessorInstance{new Processor{std::move(id)}};
 
-  if (willJoinRouting) {
-    if (Router::instance().findProcessor(comp->id())) {
-      comp.reset();
-    } else {
-      Router::instance().addProcessor(comp);
-    }
+  if (willJoinRouting && !Router::instance().addProcessor(comp)) {
+    comp.reset();
   }
   return comp;
 }
diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 4602149..05536ea 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -75,7 +75,7 @@ bool Router::addProcessor(ProcessorInstance comp) {
     if (joinedProcessors->count(comp) == 0) {
       informNewProcessorAboutJoinedOnes(comp, *joinedProcessors);
       notifyAllAboutNewProcessor(*joinedProcessors, comp);
-      joinedProcessors->insert(move(comp));
+      return joinedProcessors->insert(move(comp)).second;
     }
   }
   return false;
-- 
2.43.0


From 788e9c2199c90dfb570d58393e4c42a3b8eac81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 47/66] fix: sending to all ran handlers under the lock that
 they need to use routing

---
 src/common/maf/messaging/Router.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 05536ea..aa03de7 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -41,8 +41,9 @@ bool Router::postToAll(const Message &msg) {
 
 Processor::CompleteSignal Router::sendToAll(const Message &msg) {
   auto msgMessageHandledSignals = vector<Processor::CompleteSignal>{};
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  // handlers of this thread's processor run here, and may use the router
+  const auto processors = Processors{*messageprocessors_.atomic()};
+  for (const auto &comp : processors) {
     if (auto sig = askThenSend(comp, std::move(msg)); sig.valid()) {
       msgMessageHandledSignals.emplace_back(move(sig));
     }
-- 
2.43.0


From 67018fee9ceca2a0dea220587227e2bcc5179e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 48/66] fix: stopping a processor took another one with the
 same id out of routing

---
 src/common/maf/messaging/Router.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index aa03de7..62ac26a 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -83,12 +83,20 @@ bool Router::addProcessor(ProcessorInstance comp) {
 }
 
 bool Router::removeProcessor(const ProcessorInstance &comp) {
-  if (messageprocessors_.atomic()->erase(comp) != 0) {
+  auto removed = false;
+  {
+    auto joinedProcessors = messageprocessors_.atomic();
+    if (auto it = joinedProcessors->find(comp);
+        it != joinedProcessors->end() && *it == comp) {
+      joinedProcessors->erase(it);
+      removed = true;
+    }
+  }
+  if (removed) {
     postToAll(ProcessorStatusUpdateMsg{
         comp, ProcessorStatusUpdateMsg::Status::UnReachable});
-    return true;
   }
-  return false;
+  return removed;
 }
 
 static bool askThenPost(const ProcessorInstance &r, Message msg) {
-- 
2.43.0


From c273aa2dcea62885b2131cccd60590e743e3743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:13 +0000
Subject: [PATCH 49/66] fix: notify requesters of a client without its lock

Service status observers may use the client they were told by: looking up
another requester in there locked the same mutex again.
---
 .../maf/messaging/client-server/ClientBase.cpp      | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientBase.cpp b/src/common/maf/messaging/client-server/ClientBase.cpp
index ce63a62..6ea92e0 100644
--- a/src/common/maf/messaging/client-server/ClientBase.cpp
+++ b/src/common/maf/messaging/client-server/ClientBase.cpp
@@ -1,6 +1,7 @@
 #include "ClientBase.h"
 
 #include <maf/logging/Logger.h>
+#include <maf/utils/containers/Map.h>
 
 #include <cassert>
 
@@ -14,8 +15,9 @@ void ClientBase::onServerStatusChanged(Availability oldStatus,
                                        Availability newStatus) noexcept {
   if (newStatus != Availability::Available) {
     _serviceStatusMap.atomic()->clear();
-    std::lock_guard lock(_requestersMap);
-    for (auto &[sid, requester] : *_requestersMap) {
+    // observers are free to use this client, don't notify them under lock
+    auto requesters = *_requestersMap.atomic();
+    for (auto &[sid, requester] : requesters) {
       requester->onServiceStatusChanged(sid, oldStatus, newStatus);
     }
   }
@@ -28,10 +30,9 @@ void ClientBase::onServiceStatusChanged(const ServiceID &sid,
                   "]: ", oldStatus, "-->", newStatus);
 
   (*_serviceStatusMap.atomic())[sid] = newStatus;
-  std::lock_guard lock(_requestersMap);
-  auto itProxy = _requestersMap->find(sid);
-  if (itProxy != _requestersMap->end()) {
-    itProxy->second->onServiceStatusChanged(sid, oldStatus, newStatus);
+  // observers are free to use this client, don't notify them under lock
+  if (auto requester = util::get(*_requestersMap.atomic(), sid)) {
+    requester->onServiceStatusChanged(sid, oldStatus, newStatus);
   } else {
     MAF_LOGGER_WARN("There's no proxy for this service id: ", sid);
   }
-- 
2.43.0


From 5cec9ffbaa51802b5f5650eec6eab379f7ae8cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:43 +0000
Subject: [PATCH 50/66] fix: jobs of a local client don't outlive it

Bytes that came in, the first check of the server and the monitoring timer
left jobs on the job thread that used the client after it was destroyed.
---
 .../client-server/ipc/LocalIPCClient.cpp      | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
index 0adbed4..87f5365 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
@@ -73,7 +73,11 @@ bool LocalIPCClient::init(const Address &serverAddress) {
 
 bool LocalIPCClient::start() {
   receiverThread_ = std::thread{[this] { pReceiver_->start(); }};
-  single_threadpool::submit([this] { monitorServerStatus(); });
+  single_threadpool::submit([thisw = weak_from_this()] {
+    if (auto this_ = thisw.lock()) {
+      static_cast<LocalIPCClient *>(this_.get())->monitorServerStatus();
+    }
+  });
   return true;
 }
 
@@ -135,19 +139,26 @@ void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
   } else if (tunedInterval < serverMonitorInterval) {
     tunedInterval += 5;
   }
-  serverMonitorTimer_.start(tunedInterval, [tunedInterval, this] {
-    this->monitorServerStatus(tunedInterval);
+  serverMonitorTimer_.start(tunedInterval, [tunedInterval,
+                                            thisw = weak_from_this()] {
+    if (auto this_ = thisw.lock()) {
+      static_cast<LocalIPCClient *>(this_.get())
+          ->monitorServerStatus(tunedInterval);
+    }
   });
 }
 
 void LocalIPCClient::onBytesCome(srz::Buffer &&buff) {
-  single_threadpool::submit([this, buff = std::move(buff)]() mutable {
-    std::shared_ptr<LocalIPCMessage> csMsg =
-        std::make_shared<LocalIPCMessage>();
-    if (csMsg->fromBytes(std::move(buff))) {
-      onIncomingMessage(csMsg);
-    } else {
-      MAF_LOGGER_ERROR("incoming message is not wellformed");
+  single_threadpool::submit([thisw = weak_from_this(),
+                             buff = std::move(buff)]() mutable {
+    if (auto this_ = thisw.lock()) {
+      std::shared_ptr<LocalIPCMessage> csMsg =
+          std::make_shared<LocalIPCMessage>();
+      if (csMsg->fromBytes(std::move(buff))) {
+        static_cast<LocalIPCClient *>(this_.get())->onIncomingMessage(csMsg);
+      } else {
+        MAF_LOGGER_ERROR("incoming message is not wellformed");
+      }
     }
   });
 }
-- 
2.43.0


From f9008667f72e5ee5d6568687c7a6dba0f50d6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 51/66] fix: a client that was closed must not be handed out
 again

ClientFactory::close() stopped and ended its clients but kept them, so that
later calls of getServiceRequester() got the dead client.
---
 src/common/maf/messaging/client-server/ClientFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/maf/messaging/client-server/ClientFactory.cpp b/src/common/maf/messaging/client-server/ClientFactory.cpp
index 8d76b25..f3ba918 100644
--- a/src/common/maf/messaging/client-server/ClientFactory.cpp
+++ b/src/common/maf/messaging/client-server/ClientFactory.cpp
@@ -58,6 +58,7 @@ class ClientFactoryImpl {
         client->deinit();
       }
     }
+    _clientMap->clear();
   }
 };
 
-- 
2.43.0


From dedf4600a49a61a1981cf830ee10c4f52da99c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 52/66] fix: a runnable's auto-delete flag has a defined value

---
 include/maf/threading/Runnable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maf/threading/Runnable.h b/include/maf/threading/Runnable.h
index 1726576..26ad003 100644
--- a/include/maf/threading/Runnable.h
+++ b/include/maf/threading/Runnable.h
@@ -12,7 +12,7 @@ public:
   virtual ~Runnable() {}
 
 private:
-  bool _autoDeleted;
+  bool _autoDeleted = false;
 };
 
 inline void run(Runnable *runner) {
-- 
2.43.0


From a4babe32ec410712988f35d42e1c36a01e34e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 53/66] fix: nothing enters a queue after it was closed

---
 include/maf/threading/ThreadSafeQueue.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 0db2efc..3c7176b 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -21,19 +21,25 @@ class ThreadSafeQueue {
   ThreadSafeQueue() : closed_(false) {}
   ~ThreadSafeQueue() { close(); }
   bool empty() { return queue_.atomic()->empty(); }
-  void push(const value_type &data) {
+  // whether the queue is closed is decided under the lock: nothing enters a
+  // queue that was closed and cleared. Returns false if the data was refused
+  bool push(const value_type &data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->push(data);
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
-  void push(value_type &&data) {
+  bool push(value_type &&data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->emplace(std::move(data));
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
 
   template <
@@ -42,14 +48,16 @@ class ThreadSafeQueue {
           std::is_same_v<
               std::void_t<decltype(std::declval<_Sequence>().begin())>, void>,
           bool> = true>
-  void push(const _Sequence &seq) {
+  bool push(const _Sequence &seq) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       for (auto &item : seq) {
         queue_->push(item);
       }
       queueNotEmpty_.notify_all();
+      return true;
     }
+    return false;
   }
   template <class TimePoint>
   bool waitUntil(value_type &value, const TimePoint &absTime) {
-- 
2.43.0


From 6be516326a28c0a427a502a5d508254fc9777b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 54/66] fix: a pool disposes of a task that it refuses

---
 include/maf/threading/ThreadPoolImplBase.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 6392ea2..e373ece 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -46,7 +46,12 @@ public:
     }
   }
 
-  void run(Task task) { _taskQueue.push(std::move(task)); }
+  void run(Task task) {
+    if (!_taskQueue.push(task)) {
+      // refused: dispose of it the way pending tasks are at shutdown
+      _fDone(task);
+    }
+  }
 
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
-- 
2.43.0


From 73412e779c72ee6afb2ddc90cc09ff7030c97a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 55/66] fix: shutdown stops tasks that are about to run

---
 include/maf/threading/ThreadPoolImplBase.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index e373ece..1010285 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -81,9 +81,10 @@ public:
 private:
   // copt = Called On Pool Threads
   void coptRun(Task task) {
-    addToRunningTasks(task);
-    _fRun(task);
-    removeFromRunningTasks(task);
+    if (addToRunningTasks(task)) {
+      _fRun(task);
+      removeFromRunningTasks(task);
+    }
     _fDone(task);
   }
   void coptRunPendingTask() {
@@ -98,14 +99,21 @@ private:
   TaskQueue _taskQueue;
   std::list<Task> _runningTasks;
   std::mutex _runningTaskMutex;
+  bool _stopped = false;
   unsigned int _maxThreadCount;
   TaskExc _fRun;
   TaskExc _fStop;
   TaskExc _fDone;
 
-  void addToRunningTasks(Task task) {
+  // a task that was taken just before the running tasks were stopped must not
+  // run: nobody would stop it
+  bool addToRunningTasks(Task task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    if (_stopped) {
+      return false;
+    }
     _runningTasks.push_back(std::move(task));
+    return true;
   }
   void removeFromRunningTasks(const Task &task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
@@ -119,6 +127,7 @@ private:
   }
   void stopRunningTasks() {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    _stopped = true;
     for (auto &task : _runningTasks) {
       _fStop(task);
     }
-- 
2.43.0


From 78cf6604beb67aec82a8cd33a99002daedf33f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 56/66] fix: threads of a pool are launched one at a time and
 never after shutdown

---
 include/maf/threading/ThreadPoolImplBase.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 1010285..302c8d3 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -36,7 +36,8 @@ public:
   ~ThreadPoolImplBase() { shutdown(); }
 
   void tryLaunchNewThread() {
-    if (_pool.size() < _maxThreadCount) {
+    std::lock_guard<std::mutex> lock(_poolMutex);
+    if (!_taskQueue.isClosed() && _pool.size() < _maxThreadCount) {
       try {
         _pool.emplace_back(
             std::thread{&ThreadPoolImplBase::coptRunPendingTask, this});
@@ -56,6 +57,7 @@ public:
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
   unsigned int activeThreadCount() {
+    std::lock_guard<std::mutex> lock(_poolMutex);
     return static_cast<unsigned int>(_pool.size());
   }
 
@@ -94,13 +96,14 @@ private:
     }
   }
 
+  std::mutex _poolMutex;
   std::vector<std::thread> _pool;
   std::once_flag _shutdowned;
   TaskQueue _taskQueue;
   std::list<Task> _runningTasks;
   std::mutex _runningTaskMutex;
   bool _stopped = false;
-  unsigned int _maxThreadCount;
+  std::atomic<unsigned int> _maxThreadCount;
   TaskExc _fRun;
   TaskExc _fStop;
   TaskExc _fDone;
@@ -134,6 +137,8 @@ private:
   }
 
   void waitForThreadsExited() {
+    // the queue is closed: who gets the lock after this launches nothing
+    { std::lock_guard<std::mutex> lock(_poolMutex); }
     for (auto &th : _pool) {
       if (th.joinable()) {
         th.join();
-- 
2.43.0


From 9e7632c681c18156d380ee947f91c267cbeb1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 57/66] fix: a pending request that is overwritten by move
 assignment is answered

---
 include/maf/messaging/client-server/RequestT.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/RequestT.h b/include/maf/messaging/client-server/RequestT.h
index 7799446..63bc428 100644
--- a/include/maf/messaging/client-server/RequestT.h
+++ b/include/maf/messaging/client-server/RequestT.h
@@ -36,7 +36,11 @@ PTrait::template getOperationID<Output>(),                \
  public:
   RequestT() = default;
   RequestT(RequestT &&) = default;
-  RequestT &operator=(RequestT &&) = default;
+  RequestT &operator=(RequestT &&other) {
+    // the temporary answers what this held until now
+    RequestT{std::move(other)}.delegate_.swap(delegate_);
+    return *this;
+  }
 
   ~RequestT() {
     if (delegate_ && valid()) {
-- 
2.43.0


From 1f275dc411581f7494b71bf2f93da1f7b977e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 58/66] fix: an empty request is not valid instead of crashing

---
 include/maf/messaging/client-server/RequestT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/RequestT.h b/include/maf/messaging/client-server/RequestT.h
index 63bc428..0bc6f85 100644
--- a/include/maf/messaging/client-server/RequestT.h
+++ b/include/maf/messaging/client-server/RequestT.h
@@ -51,7 +51,7 @@ PTrait::template getOperationID<Output>(),                \
   OpCode getOperationCode() const { return delegate_->getOperationCode(); }
   const OpID &getOperationID() const { return delegate_->getOperationID(); }
   RequestID getRequestID() const { return delegate_->getRequestID(); }
-  bool valid() const { return delegate_->valid(); }
+  bool valid() const { return delegate_ && delegate_->valid(); }
 
   void onAborted(AbortRequestCallback abortCallback,
                  util::ExecutorIFPtr executor) {
-- 
2.43.0


From 6998a471ac743486f6c29e585ea32e2662d39373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 59/66] fix: a request is answered when the executor refuses
 its handler

---
 include/maf/messaging/client-server/BasicStub.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/maf/messaging/client-server/BasicStub.h b/include/maf/messaging/client-server/BasicStub.h
index 0deadb1..46c115c 100644
--- a/include/maf/messaging/client-server/BasicStub.h
+++ b/include/maf/messaging/client-server/BasicStub.h
@@ -214,10 +214,16 @@ bool BasicStub<PTrait>::registerRequestHandler(
     auto requestHandler =
         [handlerFunction = std::move(handlerFunction), executor = executor_](
             const std::shared_ptr<RequestIF> &request) mutable {
-          executor->execute([request = request,
-                             callback = std::move(handlerFunction)]() mutable {
-            callback(Request<RequestOrInput>{std::move(request)});
-          });
+          auto accepted = executor->execute(
+              [request = request,
+               callback = std::move(handlerFunction)]() mutable {
+                callback(Request<RequestOrInput>{std::move(request)});
+              });
+          if (!accepted) {
+            request->respond(std::make_shared<CSError>(
+                "Executor of request handler is unavailable",
+                CSErrorCode::HandlerUnavailable));
+          }
         };
 
     return provider_->registerRequestHandler(
-- 
2.43.0


From c5676d345d65b4c0fb7ef467b221937deb7a0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 60/66] fix: operation id of a message, inverted null check

---
 include/maf/messaging/client-server/ParamTraitBase.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/messaging/client-server/ParamTraitBase.h b/include/maf/messaging/client-server/ParamTraitBase.h
index 4290466..7674b5f 100644
--- a/include/maf/messaging/client-server/ParamTraitBase.h
+++ b/include/maf/messaging/client-server/ParamTraitBase.h
@@ -37,9 +37,9 @@ struct ParamTraitBase {
   template <class Message>
   static OpID getOperationID(const Message* msg) {
     if (msg) {
-      return OpIDInvalid;
-    } else {
       return msg->operationID();
+    } else {
+      return OpIDInvalid;
     }
   }
 
-- 
2.43.0


From dab14a443c22b9901df7ca09b37a97dbec252451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 61/66] fix: refused registration of a void signal tells its
 call status

---
 include/maf/messaging/client-server/BasicProxy.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/maf/messaging/client-server/BasicProxy.h b/include/maf/messaging/client-server/BasicProxy.h
index df4dc15..12468fe 100644
--- a/include/maf/messaging/client-server/BasicProxy.h
+++ b/include/maf/messaging/client-server/BasicProxy.h
@@ -388,6 +388,7 @@ RegID BasicProxy<PTrait>::registerSignal(
                      "] failed, Please provide non-empty callback");
   }
 
+  util::assign_ptr(callStatus, ActionCallStatus::InvalidParam);
   return {};
 }
 
-- 
2.43.0


From 27a5a781ec41241103e3bdc0cb55322f955a61e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:27 +0000
Subject: [PATCH 62/66] fix: SyncTimer::running() reads a flag other threads
 write

running() takes no lock, so the flag has to be atomic.
---
 src/common/maf/messaging/SyncTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 0d492b8..836b3e7 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -14,7 +14,7 @@ namespace messaging {
 struct SyncTimerDataPrv {
   std::condition_variable_any timeoutCondition;
   std::recursive_mutex mutex;
-  bool running = false;
+  std::atomic_bool running = false;
   bool cyclic = false;
 };
 
-- 
2.43.0


From 02fe25d169e0422a70c4912e9973adacfb3bddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:27 +0000
Subject: [PATCH 63/66] fix: a timer made cyclic by its callback kept no
 callback

The callback was moved to the executor while the timer was not cyclic;
when the callback itself made it cyclic, every later round executed an
empty function.
---
 src/common/maf/messaging/SyncTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 836b3e7..ededd31 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -48,7 +48,7 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
       if (!d_->timeoutCondition.wait_for(lock, milliseconds,
                                          [this] { return !d_->running; })) {
         if (executor) {
-          executor->execute(d_->cyclic ? callback : std::move(callback));
+          executor->execute(callback);
         } else {
           callback();
         }
-- 
2.43.0


From ab3be99e21aa90979b1606087ab9e784d043beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:27 +0000
Subject: [PATCH 64/66] fix: a timer started again by another thread lost the
 new run

The replaced run saw running true again when it woke up, fired its own
callback, and cleared running, so that the new run never fired. Every
run now knows whether it is still the current one.
---
 src/common/maf/messaging/SyncTimer.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index ededd31..17473cf 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -16,6 +16,7 @@ struct SyncTimerDataPrv {
   std::recursive_mutex mutex;
   std::atomic_bool running = false;
   bool cyclic = false;
+  unsigned long long starts = 0;  // tells a run that it has been replaced
 };
 
 SyncTimer::SyncTimer(bool cyclic)
@@ -36,17 +37,20 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
   if (!callback) {
     MAF_LOGGER_ERROR("[TimerImpl]: Please specify not null callback");
   } else {
+    std::unique_lock lock(d_->mutex);
     if (running()) {
       MAF_LOGGER_INFO("TimerImpl is still running, then stop!");
       stop();
     }
 
-    std::unique_lock lock(d_->mutex);
     d_->running = true;
+    const auto thisStart = ++d_->starts;
+    auto ended = [this, thisStart] {
+      return !d_->running || d_->starts != thisStart;
+    };
 
     do {
-      if (!d_->timeoutCondition.wait_for(lock, milliseconds,
-                                         [this] { return !d_->running; })) {
+      if (!d_->timeoutCondition.wait_for(lock, milliseconds, ended)) {
         if (executor) {
           executor->execute(callback);
         } else {
@@ -54,9 +58,9 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
         }
       }
 
-      if (!d_->running)  // restarted
+      if (ended())  // stopped, or started again by someone else
       {
-        break;
+        return;
       }
 
     } while (d_->cyclic);
-- 
2.43.0


From 331487ae03486cefe9f6aa741defe7f4113497c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:21 +0000
Subject: [PATCH 65/66] fix: enabling a log level keeps the other levels and
 enables it

---
 src/common/maf/logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/logging/Logger.cpp b/src/common/maf/logging/Logger.cpp
index 2aa992c..66528cc 100644
--- a/src/common/maf/logging/Logger.cpp
+++ b/src/common/maf/logging/Logger.cpp
@@ -43,7 +43,7 @@ bool allowed(LogLevel level) {
   return statics().allowedLevels.load(std::memory_order_relaxed) & level;
 }
 
-void enable(LogLevel level) { statics().allowedLevels &= level; }
+void enable(LogLevel level) { statics().allowedLevels |= level; }
 
 void disable(LogLevel level) { statics().allowedLevels &= ~level; }
 
-- 
2.43.0


From 5fec83b0f5274919b92dd14d3aa49ff519cfa97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:59 +0000
Subject: [PATCH 66/66] fix: several values can be read in one call
 (deserializeBatch did not compile)

---
 include/maf/utils/serialization/Serializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index c108363..e693337 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -443,7 +443,8 @@ void serializeBatch(OStream &os, const Ts &...ts) {
 
 template <class IStream, typename... Ts>
 bool deserializeBatch(IStream &is, Ts &...ts) {
-  return deserialize(is, std::tie(ts...));
+  auto values = std::tie(ts...);
+  return deserialize(is, values);
 }
 
 template <class OStream>
-- 
2.43.0

