From 26bd0434a0c346c28e06f6220401d55bfdd707ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 01/40] fix: consume each line of the authentication handshake
 once

---
 src/dbus_auth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 21e9f5a..eb1b186 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -70,8 +70,8 @@ bool DBus::AuthenticationProtocol::processData()
     const size_t pos = m_data.find("\r\n");
     if (pos != std::string::npos) {
         std::string command(m_data.data(), pos + 2);
-        return onCommand(command);
         m_data = m_data.substr(pos + 2);
+        return onCommand(command);
     };
 
     return false;
-- 
2.43.0


From 66c1cec438de93cc19bd0760242631c4dd4e7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 02/40] fix: align doubles when unmarshalling them

---
 src/dbus_messageistream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9b2c48f..9103196 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -67,6 +67,7 @@ void MessageIStream::read(uint8_t* value, size_t size)
 void MessageIStream::read(double* value)
 {
     uint8_t bytes[sizeof(double)];
+    align(sizeof(double));
     read(bytes, sizeof(double));
     if (m_swapByteOrder)
         std::reverse(std::begin(bytes), std::end(bytes));
-- 
2.43.0


From 171b6bb17b941ea7f90eca9f5b4375514d7c6c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 03/40] fix: variants have an alignment of 1

---
 src/dbus_type_variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_variant.h b/src/dbus_type_variant.h
index 343c288..4357c60 100644
--- a/src/dbus_type_variant.h
+++ b/src/dbus_type_variant.h
@@ -38,7 +38,7 @@ namespace Type {
         Variant(const DBus::Type::Uint32& v);
         Variant(const DBus::Type::Signature& v);
 
-        size_t getAlignment() const { return 8; }
+        size_t getAlignment() const { return 1; }
         void marshall(MessageOStream& stream) const;
         void unmarshall(MessageIStream& stream);
 
-- 
2.43.0


From 89081592606425141a1d06733ddc762ad64c723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 04/40] fix: accept serials and sizes above 2^31

---
 src/dbus_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index ae8c90f..94f6a56 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -47,7 +47,7 @@ uint8_t DBus::Type::asByte(const Generic& v)
 
 uint32_t DBus::Type::asUint32(const Generic& v)
 {
-    return std::stoi(Type::asString(v));
+    return std::stoul(Type::asString(v));
 }
 
 // Generate a compact, machine-friendly, version of the data.
-- 
2.43.0


From 3a37117e584ba7c79edb2e4b17d28d7ef61208a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/40] fix: initialise the message header

---
 src/dbus_message.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 1c5e865..00f11c6 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -115,10 +115,10 @@ namespace Message {
             HEADER_FIELD_COUNT // = HEADER_UNIX_FDS+1
         } HeaderFields;
 
-        uint8_t flags;
-        uint8_t type;
-        uint32_t serial;
-        uint32_t replySerial;
+        uint8_t flags = 0;
+        uint8_t type = TYPE_INVALID;
+        uint32_t serial = 0;
+        uint32_t replySerial = 0;
 
         std::string path;
         std::string interface;
-- 
2.43.0


From c497e59f78096f4a1e3891cb9c717866fef75aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 06/40] fix: expose the text of received errors, and accept
 errors without one

---
 src/dbus_message_error.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 211c5a2..31588da 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -44,17 +44,10 @@ DBus::Message::Error::Error(const DBus::Type::Struct& header,
     const std::string& body)
     : Message::Base(header, body)
 {
-    const bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;
-
-    DBus::Type::Struct dest;
-    dest.setSignature("(s)");
-
-    MessageIStream stream((uint8_t*)body.data(), body.size(),
-        isLittleEndian ? __BYTE_ORDER != __LITTLE_ENDIAN
-                       : __BYTE_ORDER != __BIG_ENDIAN);
-    dest.unmarshall(stream);
-
-    const std::string m_Message = DBus::Type::asString(dest[0]);
+    // The error text is optional: it is the first argument, if that is a string
+    if (getParameterCount() && getParameter(0).type() == typeid(DBus::Type::String)) {
+        m_Message = DBus::Type::asString(getParameter(0));
+    }
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::WARNING,
-- 
2.43.0


From 533cc563a8297bc4a57c6153a10fc4e1f63adcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/40] fix: keep the flags of received method calls and
 returns

---
 src/dbus_message_methodcall.cpp   | 1 -
 src/dbus_message_methodreturn.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 8f4408a..0919db3 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -31,7 +31,6 @@ DBus::Message::MethodCall::MethodCall(const DBus::Type::Struct& header,
     : Message::Base(header, body)
     , m_Name(m_Header.path, m_Header.interface, m_Header.member)
 {
-    m_Header.flags = 0;
     m_Header.type = Message::Header::TYPE_METHOD_CALL;
 }
 
diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index a30b3af..54b6868 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -39,7 +39,6 @@ DBus::Message::MethodReturn::MethodReturn(const DBus::Type::Struct& header,
     : Message::Base(header, body)
 {
 
-    m_Header.flags = 0;
     m_Header.type = Message::Header::TYPE_METHOD_RETURN;
     m_SerialReplyingTo = getReplySerial();
 
-- 
2.43.0


From e8b1c2ad15a35796348e77474e9306936dc4f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 08/40] fix: refuse incomplete, unbalanced and unknown type
 signatures

---
 src/dbus_type.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 94f6a56..3ed02f4 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -36,6 +36,7 @@
 #include "dbus_type_uint32.h"
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
+#include <stdexcept>
 
 //
 // Helper methods to extract navtive types from the opaque 'Generic' type
@@ -149,7 +150,7 @@ DBus::Type::Generic DBus::Type::create(const std::string& type)
     Log::write(DBus::Log::ERROR,
         "DBus :: Can not create a signature type of (%s)\n", type.c_str());
 
-    return Type::Generic();
+    throw std::runtime_error("Invalid type signature: " + type);
 }
 
 std::string
@@ -360,6 +361,10 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
 {
     std::string result;
 
+    if (idx >= declaration.size()) {
+        throw std::runtime_error("Incomplete type signature: " + declaration);
+    }
+
     // Handle arrays
     if (declaration[idx] == '(') {
         // Find the matching bracket, and skip all internal signatures
@@ -378,6 +383,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched brackets in the array signature.");
+        throw std::runtime_error("Invalid type signature: " + declaration);
     }
     // Handle dictentry
     else if (declaration[idx] == '{') {
@@ -402,6 +408,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched braces in the dictentry signature.");
+        throw std::runtime_error("Invalid type signature: " + declaration);
     }
 
     result += declaration[idx];
-- 
2.43.0


From 12e8d32b2d46e16fe25b68e0f0427f111f212f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 09/40] fix: limit the nesting depth of unmarshalled values

---
 src/dbus_messageistream.cpp | 14 ++++++++++++++
 src/dbus_messageistream.h   | 11 +++++++++++
 src/dbus_type.cpp           |  1 +
 3 files changed, 26 insertions(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9103196..eb76a57 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -28,6 +28,7 @@ MessageIStream::MessageIStream(const uint8_t* data, size_t size,
     : m_data(data, size)
     , m_offset(0)
     , m_swapByteOrder(swapByteOrder)
+    , m_depth(0)
 {
 }
 
@@ -35,6 +36,7 @@ MessageIStream::MessageIStream(MessageIStream& stream, size_t size)
     : m_data(stream.m_data.data(), size)
     , m_offset(stream.m_offset)
     , m_swapByteOrder(stream.m_swapByteOrder)
+    , m_depth(stream.m_depth)
 {
     stream.m_data.remove_prefix(size);
     stream.m_offset += size;
@@ -88,4 +90,16 @@ void MessageIStream::read(std::string& string, size_t size)
 
 bool MessageIStream::empty() { return m_data.empty(); }
 
+MessageIStream::NestingGuard::NestingGuard(MessageIStream& stream)
+    : m_stream(stream)
+{
+    static const size_t MAX_DEPTH = 128;
+    if (m_stream.m_depth >= MAX_DEPTH) {
+        throw std::runtime_error("DBus message error: Values are nested too deeply");
+    }
+    ++m_stream.m_depth;
+}
+
+MessageIStream::NestingGuard::~NestingGuard() { --m_stream.m_depth; }
+
 } // namespace DBus
diff --git a/src/dbus_messageistream.h b/src/dbus_messageistream.h
index eadaa79..74d26f2 100644
--- a/src/dbus_messageistream.h
+++ b/src/dbus_messageistream.h
@@ -28,6 +28,7 @@ class MessageIStream {
     OctetBuffer m_data;
     size_t m_offset;
     bool m_swapByteOrder;
+    size_t m_depth;
 
     template <class T>
     T swap(T value) const
@@ -53,6 +54,16 @@ public:
     MessageIStream(MessageIStream& stream, size_t size);
     bool empty();
 
+    // Values may only be nested to a limited depth. (The specification permits
+    // 64 levels of containers)
+    class NestingGuard {
+        MessageIStream& m_stream;
+
+    public:
+        NestingGuard(MessageIStream& stream);
+        ~NestingGuard();
+    };
+
     void align(size_t alignment);
     uint8_t read();
     void read(uint8_t* value, size_t size);
diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 3ed02f4..4b42bf4 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -260,6 +260,7 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
         return;                                           \
     }
 
+    MessageIStream::NestingGuard guard(stream);
     std::string type = getMarshallingSignature(result);
 
     TYPE_UNMARSHALL_DATA(Type::Byte);
-- 
2.43.0


From c82a3d777748035787d89b024f3f60ca32904f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 10/40] fix: forget cached data when the message protocol is
 reset

---
 src/dbus_messageprotocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index c4ebdb1..2a892bf 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -68,7 +68,11 @@ DBus::MessageProtocol::MessageProtocol()
     reset();
 }
 
-void DBus::MessageProtocol::reset() { startMessage(); }
+void DBus::MessageProtocol::reset()
+{
+    m_octetCache.clear();
+    startMessage();
+}
 
 void DBus::MessageProtocol::setMethodCallHandler(
     const DBus::Message::CallbackFunctionMethodCall& callback)
-- 
2.43.0


From 58ba1a98050e4be31fde60cc02b3cf5c67be90b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 11/40] fix: refuse malformed match rules

---
 src/dbus_matchrule.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 38c828e..e3b0f77 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -15,10 +15,8 @@
 // file named COPYING. If you do not have this file see
 // <http://www.gnu.org/licenses/>.
 
-#include <algorithm>
-#include <boost/algorithm/string.hpp>
 #include <boost/thread/recursive_mutex.hpp>
-#include <boost/tokenizer.hpp>
+#include <stdexcept>
 
 #include "dbus_log.h"
 #include "dbus_matchrule.h"
@@ -31,21 +29,29 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 {
     // Parse the rule string into something programmatic
 
-    // 1. Split by the comma
-    boost::char_separator<char> separator { "," };
-    boost::tokenizer<boost::char_separator<char>> tokenizer { rule, separator };
-    for (auto&& param : tokenizer) {
-        // 2. Then split each at the equals
-        std::vector<std::string> keyvalue;
-        boost::split(keyvalue, param, boost::is_any_of("="));
+    size_t pos = 0;
+    while (pos < rule.size()) {
+        // 1. Split by the comma
+        if (rule[pos] == ',') {
+            ++pos;
+            continue;
+        }
 
+        // 2. Then split each at the equals, and the single quotes around the value.
         // Valid keys are: type, sender, interface, member, path, path_namespace,
-        // destination, arg*, eavesdrop We're happy for [] to throw on malformed
-        // rules, since that's watch we'd do anyway in this case
+        // destination, arg*, eavesdrop
+        const size_t equals = rule.find("='", pos);
+        const size_t quote = equals == std::string::npos ? equals : rule.find('\'', equals + 2);
+        if (quote == std::string::npos || (quote + 1 < rule.size() && rule[quote + 1] != ',')) {
+            throw std::runtime_error("Malformed match rule: " + rule);
+        }
 
-        // 3. Strip the single quotes from the value
-        keyvalue[1].pop_back();
-        keyvalue[1].erase(0, 1);
+        const std::string keyvalue[2] = { rule.substr(pos, equals - pos),
+            rule.substr(equals + 2, quote - equals - 2) };
+        if (keyvalue[0].empty() || keyvalue[0].find_first_of(",='") != std::string::npos) {
+            throw std::runtime_error("Malformed match rule: " + rule);
+        }
+        pos = quote + 1;
 
         // We store it somewhere convenient to speed the isMateched checks
         if (keyvalue[0] == "type") {
-- 
2.43.0


From 4c399d04e3c2bea6a06f2411cca8f2227214dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 12/40] fix: match rules of other types don't match signals

---
 src/dbus_matchrule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index e3b0f77..bcc6fb7 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -87,6 +87,10 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
 {
     // These checks are AND, so all set parameters must agree
+    if (type != "" && type != "signal") {
+        return false;
+    }
+
     if (sender != "" && sender != signal.getHeaderSender()) {
         return false;
     }
-- 
2.43.0


From fada16a3d2362710bde98ec6fd6ce3ce3836a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 13/40] fix: path_namespace matches the path itself, and /
 matches every path

---
 src/dbus_matchrule.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index bcc6fb7..65cec0c 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -115,7 +115,7 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
     // For example, path_namespace='/com/example/foo' would match signals sent
     // by /com/example/foo or by /com/example/foo/bar, but not by
     // /com/example/foobar.
-    if (path_namespace != "") {
+    if (path_namespace != "" && path_namespace != "/") {
         if (signal_path.find(path_namespace) != 0) {
             return false;
         }
@@ -123,8 +123,7 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
         // This handles the 3rd case, by checking the character _after_ the match is
         // found: if it's not the terminator or another path (i.e. a new /) the
         // search fails.
-        auto next_char = signal_path.at(path_namespace.size());
-        if (next_char != '\0' && next_char != '/') {
+        if (signal_path.size() > path_namespace.size() && signal_path[path_namespace.size()] != '/') {
             return false;
         }
     }
-- 
2.43.0


From a8724b39cce19bef69b752a4dccfff64a945449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 14/40] fix: permit handlers to unregister themselves and to
 change the match rules

---
 src/dbus_native.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index acca103..006a4c6 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -187,7 +187,9 @@ void DBus::Native::onReceiveMethodCall(
     auto it = m_MethodCallMap.find(method.getFullName());
 
     if (it != m_MethodCallMap.end()) {
-        it->second(method);
+        // The handler may unregister itself, so invoke a copy
+        const Message::CallbackFunctionMethodCall handler(it->second);
+        handler(method);
     }
 }
 
@@ -226,14 +228,26 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
-        it->second(signal);
+        // The handler may unregister itself, so invoke a copy
+        const Message::CallbackFunctionSignal handler(it->second);
+        handler(signal);
     }
 
     {
         boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
-        for (auto it : m_RulesMap) {
+        // The handlers may add and remove rules, so don't iterate over the map
+        // while invoking them
+        std::vector<std::string> matched;
+        for (auto& it : m_RulesMap) {
             if (it.second.isMatched(signal)) {
-                it.second.invoke(signal);
+                matched.push_back(it.first);
+            }
+        }
+        for (const auto& rule : matched) {
+            auto it = m_RulesMap.find(rule);
+            if (it != m_RulesMap.end()) {
+                MatchRule copy(it->second);
+                copy.invoke(signal);
             }
         }
     }
-- 
2.43.0


From 7b1f84348bc650742e3979f22dc30fa62fd83474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 15/40] fix: forget a method call before invoking its callback

---
 src/dbus_native.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 006a4c6..179830c 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -201,8 +201,10 @@ void DBus::Native::onReceiveMethodReturn(
     ++m_Stats.count_receive_methodreturns;
 
     if (it != m_MessageQueue.end()) {
-        it->second.success(result);
+        // Forget the call first, as the callback may throw
+        const CallbackPair callbacks(it->second);
         m_MessageQueue.erase(it);
+        callbacks.success(result);
     }
 }
 
@@ -212,8 +214,10 @@ void DBus::Native::onReceiveError(const DBus::Message::Error& error)
     auto it = m_MessageQueue.find(error.getSerialOfReply());
 
     if (it != m_MessageQueue.end()) {
-        it->second.failure(error);
+        // Forget the call first, as the callback may throw
+        const CallbackPair callbacks(it->second);
         m_MessageQueue.erase(it);
+        callbacks.failure(error);
     }
     DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
         error.getMessage().c_str());
-- 
2.43.0


From 222ba960fb13cb5ef46fbe87501a2200b2ebb6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 16/40] fix: a throwing signal handler doesn't hide the signal
 from the others

---
 src/dbus_native.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 179830c..e165b65 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -234,7 +234,12 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     if (it != m_SignalMap.end()) {
         // The handler may unregister itself, so invoke a copy
         const Message::CallbackFunctionSignal handler(it->second);
-        handler(signal);
+        try {
+            handler(signal);
+        } catch (...) {
+            // The other handlers must still see the signal
+            DBus::Log::write(DBus::Log::INFO, "DBus :: Signal handler has thrown an exception\n");
+        }
     }
 
     {
@@ -251,7 +256,11 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
             auto it = m_RulesMap.find(rule);
             if (it != m_RulesMap.end()) {
                 MatchRule copy(it->second);
-                copy.invoke(signal);
+                try {
+                    copy.invoke(signal);
+                } catch (...) {
+                    DBus::Log::write(DBus::Log::INFO, "DBus :: Signal handler has thrown an exception\n");
+                }
             }
         }
     }
-- 
2.43.0


From 2cce760ee6be1666fd7e40f72ff05988f61e1af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 17/40] fix: write one message at a time to the socket

---
 src/dbus_transport.cpp | 31 ++++++++++++++++++++++++++-----
 src/dbus_transport.h   |  4 ++++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c5b8334..245481d 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -142,9 +142,7 @@ void DBus::Transport::sendOctetDirect(uint8_t data)
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
     std::shared_ptr<std::string> buf(new std::string());
     buf.get()->push_back(static_cast<char>(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    queueWrite(buf);
 }
 
 void DBus::Transport::sendStringDirect(const std::string& data)
@@ -155,11 +153,28 @@ void DBus::Transport::sendStringDirect(const std::string& data)
 
     // We don't know when the write will complete, so we copy the buffer
     std::shared_ptr<std::string> buf(new std::string(data));
+    queueWrite(buf);
+    ++m_Stats.count_messagessent;
+    m_Stats.bytes_sent += data.length();
+}
+
+void DBus::Transport::queueWrite(const std::shared_ptr<std::string>& buf)
+{
+    // An async_write may need several socket writes, so there must only be one
+    // of them at a time
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    m_WriteQueue.push_back(buf);
+    if (m_WriteQueue.size() == 1) {
+        startWrite();
+    }
+}
+
+void DBus::Transport::startWrite()
+{
+    std::shared_ptr<std::string> buf(m_WriteQueue.front());
     boost::asio::async_write(
         m_socket, boost::asio::buffer(*buf.get()),
         boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
-    ++m_Stats.count_messagessent;
-    m_Stats.bytes_sent += data.length();
 }
 
 void DBus::Transport::handle_write_output(
@@ -171,6 +186,12 @@ void DBus::Transport::handle_write_output(
         DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in async_write : %s\n",
             error.message().c_str());
     }
+
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    m_WriteQueue.pop_front();
+    if (!m_WriteQueue.empty()) {
+        startWrite();
+    }
 }
 
 void DBus::Transport::setDataHandler(
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 130d75f..a9dc567 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -21,6 +21,7 @@
 #include "dbus_octetbuffer.h"
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
+#include <deque>
 
 #define USE_ASIO_NORMAL 1
 #define USE_ASIO_ACCESSOR 0
@@ -57,6 +58,8 @@ protected:
         // buffering
     void sendOctetDirect(uint8_t data);
     void sendStringDirect(const std::string& data);
+    void queueWrite(const std::shared_ptr<std::string>& buf);
+    void startWrite();
 
     std::string m_Busname;
     bool m_ReadyToSend;
@@ -70,6 +73,7 @@ protected:
     mutable boost::recursive_mutex m_SendMutex;
     mutable boost::recursive_mutex m_CallbackMutex;
     std::vector<std::string> m_BufferedMessages;
+    std::deque<std::shared_ptr<std::string>> m_WriteQueue;
     std::atomic<bool> m_ShuttingDown;
 
     boost::thread m_io_context_thread;
-- 
2.43.0


From 56ab93709e3d58b3825954d2ec50bf07315405d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 18/40] fix: keep writing after the peer has shut down its
 sending side

---
 src/dbus_transport.cpp | 2 ++
 src/dbus_transport.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 245481d..0311f3e 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -25,6 +25,7 @@ using namespace std::chrono_literals;
 DBus::Transport::Transport(const std::string& path)
     : m_Busname(path)
     , m_ReadyToSend(false)
+    , m_Work(boost::asio::make_work_guard(m_io_context))
     , m_socket(m_io_context)
     , m_ShuttingDown(false)
 {
@@ -95,6 +96,7 @@ DBus::Transport::~Transport()
     }
 
     // Wait for pending async_writes to complete
+    m_Work.reset();
     if (!m_io_context_thread.try_join_for(boost::chrono::seconds(30))) {
         DBus::Log::write(DBus::Log::ERROR,
             "DBus :: Transport :: IO service thread cannot join\n");
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index a9dc567..6438dd2 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -64,6 +64,8 @@ protected:
     std::string m_Busname;
     bool m_ReadyToSend;
     boost::asio::io_context m_io_context;
+    // Writes may continue when the peer has closed its side of the connection
+    boost::asio::executor_work_guard<boost::asio::io_context::executor_type> m_Work;
     boost::asio::local::stream_protocol::socket m_socket;
 
     const static size_t BufferSize = 1024;
-- 
2.43.0


From 2bfd2b973ab92c0f2363b148e64494ef34e3bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 19/40] fix: count statistics atomically

---
 src/dbus_native.h    | 21 +++++++++++----------
 src/dbus_transport.h | 11 ++++++-----
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/dbus_native.h b/src/dbus_native.h
index 61cdb8f..8f7e495 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -23,6 +23,7 @@
 #include "dbus_message.h"
 #include "dbus_messageprotocol.h"
 #include "dbus_transport.h"
+#include <atomic>
 
 namespace DBus {
 
@@ -137,16 +138,16 @@ private:
     };
 
     struct Stats {
-        size_t bytes_auth = 0;
-        size_t bytes_message = 0;
-        size_t count_sent_methodcalls = 0;
-        size_t count_sent_methodreturns = 0;
-        size_t count_sent_errors = 0;
-        size_t count_sent_signals = 0;
-        size_t count_receive_methodcalls = 0;
-        size_t count_receive_methodreturns = 0;
-        size_t count_receive_errors = 0;
-        size_t count_receive_signals = 0;
+        std::atomic<size_t> bytes_auth{0};
+        std::atomic<size_t> bytes_message{0};
+        std::atomic<size_t> count_sent_methodcalls{0};
+        std::atomic<size_t> count_sent_methodreturns{0};
+        std::atomic<size_t> count_sent_errors{0};
+        std::atomic<size_t> count_sent_signals{0};
+        std::atomic<size_t> count_receive_methodcalls{0};
+        std::atomic<size_t> count_receive_methodreturns{0};
+        std::atomic<size_t> count_receive_errors{0};
+        std::atomic<size_t> count_receive_signals{0};
     } m_Stats;
 
     mutable boost::recursive_mutex m_MessageQueueMutex;
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 6438dd2..91dd435 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -19,6 +19,7 @@
 #define DBUS_TRANSPORT_H
 
 #include "dbus_octetbuffer.h"
+#include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
 #include <deque>
@@ -82,11 +83,11 @@ protected:
 
 private:
     struct Stats {
-        size_t count_messagessent = 0;
-        size_t count_messagesqueued = 0;
-        size_t count_messagespumped = 0;
-        size_t bytes_sent = 0;
-        size_t bytes_read = 0;
+        std::atomic<size_t> count_messagessent{0};
+        std::atomic<size_t> count_messagesqueued{0};
+        std::atomic<size_t> count_messagespumped{0};
+        std::atomic<size_t> bytes_sent{0};
+        std::atomic<size_t> bytes_read{0};
     } m_Stats;
 };
 } // namespace DBus
-- 
2.43.0


From 1dea07126b1c56f422ea0cc17345f603ade0d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 20/40] fix: count received errors

---
 src/dbus_native.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index e165b65..efbf990 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -212,6 +212,7 @@ void DBus::Native::onReceiveError(const DBus::Message::Error& error)
 {
     boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
     auto it = m_MessageQueue.find(error.getSerialOfReply());
+    ++m_Stats.count_receive_errors;
 
     if (it != m_MessageQueue.end()) {
         // Forget the call first, as the callback may throw
-- 
2.43.0


From 2ec182face3af8a91af5370182b7b5e4a2f8bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 21/40] fix: count the bytes read by the transport

---
 src/dbus_transport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 0311f3e..c88050e 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -52,6 +52,7 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
     std::size_t bytes_transferred)
 {
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
+    m_Stats.bytes_read += bytes_transferred;
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
     m_ReceiveDataCallback(buffer);
 
-- 
2.43.0


From c595c625a7311f07522abe99faa4838cb2e17790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 22/40] fix: count all bytes received during authentication

---
 src/dbus_native.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index efbf990..4c0ee75 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -62,8 +62,9 @@ void DBus::Native::onReceiveAuthData(OctetBuffer& buffer)
 {
     try {
         const size_t bufferSize = buffer.size();
-        if (m_AuthenticationProtocol->onReceiveData(buffer)) {
-            m_Stats.bytes_auth = bufferSize - buffer.size();
+        const bool authenticated = m_AuthenticationProtocol->onReceiveData(buffer);
+        m_Stats.bytes_auth += bufferSize - buffer.size();
+        if (authenticated) {
             onReceiveMessageData(buffer);
             m_Transport->setDataHandler(std::bind(&Native::onReceiveMessageData, this,
                 std::placeholders::_1));
-- 
2.43.0


From 58cd5de94153fde614c272c20f10c82e1dc6e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 23/40] fix: introspect complete types of signals

---
 src/dbus_introspectable.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbus_introspectable.cpp b/src/dbus_introspectable.cpp
index b48f080..d933e3e 100644
--- a/src/dbus_introspectable.cpp
+++ b/src/dbus_introspectable.cpp
@@ -142,10 +142,11 @@ std::string DBus::Introspectable::Signal::serialize() const
     std::string result;
 
     result += "<signal name='" + m_Name + "'>";
-    for (auto type : m_Type) {
-        result += "<arg type='";
-        result += type;
-        result += "'/>";
+    size_t idx = 0;
+    while (idx < m_Type.size()) {
+        std::string sig(DBus::Type::extractSignature(m_Type, idx));
+        result += "<arg type='" + sig + "'/>";
+        idx += sig.size();
     }
     result += "</signal>";
 
-- 
2.43.0


From b03ad5616e0c53b5c8ccb215a1517a9aca0b806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 24/40] fix: strip the guid from unix:path addresses

---
 src/dbus_platform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbus_platform.cpp b/src/dbus_platform.cpp
index 3f01c58..85e1904 100644
--- a/src/dbus_platform.cpp
+++ b/src/dbus_platform.cpp
@@ -43,7 +43,8 @@ std::string getPath(const char* bus)
 {
     std::string path(bus);
     if (path.find(UNIX_PATH_PREFIX) == 0) {
-        return path.substr(UNIX_PATH_PREFIX.size());
+        path = path.substr(UNIX_PATH_PREFIX.size());
+        return path.substr(0, path.find(",guid="));
     } else {
         return getAbstractPath(bus);
     }
-- 
2.43.0


From 04edb4952f2ffcce9b22e4d58a976d419727fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 25/40] fix: skip zero when the serial counter wraps

---
 src/dbus_message.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 425264f..ad6b86c 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -36,6 +36,10 @@ DBus::Message::Base::Base(uint32_t serial)
 {
     boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
     m_Header.serial = serial ? serial : m_SerialCounter++;
+    if (m_SerialCounter == 0) {
+        // The counter has wrapped, and zero is not a valid serial
+        m_SerialCounter = 1;
+    }
 }
 
 DBus::Message::Base::Base(const DBus::Type::Struct& header,
-- 
2.43.0


From adc65f47798a9bcac54bd065bb2112ff04f85068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 26/40] fix: only complete the authentication in reply to our
 own commands

---
 src/dbus_auth.cpp | 12 ++++++++++++
 src/dbus_auth.h   |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index eb1b186..cd4c07d 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -56,6 +56,7 @@ void DBus::AuthenticationProtocol::sendAuth(
     {
         boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
         m_AuthType = type;
+        m_Expected = EXPECT_OK;
     }
 
     std::string auth("AUTH EXTERNAL ");
@@ -105,9 +106,13 @@ bool DBus::AuthenticationProtocol::onOK(
 
     {
         boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+        if (m_Expected != EXPECT_OK) {
+            return false;
+        }
         if (m_AuthType == AUTH_BASIC) {
             send_begin = true;
         }
+        m_Expected = send_begin ? EXPECT_NOTHING : EXPECT_AGREE;
     }
 
     if (send_begin) {
@@ -140,6 +145,13 @@ bool DBus::AuthenticationProtocol::onRejected(
 bool DBus::AuthenticationProtocol::onAgreeUnixFD()
 {
     DBus::Log::write(DBus::Log::INFO, "DBus :: onAgreeUnixFD\n");
+    {
+        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+        if (m_Expected != EXPECT_AGREE) {
+            return false;
+        }
+        m_Expected = EXPECT_NOTHING;
+    }
     sendBegin();
     return true;
 }
diff --git a/src/dbus_auth.h b/src/dbus_auth.h
index ada3b41..b7ec6bd 100644
--- a/src/dbus_auth.h
+++ b/src/dbus_auth.h
@@ -60,7 +60,11 @@ protected:
 
 private:
     std::string m_data;
-    AuthenticationProtocol::AuthRequired m_AuthType;
+    AuthenticationProtocol::AuthRequired m_AuthType = AUTH_BASIC;
+    enum { EXPECT_NOTHING,
+        EXPECT_OK,
+        EXPECT_AGREE } m_Expected
+        = EXPECT_NOTHING;
     mutable boost::recursive_mutex m_AuthTypeMutex;
     std::shared_ptr<Transport> m_Transport;
 };
-- 
2.43.0


From 6a414c05d0c6e06e70ccf639ec9969d804e5d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 27/40] fix: compare whole words of authentication commands

---
 src/dbus_auth.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index cd4c07d..c2f80a2 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -227,8 +227,10 @@ bool DBus::AuthenticationProtocol::onCommand(const std::string& command)
                 std::bind(&DBus::AuthenticationProtocol::onCancel, this))
         };
 
+    const std::string line(command, 0, command.size() - 2); // without the \r\n
+    const std::string word(line, 0, line.find(' '));
     for (size_t i = 0; i < 8; ++i) {
-        if (command.substr(0, strlen(callback_list[i].first)) == callback_list[i].first) {
+        if (word == callback_list[i].first) {
             return callback_list[i].second(
                 command.substr(strlen(callback_list[i].first) + 1));
         }
-- 
2.43.0


From 47ed055f03dbd6cebeb8c1aa778450d70e9d75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 28/40] fix: refuse to marshall signatures longer than 255
 bytes

---
 src/dbus_messageostream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_messageostream.h b/src/dbus_messageostream.h
index d02a70c..04f92dd 100644
--- a/src/dbus_messageostream.h
+++ b/src/dbus_messageostream.h
@@ -20,6 +20,7 @@
 
 #include "dbus_utils.h"
 #include <cstdint>
+#include <stdexcept>
 
 namespace DBus {
 
@@ -101,6 +102,9 @@ public:
     {
         // The same as STRING except the length is a single byte (thus signatures
         // have a maximum length of 255)
+        if (str.length() > 255) {
+            throw std::length_error("Signatures have a maximum length of 255");
+        }
         writeByte(str.length());
         // and the content must be a valid signature (see above).
         data.append(str);
-- 
2.43.0


From a9cbc5efd06a5107bcf2573f4aec9abc3dca6b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 29/40] fix: copying a Byte keeps its signature

---
 src/dbus_type_byte.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dbus_type_byte.cpp b/src/dbus_type_byte.cpp
index 528fc63..262aa0a 100644
--- a/src/dbus_type_byte.cpp
+++ b/src/dbus_type_byte.cpp
@@ -35,7 +35,11 @@ DBus::Type::Byte::Byte(size_t v)
     setSignature(s_StaticTypeCode);
 }
 
-DBus::Type::Byte::Byte(const Byte& b) { m_Value = b.m_Value; }
+DBus::Type::Byte::Byte(const Byte& b)
+    : Base(b)
+    , m_Value(b.m_Value)
+{
+}
 
 void DBus::Type::Byte::marshall(MessageOStream& stream) const
 {
-- 
2.43.0


From 71dd3709060d6697b6412c50036d91e4fb76f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 30/40] fix: survive callbacks which throw something other than
 an exception

---
 src/dbus_messageprotocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index 2a892bf..549ca6d 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -250,6 +250,11 @@ void DBus::MessageProtocol::onBodyComplete(const std::string& body)
         // Catch exceptions from std::function such as bad_function_call. No action required.
         Log::write(Log::INFO, "DBus :: Exception caught in onBodyComplete: %s\n", e.what());
     }
+    catch(...)
+    {
+        // Callbacks may throw anything
+        Log::write(Log::INFO, "DBus :: Unknown exception caught in onBodyComplete\n");
+    }
 
     startMessage();
 }
-- 
2.43.0


From a419b939af9010a6c9ddf8d62ad4e52a219fec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 31/40] fix: don't deliver messages whose body is missing

---
 src/dbus_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index ad6b86c..4c94d27 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -85,7 +85,7 @@ DBus::Message::Base::Base(const DBus::Type::Struct& header,
     }
 
     // Empty bodies have no parameters
-    if (body.size()) {
+    if (body.size() || signature.size()) {
         parseParameters(isLittleEndian, body, signature);
     }
 }
-- 
2.43.0


From d4e3a0b6bf5fabc2c9af8c690eebb12fdee84257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 32/40] fix: omit the destination header when there is none

---
 src/dbus_message_error.cpp        | 10 ++++++----
 src/dbus_message_methodcall.cpp   | 10 ++++++----
 src/dbus_message_methodreturn.cpp | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 31588da..7b9e4fd 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -66,10 +66,12 @@ std::string
 DBus::Message::Error::marshall(const std::string& destination) const
 {
     DBus::Type::Array array;
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sErrorName;
     sErrorName.add(DBus::Type::Byte(DBus::Message::Header::HEADER_ERROR_NAME));
diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 0919db3..4b98cfb 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -71,10 +71,12 @@ DBus::Message::MethodCall::marshall(const std::string& destination) const
 
     // This is necessary, to prevent errors from the daemon,although it is marked
     // as optional in the spec
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sInterface;
     sInterface.add(DBus::Type::Byte(DBus::Message::Header::HEADER_INTERFACE));
diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index 54b6868..8407347 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -55,10 +55,12 @@ std::string
 DBus::Message::MethodReturn::marshall(const std::string& destination) const
 {
     DBus::Type::Array array;
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sReplySerial;
     sReplySerial.add(
-- 
2.43.0


From e736688131e2bf216fa9b6e074fc6502e8fbe1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 33/40] fix: hex dump prefixes are not format strings

---
 src/dbus_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_log.cpp b/src/dbus_log.cpp
index 4ad2a31..13220c3 100644
--- a/src/dbus_log.cpp
+++ b/src/dbus_log.cpp
@@ -49,7 +49,7 @@ void DBus::Log::writeHex(size_t type, const std::string& prefix,
         return;
     }
 
-    write(type, prefix.c_str());
+    write(type, "%s", prefix.c_str());
 
     size_t column = 0;
     for (auto it : hex) {
-- 
2.43.0


From 7e2d3e31a7d3341bf1c3974f61937e66e00a0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 34/40] fix: write the array length behind its alignment
 padding

---
 src/dbus_type_array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index da4fbf4..8b2346e 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -138,6 +138,7 @@ const std::vector<DBus::Type::Generic>& DBus::Type::Array::getContents() const
 
 void DBus::Type::Array::marshall(MessageOStream& stream) const
 {
+    stream.pad4();
     const size_t sizePos = stream.size();
     stream.writeUint32(0);
 
-- 
2.43.0


From 91f58d4c043e3d20532fbdce7abe021c09694fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 35/40] fix: refuse struct signatures whose fields run past the
 closing bracket

---
 src/dbus_type_struct.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbus_type_struct.cpp b/src/dbus_type_struct.cpp
index 56313ed..c2023a1 100644
--- a/src/dbus_type_struct.cpp
+++ b/src/dbus_type_struct.cpp
@@ -33,6 +33,7 @@
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
 #include <sstream>
+#include <stdexcept>
 
 /*
 Structs and dict entries are marshalled in the same way as their contents, but
@@ -150,6 +151,11 @@ void DBus::Type::Struct::unmarshall(MessageIStream& stream)
         DBus::Type::unmarshallData(m_Value.back(), stream);
         signatureIndex += signature.size();
     } while (signatureIndex < m_Signature.size() - 1);
+
+    // The fields end at the closing bracket
+    if (signatureIndex != m_Signature.size() - 1) {
+        throw std::runtime_error("Invalid type signature: " + m_Signature);
+    }
 }
 
 std::string DBus::Type::Struct::toString(const std::string& prefix) const
-- 
2.43.0


From bba28d557b9a54e542dbcae85dc257d4687e3c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 36/40] fix: drop the messages still to be written when writing
 has failed

---
 src/dbus_transport.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c88050e..a6d55e3 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -191,6 +191,13 @@ void DBus::Transport::handle_write_output(
     }
 
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    if (error) {
+        // Nothing can be written any more, and waiting for the socket to become
+        // writable again would keep the destructor from joining the thread
+        m_WriteQueue.clear();
+        return;
+    }
+
     m_WriteQueue.pop_front();
     if (!m_WriteQueue.empty()) {
         startWrite();
-- 
2.43.0


From ba9e0361420bda450670de3d890ffb830388979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:39 +0000
Subject: [PATCH 37/40] fix: numbers read as text do not depend on the locale

Message headers are read through this text: with a global locale that
groups digits, serials above 999 were read wrongly.
---
 src/dbus_type_boolean.cpp | 4 +---
 src/dbus_type_byte.cpp    | 4 +---
 src/dbus_type_int16.cpp   | 4 +---
 src/dbus_type_int32.cpp   | 4 +---
 src/dbus_type_int64.cpp   | 4 +---
 src/dbus_type_uint16.cpp  | 4 +---
 src/dbus_type_uint32.cpp  | 4 +---
 src/dbus_type_uint64.cpp  | 4 +---
 8 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/src/dbus_type_boolean.cpp b/src/dbus_type_boolean.cpp
index 4651dc5..4d8ab30 100644
--- a/src/dbus_type_boolean.cpp
+++ b/src/dbus_type_boolean.cpp
@@ -56,7 +56,5 @@ std::string DBus::Type::Boolean::toString(const std::string& prefix) const
 
 std::string DBus::Type::Boolean::asString() const
 {
-    std::stringstream ss;
-    ss << (size_t)m_Value;
-    return ss.str();
+    return std::to_string(m_Value);
 }
diff --git a/src/dbus_type_byte.cpp b/src/dbus_type_byte.cpp
index 262aa0a..d9e12b1 100644
--- a/src/dbus_type_byte.cpp
+++ b/src/dbus_type_byte.cpp
@@ -64,7 +64,5 @@ std::string DBus::Type::Byte::toString(const std::string& prefix) const
 
 std::string DBus::Type::Byte::asString() const
 {
-    std::stringstream ss;
-    ss << (size_t)m_Value;
-    return ss.str();
+    return std::to_string(m_Value);
 }
diff --git a/src/dbus_type_int16.cpp b/src/dbus_type_int16.cpp
index 58dd02b..440a357 100644
--- a/src/dbus_type_int16.cpp
+++ b/src/dbus_type_int16.cpp
@@ -58,7 +58,5 @@ std::string DBus::Type::Int16::toString(const std::string& prefix) const
 
 std::string DBus::Type::Int16::asString() const
 {
-    std::stringstream ss;
-    ss << m_Value;
-    return ss.str();
+    return std::to_string(m_Value);
 }
diff --git a/src/dbus_type_int32.cpp b/src/dbus_type_int32.cpp
index 5f3509d..6cdd18e 100644
--- a/src/dbus_type_int32.cpp
+++ b/src/dbus_type_int32.cpp
@@ -58,7 +58,5 @@ std::string DBus::Type::Int32::toString(const std::string& prefix) const
 
 std::string DBus::Type::Int32::asString() const
 {
-    std::stringstream ss;
-    ss << m_Value;
-    return ss.str();
+    return std::to_string(m_Value);
 }
diff --git a/src/dbus_type_int64.cpp b/src/dbus_type_int64.cpp
index 7c8024e..1a63737 100644
--- a/src/dbus_type_int64.cpp
+++ b/src/dbus_type_int64.cpp
@@ -58,7 +58,5 @@ std::string DBus::Type::Int64::toString(const std::string& prefix) const
 
 std::string DBus::Type::Int64::asString() const
 {
-    std::stringstream ss;
-    ss << m_Value;
-    return ss.str();
+    return std::to_string(m_Value);
 }
diff --git a/src/dbus_type_uint16.cpp b/src/dbus_type_uint16.cpp
index e422bd6..57e9e49 100644
--- a/src/dbus_type_uint16.cpp
+++ b/src/dbus_type_uint16.cpp
@@ -58,7 +58,5 @@ std::string DBus::Type::Uint16::toString(const std::string& prefix) const
 
 std::string DBus::Type::Uint16::asString() const
 {
-    std::stringstream ss;
-    ss << m_Value;
-    return ss.str();
+    return std::to_string(m_Value);
 }
diff --git a/src/dbus_type_uint32.cpp b/src/dbus_type_uint32.cpp
index 9afbbc9..54eb793 100644
--- a/src/dbus_type_uint32.cpp
+++ b/src/dbus_type_uint32.cpp
@@ -58,7 +58,5 @@ std::string DBus::Type::Uint32::toString(const std::string& prefix) const
 
 std::string DBus::Type::Uint32::asString() const
 {
-    std::stringstream ss;
-    ss << m_Value;
-    return ss.str();
+    return std::to_string(m_Value);
 }
diff --git a/src/dbus_type_uint64.cpp b/src/dbus_type_uint64.cpp
index 7ec60c1..c78e330 100644
--- a/src/dbus_type_uint64.cpp
+++ b/src/dbus_type_uint64.cpp
@@ -58,7 +58,5 @@ std::string DBus::Type::Uint64::toString(const std::string& prefix) const
 
 std::string DBus::Type::Uint64::asString() const
 {
-    std::stringstream ss;
-    ss << m_Value;
-    return ss.str();
+    return std::to_string(m_Value);
 }
-- 
2.43.0


From eb5123f129618ea656e993cb93d35005fcd9706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 38/40] fix: doubles read as text keep all their digits

---
 src/dbus_type_double.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/dbus_type_double.cpp b/src/dbus_type_double.cpp
index 439eadd..11c020d 100644
--- a/src/dbus_type_double.cpp
+++ b/src/dbus_type_double.cpp
@@ -18,6 +18,8 @@
 #include "dbus_type_double.h"
 #include "dbus_messageistream.h"
 #include "dbus_messageostream.h"
+#include <iomanip>
+#include <locale>
 #include <sstream>
 
 const std::string DBus::Type::Double::s_StaticTypeCode("d");
@@ -56,7 +58,17 @@ std::string DBus::Type::Double::toString(const std::string& prefix) const
 
 std::string DBus::Type::Double::asString() const
 {
-    std::stringstream ss;
-    ss << m_Value;
-    return ss.str();
+    // As many digits as are needed to read the same value again
+    std::string text;
+    for (int precision = 6; precision <= 17; ++precision) {
+        std::stringstream ss;
+        ss.imbue(std::locale::classic());
+        ss << std::setprecision(precision) << m_Value;
+        text = ss.str();
+        double value = 0;
+        if (ss >> value && value == m_Value) {
+            break;
+        }
+    }
+    return text;
 }
-- 
2.43.0


From 9d9b30f7fa4d6e31443b1a5f086b3043bb12cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 39/40] fix: reading a parameter or field that is not there
 throws

Handlers read the parameters they expect; a sender that leaves them out
made the accessors read outside the list.
---
 src/dbus_message.cpp   | 2 +-
 src/dbus_type_struct.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 4c94d27..b1fa2c5 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -215,7 +215,7 @@ size_t DBus::Message::MethodCallParameters::getParameterCount() const
 const DBus::Type::Generic&
 DBus::Message::MethodCallParameters::getParameter(size_t idx) const
 {
-    return m_Contents.m_TypeList[idx];
+    return m_Contents.m_TypeList.at(idx);
 }
 
 DBus::Message::MethodCallParametersIn::MethodCallParametersIn(
diff --git a/src/dbus_type_struct.h b/src/dbus_type_struct.h
index 143cca3..f3a76ff 100644
--- a/src/dbus_type_struct.h
+++ b/src/dbus_type_struct.h
@@ -76,7 +76,7 @@ namespace Type {
         std::string asString() const;
 
         size_t getEntries() const { return m_Value.size(); }
-        const Generic& operator[](std::size_t idx) const { return m_Value[idx]; }
+        const Generic& operator[](std::size_t idx) const { return m_Value.at(idx); }
 
         static std::string s_StaticTypeCode;
 
-- 
2.43.0


From 44091cf74161d90754fd104dd82b53c88c08820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:29 +0000
Subject: [PATCH 40/40] fix: booleans made of other numbers than 0 and 1 read
 as those numbers

---
 src/dbus_type_boolean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_boolean.cpp b/src/dbus_type_boolean.cpp
index 4d8ab30..b4483b9 100644
--- a/src/dbus_type_boolean.cpp
+++ b/src/dbus_type_boolean.cpp
@@ -56,5 +56,5 @@ std::string DBus::Type::Boolean::toString(const std::string& prefix) const
 
 std::string DBus::Type::Boolean::asString() const
 {
-    return std::to_string(m_Value);
+    return std::to_string(m_Value ? 1 : 0);
 }
-- 
2.43.0

