From b70cfda391538b0b581e8ef96bbce1978993fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 01/33] fix: reading past the end of a Buffer gives zeros
 instead of reading foreign memory

---
 src/utils/Buffer.cpp | 50 +++++++++++++++++++++++++++-----------------
 src/utils/Buffer.h   |  2 ++
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/utils/Buffer.cpp b/src/utils/Buffer.cpp
index 0e3ed2a..43c6abf 100644
--- a/src/utils/Buffer.cpp
+++ b/src/utils/Buffer.cpp
@@ -2,6 +2,8 @@
 // Created by flipback on 11/16/19.
 //
 
+#include <algorithm>
+
 #include "Buffer.h"
 
 namespace eipScanner {
@@ -18,6 +20,13 @@ namespace utils {
 	Buffer::Buffer() : _buffer(0), _position{0} {
 	}
 
+	uint8_t Buffer::readByte() {
+		// Reading past the end gives zeros and leaves the buffer invalid
+		const uint8_t val = _position < _buffer.size() ? _buffer[_position] : 0;
+		++_position;
+		return val;
+	}
+
 	Buffer &Buffer::operator<<(uint8_t val) {
 		_buffer.push_back(val);
 		return *this;
@@ -25,7 +34,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint8_t &val) {
-		val = _buffer[_position++];
+		val = readByte();
 		return *this;
 
 	}
@@ -37,7 +46,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(int8_t &val) {
-		val = static_cast<uint8_t>(_buffer[_position++]);
+		val = static_cast<uint8_t>(readByte());
 		return *this;
 	}
 
@@ -48,8 +57,8 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint16_t &val) {
-		val = static_cast<uint16_t>(_buffer[_position++]);
-		val += static_cast<uint16_t>(_buffer[_position++] << 8);
+		val = static_cast<uint16_t>(readByte());
+		val += static_cast<uint16_t>(readByte() << 8);
 		return *this;
 	}
 
@@ -71,10 +80,10 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint32_t &val) {
-		val = static_cast<uint32_t>(_buffer[_position++]);
-		val += static_cast<uint32_t>(_buffer[_position++] << 8);
-		val += static_cast<uint32_t>(_buffer[_position++] << 16);
-		val += static_cast<uint32_t>(_buffer[_position++] << 24);
+		val = static_cast<uint32_t>(readByte());
+		val += static_cast<uint32_t>(readByte() << 8);
+		val += static_cast<uint32_t>(readByte() << 16);
+		val += static_cast<uint32_t>(readByte() << 24);
 
 		return *this;
 	}
@@ -101,14 +110,14 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint64_t &val) {
-		val = static_cast<uint64_t>(_buffer[_position++]);
-		val += static_cast<uint64_t>(_buffer[_position++]) << 8;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 16;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 24;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 32;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 40;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 48;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 56;
+		val = static_cast<uint64_t>(readByte());
+		val += static_cast<uint64_t>(readByte()) << 8;
+		val += static_cast<uint64_t>(readByte()) << 16;
+		val += static_cast<uint64_t>(readByte()) << 24;
+		val += static_cast<uint64_t>(readByte()) << 32;
+		val += static_cast<uint64_t>(readByte()) << 40;
+		val += static_cast<uint64_t>(readByte()) << 48;
+		val += static_cast<uint64_t>(readByte()) << 56;
 
 		return *this;
 	}
@@ -143,7 +152,10 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint8_t> &val) {
-		std::copy(_buffer.begin() + _position, _buffer.begin() + _position + val.size(), val.begin());
+		const size_t available = _position < _buffer.size() ? _buffer.size() - _position : 0;
+		const size_t count = std::min(val.size(), available);
+		std::copy_n(_buffer.begin() + (_buffer.size() - available), count, val.begin());
+		std::fill(val.begin() + count, val.end(), uint8_t{0});
 		_position += val.size();
 		return *this;
 	}
@@ -159,8 +171,8 @@ Buffer &Buffer::operator<<(float val) {
 
 	Buffer &Buffer::operator>>(std::vector<uint16_t> &val) {
 		for (auto& v : val) {
-			v = static_cast<int16_t>(_buffer[_position++]);
-			v += static_cast<int16_t>(_buffer[_position++] << 8);
+			v = static_cast<int16_t>(readByte());
+			v += static_cast<int16_t>(readByte() << 8);
 		}
 
 		return *this;
diff --git a/src/utils/Buffer.h b/src/utils/Buffer.h
index 32c1409..d51fa9b 100644
--- a/src/utils/Buffer.h
+++ b/src/utils/Buffer.h
@@ -114,6 +114,8 @@ namespace utils {
 		bool isValid() const { return _position <= _buffer.size(); }
 		bool empty() const  { return  _position >= _buffer.size(); }
 	private:
+		uint8_t readByte();
+
 		std::vector<uint8_t> _buffer;
 		size_t _position;
 	};
-- 
2.43.0


From 82c0ea36dc4f3789c3da574acaa51784bc005d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 02/33] fix: a common packet with fewer items than announced is
 refused

---
 src/eip/CommonPacket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eip/CommonPacket.cpp b/src/eip/CommonPacket.cpp
index c51a176..29d6bea 100644
--- a/src/eip/CommonPacket.cpp
+++ b/src/eip/CommonPacket.cpp
@@ -38,7 +38,11 @@ namespace eip {
 		Buffer buffer(data);
 		cip::CipUint count;
 		buffer >> count;
-		for (int i = 0; i < count && !buffer.empty(); ++i) {
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Wrong Common Packet format");
+		}
+
+		for (int i = 0; i < count; ++i) {
 			cip::CipUint typeId;
 			cip::CipUint length;
 			buffer >> typeId >> length;
-- 
2.43.0


From ee8cc39e7746392e7de14b8e2b5a37f7d21c8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 03/33] fix: an empty path packs to no segments, as its size
 says

---
 src/cip/EPath.cpp                              | 4 ++++
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 447ef30..9f07400 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -50,6 +50,10 @@ namespace cip {
 	}
 
 	std::vector<uint8_t> EPath::packPaddedPath(bool use_8_bit_path_segments) const {
+		if (_size == 0) {
+			return {};
+		}
+
         if (use_8_bit_path_segments)
         {
             Buffer buffer(_size*2);
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index db26946..6b0e69b 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -46,6 +46,10 @@ namespace cip {
 	}
 
 	std::vector<uint8_t> Yaskawa_EPath::packPaddedPath() const {
+		if (_size == 0) {
+			return {};
+		}
+
 		Buffer buffer(_size*2);
 
 		auto classSegment = static_cast<CipUsint>(EPathSegmentTypes::CLASS_8_BITS);
-- 
2.43.0


From db82ce1959d06c603339463bc02a027c4ebc9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 04/33] fix: replies without a data item are reported as
 std::runtime_error

---
 src/MessageRouter.cpp                                  | 9 +++++++++
 src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/MessageRouter.cpp b/src/MessageRouter.cpp
index 16f2232..ea85605 100644
--- a/src/MessageRouter.cpp
+++ b/src/MessageRouter.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <cassert>
+#include <stdexcept>
 #include "eip/EncapsPacketFactory.h"
 #include "utils/Buffer.h"
 #include "MessageRouter.h"
@@ -59,6 +60,10 @@ namespace eipScanner {
 
 		auto receivedPacket = si->sendAndReceive(packetToSend);
 
+		if (receivedPacket.getData().size() < 6) {
+			throw std::runtime_error("Reply is too short");
+		}
+
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
@@ -70,6 +75,10 @@ namespace eipScanner {
 		MessageRouterResponse response;
 		const CommonPacketItem::Vec &items = commonPacket.getItems();
 
+		if (items.size() < 2) {
+			throw std::runtime_error("Reply has no data item");
+		}
+
 		response.expand(items.at(1).getData());
 		if (items.size() > 2) {
 			response.setAdditionalPacketItems(
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
index f966901..a4b2b82 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
@@ -1,5 +1,6 @@
 
 #include <cassert>
+#include <stdexcept>
 #include "eip/EncapsPacketFactory.h"
 #include "utils/Buffer.h"
 #include "Yaskawa_MessageRouter.h"
@@ -54,6 +55,10 @@ namespace eipScanner {
 
 		auto receivedPacket = si->sendAndReceive(packetToSend);
 
+		if (receivedPacket.getData().size() < 6) {
+			throw std::runtime_error("Reply is too short");
+		}
+
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
@@ -65,6 +70,10 @@ namespace eipScanner {
 		MessageRouterResponse response;
 		const CommonPacketItem::Vec &items = commonPacket.getItems();
 
+		if (items.size() < 2) {
+			throw std::runtime_error("Reply has no data item");
+		}
+
 		response.expand(items.at(1).getData());
 		if (items.size() > 2) {
 			response.setAdditionalPacketItems(
-- 
2.43.0


From e62f8a87c06897fe4376c0b4fc26a0db0681bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 05/33] fix: reading the length of a too short header throws

---
 src/eip/EncapsPacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eip/EncapsPacket.cpp b/src/eip/EncapsPacket.cpp
index 64d2ed3..853d243 100644
--- a/src/eip/EncapsPacket.cpp
+++ b/src/eip/EncapsPacket.cpp
@@ -99,6 +99,10 @@ namespace eip {
 	}
 
 	size_t EncapsPacket::getLengthFromHeader(const std::vector<uint8_t>& data) {
+		if (data.size() < 4) {
+			throw std::runtime_error("EncapsPacket header is too short");
+		}
+
 		std::vector<uint8_t> lengthVector(data.begin() + 2, data.begin() + 4);
 		Buffer buf(lengthVector);
 
-- 
2.43.0


From aba64fb731bf6a197283628a3306610d1d0cec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 06/33] fix: end points have a strict weak ordering, so they
 work as map keys

---
 src/sockets/EndPoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sockets/EndPoint.cpp b/src/sockets/EndPoint.cpp
index b6de7ad..e1b4c8b 100644
--- a/src/sockets/EndPoint.cpp
+++ b/src/sockets/EndPoint.cpp
@@ -67,7 +67,7 @@ namespace sockets {
 
 	bool EndPoint::operator< (const EndPoint& rhs) const {
 		return _host < rhs._host
-			   && _port < rhs._port;
+			   || (_host == rhs._host && _port < rhs._port);
 	}
 
 	std::string EndPoint::toString() const {
-- 
2.43.0


From 2f9e830b8195505d8f9ff3bed6ef0732cef4a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 07/33] fix: a failing send is reported instead of being taken
 for success

---
 src/IOConnection.cpp      |  8 +++++++-
 src/SessionInfo.cpp       | 11 ++++++++---
 src/sockets/TCPSocket.cpp |  4 ++--
 src/sockets/UDPSocket.cpp |  4 ++--
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5571496..8084d92 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -134,7 +134,13 @@ namespace eipScanner {
 				buffer << _outputData;
 				commonPacket << factory.createConnectedDataItem(buffer.data());
 
-				_socket->Send(commonPacket.pack());
+
+				try {
+					_socket->Send(commonPacket.pack());
+				} catch (const std::system_error& e) {
+					Logger(LogLevel::WARNING) << "Failed to send data to connection O2T_ID=" << _o2tNetworkConnectionId
+											  << ": " << e.what();
+				}
 			}
 		}
 
diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index cbfb179..42277a8 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -39,9 +39,14 @@ namespace eipScanner {
 	}
 
 	SessionInfo::~SessionInfo() {
-		EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
-		_socket.Send(packet.pack());
-		Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		try {
+			EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
+			_socket.Send(packet.pack());
+
+			Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		} catch (const std::exception& e) {
+			Logger(LogLevel::WARNING) << "Failed to unregister session " << _sessionHandle << ": " << e.what();
+		}
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index bbceaac..0cfb7f0 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -132,8 +132,8 @@ namespace eipScanner {
 			// Do not generate SIGPIPE when calling send() on closed socket
 			flags |= MSG_NOSIGNAL;
 #endif
-			int count = send(_sockedFd, (char*)data.data(), data.size(), flags);
-			if (count < data.size()) {
+			auto count = send(_sockedFd, (char*)data.data(), data.size(), flags);
+			if (count < 0 || static_cast<size_t>(count) < data.size()) {
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
 		}
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 04f1ddb..7930eb6 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -59,9 +59,9 @@ namespace sockets {
 		flags |= MSG_NOSIGNAL;
 #endif
 		auto addr = _remoteEndPoint.getAddr();
-		int count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
+		auto count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
 				(struct sockaddr *)&addr, sizeof(addr));
-		if (count < data.size()) {
+		if (count < 0 || static_cast<size_t>(count) < data.size()) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 	}
-- 
2.43.0


From 8310eb10a0c2e0168b4b71954d486ca6f9d802e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 08/33] fix: a TCP receive ended by the peer returns only what
 was received

---
 src/sockets/TCPSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 0cfb7f0..62cdac7 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -163,6 +163,7 @@ namespace eipScanner {
 			if (size != count) {
 				Logger(LogLevel::WARNING) << "Received from " << _remoteEndPoint.toString()
 										  << " " << count << " of " << size;
+				recvBuffer.resize(count);
 			}
 
 			return recvBuffer;
-- 
2.43.0


From 288f0e3a59bc73b5f95ee2be536ed5bef877a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 09/33] fix: a received datagram is returned without padding

---
 src/sockets/UDPSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 7930eb6..69e5460 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -75,6 +75,7 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 
@@ -89,6 +90,7 @@ namespace sockets {
 		}
 
 		endPoint = EndPoint(addr);
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 }
-- 
2.43.0


From 02a5cd78dc6cf445a084afde23fc4200e1704a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 10/33] fix: waiting for no sockets returns at once

---
 src/sockets/BaseSocket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index efb71db..35d1113 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -118,6 +118,10 @@ namespace sockets {
 	}
 
 	void BaseSocket::select(std::vector<BaseSocket::SPtr> sockets, std::chrono::milliseconds timeout) {
+		if (sockets.empty()) {
+			return;
+		}
+
 		BaseSocket::SPtr socketWithMaxFd = *std::max_element(sockets.begin(), sockets.end(), [](auto sock1, auto sock2) {
 			return sock1->getSocketFd() < sock2->getSocketFd();
 		});
-- 
2.43.0


From 0819dd2616e2e6d8edde606df4cbec184a62de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 11/33] fix: waiting for sockets ends with its timeout even
 when data keeps arriving

---
 src/sockets/BaseSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 35d1113..bed1e25 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -151,7 +151,7 @@ namespace sockets {
 			}
 
 			startTime = std::chrono::steady_clock::now();
-		} while(ready > 0);
+		} while(ready > 0 && startTime < stopTime);
 	}
 
 	const EndPoint &BaseSocket::getRemoteEndPoint() const {
-- 
2.43.0


From b1258cce84457c91d648532890632d02472e34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 12/33] fix: a log message of level OFF is not printed

---
 src/utils/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Logger.cpp b/src/utils/Logger.cpp
index 495bc84..614e990 100644
--- a/src/utils/Logger.cpp
+++ b/src/utils/Logger.cpp
@@ -16,7 +16,7 @@ namespace utils {
 	}
 
 	Logger::~Logger() {
-		if (_globalLogLevel != LogLevel::OFF && _logLevel <= _globalLogLevel) {
+		if (_logLevel != LogLevel::OFF && _logLevel <= _globalLogLevel) {
 			_appender->print(_logLevel, (_stream).str());
 		}
 	}
-- 
2.43.0


From 79a2d64f58d15dd996db9ef6d7ff72e3375bfa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 13/33] fix: a TCP socket that cannot be made non-blocking is
 closed

---
 src/sockets/TCPSocket.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 62cdac7..8803bfb 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -46,13 +46,10 @@ namespace eipScanner {
 			// Set non-blocking
 #if defined(__unix__) || defined(__APPLE__)
 			auto arg = fcntl(_sockedFd, F_GETFL, NULL);
-			if (arg < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-			}
-
-			arg |= O_NONBLOCK;
-			if (fcntl(_sockedFd, F_SETFL, arg) < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+			if (arg < 0 || fcntl(_sockedFd, F_SETFL, arg | O_NONBLOCK) < 0) {
+				auto error = BaseSocket::getLastError();
+				Close();
+				throw std::system_error(error, BaseSocket::getErrorCategory());
 			}
 #endif
 
-- 
2.43.0


From 5a2d43f5d84e7cc45b4439a5152a9d305570a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 14/33] fix: an identity object reads its own instance

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 0e771c9..7e0e1c3 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -37,7 +37,7 @@ namespace eipScanner {
 		auto response = messageRouter->sendRequest(
 				si,
 				ServiceCodes::GET_ATTRIBUTE_ALL,
-				EPath(CLASS_ID, 1),
+				EPath(CLASS_ID, instanceId),
 				{});
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
-- 
2.43.0


From ed193817ffc52a83434fbdc2da08901de7adb6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 15/33] fix: a truncated identity reply is reported

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 7e0e1c3..cebc3d9 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -48,7 +48,7 @@ namespace eipScanner {
 				>> _productName;
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 		} else {
-- 
2.43.0


From 430a5c9bf672fe0a15c425bd6c650eeae940b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 16/33] fix: a truncated Forward Open response is reported

---
 src/cip/connectionManager/ForwardOpenResponse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cip/connectionManager/ForwardOpenResponse.cpp b/src/cip/connectionManager/ForwardOpenResponse.cpp
index 622c1d1..7cccbe5 100644
--- a/src/cip/connectionManager/ForwardOpenResponse.cpp
+++ b/src/cip/connectionManager/ForwardOpenResponse.cpp
@@ -2,6 +2,7 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 
+#include <stdexcept>
 #include "ForwardOpenResponse.h"
 #include "utils/Buffer.h"
 
@@ -41,6 +42,10 @@ namespace connectionManager {
 
 		_applicationReplay.resize(_applicationReplaySize*2);
 		buffer >> _applicationReplay;
+
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Wrong Forward Open response format");
+		}
 	}
 
 	CipUdint ForwardOpenResponse::getO2TNetworkConnectionId() const {
-- 
2.43.0


From 2e9e157643d6a30c6ca61f2fa72cdbb7c8755d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 17/33] fix: setting the owner allows further settings of the
 same builder

---
 .../connectionManager/NetworkConnectionParametersBuilder.cpp    | 2 +-
 src/cip/connectionManager/NetworkConnectionParametersBuilder.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 219a191..5e34c08 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -19,7 +19,7 @@ namespace connectionManager {
 
 	}
 
-	NetworkConnectionParametersBuilder NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
+	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
 			_value |= (val << 31);
 		} else {
diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
index ba091fa..203bb1a 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
@@ -41,7 +41,7 @@ namespace connectionManager {
 		NetworkConnectionParametersBuilder(CipUdint val = 0, bool lfo = false);
 		virtual ~NetworkConnectionParametersBuilder() = default;
 
-		NetworkConnectionParametersBuilder setRedundantOwner(RedundantOwner val);
+		NetworkConnectionParametersBuilder& setRedundantOwner(RedundantOwner val);
 		NetworkConnectionParametersBuilder& setConnectionType(ConnectionType val);
 		NetworkConnectionParametersBuilder& setPriority(Priority val);
 		NetworkConnectionParametersBuilder& setType(Type val);
-- 
2.43.0


From adc9532f2cdfbe008a9ec789bdfca399e0f04ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 18/33] fix: connections are told apart by their whole 32-bit
 id

---
 src/ConnectionManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index a317067..ab54392 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -75,7 +75,7 @@ namespace eipScanner {
 		bool hasOpenConnections() const;
 	private:
 		MessageRouter::SPtr _messageRouter;
-		std::map<cip::CipUint, IOConnection::SPtr> _connectionMap;
+		std::map<cip::CipUdint, IOConnection::SPtr> _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
-- 
2.43.0


From df2e936f18aa3fb68f1a98b276a2cdb6d626ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 19/33] fix: malformed implicit data is ignored

---
 src/ConnectionManager.cpp | 17 ++++++++++++++++-
 src/IOConnection.cpp      |  6 ++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a4c76a2..ddfcce5 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -239,12 +239,27 @@ namespace eipScanner {
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
 				auto recvData = sock.Receive(8192);
 				CommonPacket commonPacket;
-				commonPacket.expand(recvData);
+				try {
+					commonPacket.expand(recvData);
+				} catch (const std::runtime_error& e) {
+					Logger(LogLevel::WARNING) << "Ignore received data: " << e.what();
+					return;
+				}
+
+				if (commonPacket.getItems().size() < 2) {
+					Logger(LogLevel::WARNING) << "Ignore received data without an address and a data item";
+					return;
+				}
 
 				// TODO: Check TypeIDs and sequence of the packages
 				Buffer buffer(commonPacket.getItems().at(0).getData());
 				cip::CipUdint connectionId;
 				buffer >> connectionId;
+				if (!buffer.isValid()) {
+					Logger(LogLevel::WARNING) << "Ignore received data with a wrong address item";
+					return;
+				}
+
 				Logger(LogLevel::DEBUG) << "Received data from connection T2O_ID=" << connectionId;
 
 				auto io = _connectionMap.find(connectionId);
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 8084d92..9cb43ee 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -79,6 +79,12 @@ namespace eipScanner {
 			buffer >> sequenceValueCount;
 		}
 
+		if (!buffer.isValid()) {
+			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
+				<< " received only " << data.size() << " bytes. Ignore this data.";
+			return;
+		}
+
 		std::vector<uint8_t> ioData(data.begin() + buffer.pos(), data.end());
 		if (_t2oFixedSize && ioData.size() != _t2oDataSize) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
-- 
2.43.0


From 2cfb3cd13b86c30c5cfdb4cf5976baaad73ae255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 20/33] fix: received sequence count precedes the run/idle
 header, as it does when sending

---
 src/IOConnection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 9cb43ee..7635510 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -70,15 +70,15 @@ namespace eipScanner {
 		cip::CipUdint runtimeHeader = 0;
 		cip::CipUint sequenceValueCount = 0;
 
-		if (_t2oRealTimeFormat) {
-			buffer >> runtimeHeader;
-		}
-
 		if ((_transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
 			|| (_transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
 			buffer >> sequenceValueCount;
 		}
 
+		if (_t2oRealTimeFormat) {
+			buffer >> runtimeHeader;
+		}
+
 		if (!buffer.isValid()) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
 				<< " received only " << data.size() << " bytes. Ignore this data.";
-- 
2.43.0


From c8c75e105b3ae5ac344a8f22ce19135f61255a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 21/33] fix: long connection timeouts and large timeout
 multipliers do not overflow

---
 src/IOConnection.cpp | 2 +-
 src/IOConnection.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 7635510..ae1fd15 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -104,7 +104,7 @@ namespace eipScanner {
 
 		auto periodInMicroS = sinceLastHandle.count() * 1000;
 		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
+		if (_connectionTimeoutCount > static_cast<cip::CipUlint>(_connectionTimeoutMultiplier) * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 9058d89..6867aae 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -80,11 +80,11 @@ namespace eipScanner {
 		bool _o2tFixedSize;
 		bool _t2oFixedSize;
 
-		cip::CipUdint _o2tTimer;
+		cip::CipUlint _o2tTimer;
 		cip::CipUdint _t2o_timer;
 
-		cip::CipUsint _connectionTimeoutMultiplier;
-		cip::CipUdint _connectionTimeoutCount;
+		cip::CipUdint _connectionTimeoutMultiplier;
+		cip::CipUlint _connectionTimeoutCount;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
-- 
2.43.0


From 77361455ffd8d0089fe59580c60b52a8cac4322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 22/33] fix: handling connections more often than every
 millisecond loses no time

---
 src/IOConnection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index ae1fd15..2bc3695 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -100,9 +100,9 @@ namespace eipScanner {
 	bool IOConnection::notifyTick() {
 		auto now = std::chrono::steady_clock::now();
 		auto sinceLastHandle =
-			std::chrono::duration_cast<std::chrono::milliseconds>(now - _lastHandleTime);
+			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastHandleTime);
 
-		auto periodInMicroS = sinceLastHandle.count() * 1000;
+		auto periodInMicroS = sinceLastHandle.count();
 		_connectionTimeoutCount += periodInMicroS;
 		if (_connectionTimeoutCount > static_cast<cip::CipUlint>(_connectionTimeoutMultiplier) * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
@@ -110,7 +110,7 @@ namespace eipScanner {
 			return false;
 		}
 
-		_lastHandleTime = now;
+		_lastHandleTime += sinceLastHandle;
 
 		_o2tTimer += periodInMicroS;
 		if (_o2tTimer >= _o2tAPI) {
-- 
2.43.0


From 1776a2f9b4091854712c442b04fdffc6ffd1b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 23/33] fix: the connection timeout counts from the last
 received data, not from the handling step before it

---
 src/IOConnection.cpp | 10 +++++-----
 src/IOConnection.h   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 2bc3695..1648964 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -29,7 +29,6 @@ namespace eipScanner {
 			, _o2tTimer{0}
 			, _t2o_timer{0}
 			, _connectionTimeoutMultiplier{0}
-			, _connectionTimeoutCount{0}
 			, _o2tSequenceNumber{0}
 			, _t2oSequenceNumber{0}
 			, _serialNumber{0}
@@ -44,7 +43,8 @@ namespace eipScanner {
 			, _receiveDataHandle([](auto, auto, auto) {})
 			, _closeHandle([]() {})
 			, _sendDataHandle([](auto) {})
-			, _lastHandleTime(std::chrono::steady_clock::now()) {
+			, _lastHandleTime(std::chrono::steady_clock::now())
+			, _lastReceiveTime(_lastHandleTime) {
 	}
 
 	IOConnection::~IOConnection() = default;
@@ -91,7 +91,7 @@ namespace eipScanner {
 				<< " has fixed size " << _t2oDataSize << " bytes but " << ioData.size()
 				<< " bytes were received. Ignore this data.";
 		} else {
-			_connectionTimeoutCount = 0;
+			_lastReceiveTime = std::chrono::steady_clock::now();
 			_receiveDataHandle(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
@@ -103,8 +103,8 @@ namespace eipScanner {
 			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastHandleTime);
 
 		auto periodInMicroS = sinceLastHandle.count();
-		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > static_cast<cip::CipUlint>(_connectionTimeoutMultiplier) * _t2oAPI) {
+		auto timeout = std::chrono::microseconds(static_cast<cip::CipUlint>(_connectionTimeoutMultiplier) * _t2oAPI);
+		if (now - _lastReceiveTime > timeout) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 6867aae..a38bc38 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -84,7 +84,6 @@ namespace eipScanner {
 		cip::CipUdint _t2o_timer;
 
 		cip::CipUdint _connectionTimeoutMultiplier;
-		cip::CipUlint _connectionTimeoutCount;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
@@ -107,6 +106,7 @@ namespace eipScanner {
 		SendDataHandle _sendDataHandle;
 
 		std::chrono::steady_clock::time_point _lastHandleTime;
+		std::chrono::steady_clock::time_point _lastReceiveTime;
 	};
 }
 
-- 
2.43.0


From 0c19c9d95d12d77862cf7d5ea0d26832915b85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 24/33] fix: closing a closed connection that is still
 referenced sends nothing

---
 src/ConnectionManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index ddfcce5..eb1d3c2 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -173,7 +173,9 @@ namespace eipScanner {
 	}
 
 	void ConnectionManager::forwardClose(const SessionInfoIf::SPtr& si, const IOConnection::WPtr& ioConnection) {
-		if (auto ptr = ioConnection.lock()) {
+		auto ptr = ioConnection.lock();
+		auto entry = ptr ? _connectionMap.find(ptr->_t2oNetworkConnectionId) : _connectionMap.end();
+		if (entry != _connectionMap.end() && entry->second == ptr) {
 			ForwardCloseRequest request;
 
 			request.setConnectionPath(ptr->_connectionPath);
-- 
2.43.0


From 64b3e30363550a36054697bf6e9c0bb6c6cea3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 25/33] fix: listeners may close connections while these are
 handled

---
 src/ConnectionManager.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index eb1d3c2..a27ffcc 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -216,16 +216,17 @@ namespace eipScanner {
 
 		BaseSocket::select(sockets, timeout);
 
-		std::vector<cip::CipUdint> connectionsToClose;
-		for (auto& entry : _connectionMap) {
-			if (!entry.second->notifyTick()) {
-				connectionsToClose.push_back(entry.first);
+		auto isOpen = [this](auto& entry) {
+			auto it = _connectionMap.find(entry.first);
+			return it != _connectionMap.end() && it->second == entry.second;
+		};
+
+		auto connections = _connectionMap; // the listeners may open and close connections
+		for (auto& entry : connections) {
+			if (isOpen(entry) && !entry.second->notifyTick() && isOpen(entry)) {
+				_connectionMap.erase(entry.first);
 			}
 		}
-
-		for (auto& id : connectionsToClose) {
-			_connectionMap.erase(id);
-		}
 	}
 
 	UDPBoundSocket::SPtr ConnectionManager::findOrCreateSocket(const sockets::EndPoint& endPoint) {
@@ -266,7 +267,8 @@ namespace eipScanner {
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(commonPacket.getItems().at(1).getData());
+					auto connection = io->second; // its listener may close it
+					connection->notifyReceiveData(commonPacket.getItems().at(1).getData());
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
-- 
2.43.0


From 7bb647592e78dae49c765747bf6f3717352b1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:45 +0000
Subject: [PATCH 26/33] fix: truncated parameter attributes are reported

---
 src/ParameterObject.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index adc702b..5fab76c 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -94,6 +94,10 @@ namespace eipScanner {
 			Buffer buffer(response.getData());
 			buffer >> dataSize;
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			_value.resize(dataSize);
 			_minValue.resize(dataSize);
 			_maxValue.resize(dataSize);
@@ -143,6 +147,10 @@ namespace eipScanner {
 					buffer >> ignore
 						>> _precision;
 
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
+					}
+
 					std::vector<uint8_t> data;
 					for (int attrId = ParameterObjectAttributeIds::SCALING_MULTIPLIER;
 						 attrId <= ParameterObjectAttributeIds::SCALING_OFFSET;
@@ -157,7 +165,13 @@ namespace eipScanner {
 							throw std::runtime_error("Failed to read value of attribute=" + std::to_string(attrId));
 						}
 
-						data.insert(data.end(), response.getData().begin(), response.getData().end());
+						// Every scaling attribute takes two bytes
+						auto attribute = response.getData();
+						if (attribute.size() < sizeof(CipUint)) {
+							throw std::runtime_error("Not enough data in the response");
+						}
+
+						data.insert(data.end(), attribute.begin(), attribute.begin() + sizeof(CipUint));
 					}
 
 					buffer = Buffer(data);
@@ -167,7 +181,7 @@ namespace eipScanner {
 			}
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 			Logger(LogLevel::DEBUG) << "Read Parameter Object"
@@ -188,8 +202,15 @@ namespace eipScanner {
 								ParameterObjectAttributeIds::VALUE),{});
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
+			std::vector<uint8_t> value(_value.size());
 			Buffer buffer(response.getData());
-			buffer >> _value;
+			buffer >> value;
+
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
+			_value = value;
 		} else {
 			cip::logGeneralAndAdditionalStatus(response);
 			throw std::runtime_error("Failed to read value");
-- 
2.43.0


From fdba88d895637ba60d1e34bd7414c55d71026b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:09 +0000
Subject: [PATCH 27/33] fix: truncated values of fault parameters are reported

---
 src/vendor/ra/powerFlex525/DPIFaultParameter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
index db43afb..94b75bc 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
@@ -169,6 +169,10 @@ namespace powerFlex525 {
 			CipUint value;
 			buffer >> value;
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			return value;
 
 		} else {
-- 
2.43.0


From 5f73470a6d00677eb1d2c45ebc4012c030da16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:12 +0000
Subject: [PATCH 28/33] fix: truncated fault records are reported

---
 src/vendor/ra/powerFlex525/DPIFaultObject.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
index e3f99cb..33266fc 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
@@ -54,6 +54,11 @@ namespace powerFlex525 {
 
             cip::CipUint flags;
             buffer >> flags;
+
+            if (!buffer.isValid()) {
+                throw std::runtime_error("Not enough data in the response");
+            }
+
             _fullInformation.isValidData = flags & VALID_DATA;
             _fullInformation.isRealTime = flags & REAL_TIME;
         } else {
-- 
2.43.0


From 9a730755a4d77d100fdc2085be6f35a54aaa048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 29/33] fix: truncated file states and upload replies are
 reported

---
 src/fileObject/FileObjectLoadedState.cpp | 5 +++++
 src/fileObject/FileObjectState.cpp       | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/fileObject/FileObjectLoadedState.cpp b/src/fileObject/FileObjectLoadedState.cpp
index f078943..70337f6 100644
--- a/src/fileObject/FileObjectLoadedState.cpp
+++ b/src/fileObject/FileObjectLoadedState.cpp
@@ -31,6 +31,11 @@ namespace fileObject {
 			cip::CipUsint transferSize = 0;
 
 			buffer >> fileSize >> transferSize;
+
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			setState<FileObjectUploadInProgressState>(fileSize, transferSize, handler);
 
 		} else {
diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index 84d4bc2..5a13a89 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -64,6 +64,10 @@ namespace fileObject {
 			cip::CipUsint stateCode;
 			buffer >> stateCode;
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			switch (static_cast<FileObjectStateCodes>(stateCode)) {
 				case FileObjectStateCodes::NONEXISTENT:
 					setState<FileObjectNonExistentState>();
-- 
2.43.0


From 8b362c8e08fc084daf2b228633857498c70e8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:19 +0000
Subject: [PATCH 30/33] fix: truncated file transfers are reported

---
 .../FileObjectUploadInProgressState.cpp        | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 0054a26..6770c2f 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -47,6 +47,11 @@ namespace fileObject {
 
 
 			buffer >> transferNumber >> reinterpret_cast<cip::CipUsint&>(transferPacketType);
+
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			logWithStateName(LogLevel::DEBUG,
 					"Receive transfer packet type=" + std::to_string(
 							static_cast<cip::CipUsint>(transferPacketType)));
@@ -62,6 +67,10 @@ namespace fileObject {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
 
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
+					}
+
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
 				}
@@ -69,11 +78,20 @@ namespace fileObject {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
 
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
+					}
+
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
 				}
 				case TransferPacketTypeCodes::LAST:
 				case TransferPacketTypeCodes::FIRST_AND_LAST: {
+					// Transfer number and type, data and CRC
+					if (response.getData().size() < 4) {
+						throw std::runtime_error("Not enough data in the response");
+					}
+
 					std::vector<uint8_t> fileData(response.getData().size() - 4);	//TODO: Check CRC
 					buffer >> fileData;
 
-- 
2.43.0


From 7546af79bb8fd5ed40c43406ab5c0ab0bdd05cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 31/33] fix: an error status ends the upload

---
 src/fileObject/FileObjectUploadInProgressState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 6770c2f..3d3d7ff 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -112,6 +112,7 @@ namespace fileObject {
 		} else {
 			logGeneralAndAdditionalStatus(response);
 			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			return false;
 		}
 
 		return true;
-- 
2.43.0


From e9d5689661677db8c5595dfce36d6b138786d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 32/33] fix: a malformed reply does not end the discovery or
 give a device

---
 src/DiscoveryManager.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/DiscoveryManager.cpp b/src/DiscoveryManager.cpp
index f8a118a..b9c05a6 100644
--- a/src/DiscoveryManager.cpp
+++ b/src/DiscoveryManager.cpp
@@ -19,6 +19,7 @@ namespace eipScanner {
 	using eip::EncapsStatusCodes;
 	using eip::EncapsCommands;
 	using eip::CommonPacket;
+	using eip::CommonPacketItemIds;
 
 	using sockets::EndPoint;
 	using sockets::UDPSocket;
@@ -45,10 +46,24 @@ namespace eipScanner {
 				const size_t EIP_MAX_PACKET_SIZE = 504;
 				auto data = socket->Receive(EIP_MAX_PACKET_SIZE);
 
+				if (data.size() < EncapsPacket::HEADER_SIZE) {
+					Logger(LogLevel::WARNING) << "Ignore too short reply to List Identity";
+					continue;
+				}
+
 				CommonPacket commonPacket;
-				commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				try {
+					commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				} catch (std::runtime_error& er) {
+					Logger(LogLevel::WARNING) << "Ignore malformed reply to List Identity: " << er.what();
+					continue;
+				}
 
 				for (int i=0; i < commonPacket.getItems().size(); ++i) {
+					if (commonPacket.getItems()[i].getTypeId() != CommonPacketItemIds::LIST_IDENTITY) {
+						continue;
+					}
+
 					Buffer buffer(commonPacket.getItems()[i].getData());
 					CipUint ignore;
 					sockets::EndPoint socketAddr("", 0);
@@ -65,6 +80,11 @@ namespace eipScanner {
 						   >> revision >> status
 						   >> serialNumber >> productName;
 
+					if (!buffer.isValid()) {
+						Logger(LogLevel::WARNING) << "Ignore truncated identity item";
+						continue;
+					}
+
 					IdentityObject identityObject(i);
 					identityObject.setVendorId(vendorId);
 					identityObject.setDeviceType(deviceType);
-- 
2.43.0


From fe9f1409cbae79dec450360aaabe07bcb44c9c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 33/33] fix: the product of scaling multiplier and base does
 not overflow

---
 src/ParameterObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 5fab76c..20fba23 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -327,7 +327,7 @@ namespace eipScanner {
 	cip::CipLreal ParameterObject::engToActualValue(cip::CipLreal engValue) const {
 		if (_isScalable) {
 			return (engValue * _scalingDivisor * std::pow(10, _precision))
-				   / (_scalingMultiplier * _scalingBase) - _scalingOffset;
+				   / (static_cast<CipLreal>(_scalingMultiplier) * _scalingBase) - _scalingOffset;
 		} else {
 			return engValue;
 		}
-- 
2.43.0

