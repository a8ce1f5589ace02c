From 0a77d690a01a2d032d0293ca2f47ddb905ec601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 01/23] fix: forward the decoded SLIP frame and drop malformed
 frames from the buffer

The tunnel proxy handed the still escaped frame to the address parser and the
tunneled client, so payloads containing 0xC0 or 0xDB arrived corrupted. A frame
with an invalid escape sequence stayed in the buffer and poisoned all following
frames.
---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 81e9e35..fef01b6 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -79,12 +79,12 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                     continue;
 
                 QByteArray frame = SlipDataProcessor::deserializeData(m_dataBuffer);
+                m_dataBuffer.clear();
                 if (frame.isNull()) {
                     qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
-                    packets.append(m_dataBuffer);
-                    m_dataBuffer.clear();
+                    packets.append(frame);
                 }
             } else {
                 m_dataBuffer.append(data.at(i));
-- 
2.43.0


From 63f6d6e3ca936797e16609ee340a9e13f2161faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 02/23] fix: reject SLIP frames ending within an escape
 sequence

---
 common/slipdataprocessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/slipdataprocessor.cpp b/common/slipdataprocessor.cpp
index a2ab18a..d5f6430 100644
--- a/common/slipdataprocessor.cpp
+++ b/common/slipdataprocessor.cpp
@@ -62,6 +62,11 @@ QByteArray SlipDataProcessor::deserializeData(const QByteArray &data)
         }
     }
 
+    if (escaped) {
+        qWarning() << "Error while deserializing data. The data ended within an escape sequence.";
+        return QByteArray();
+    }
+
     return deserializedData;
 }
 
-- 
2.43.0


From c26b44e608656eba316ee0eb7b6a61100e6b8abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 03/23] fix: never assign a used or reserved socket address to
 a tunnel client

getFreeAddress probed only 100 addresses and then returned an address which was
still in use, or one of the reserved addresses 0x0000 and 0xFFFF. The second
client then replaced the first one in the address table of the server.
---
 .../tunnelproxy/tunnelproxyserver.cpp         | 12 ++++++----
 .../tunnelproxyserverconnection.cpp           | 24 +++++++++++--------
 .../tunnelproxy/tunnelproxyserverconnection.h |  3 +--
 3 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 22737aa..fb06b37 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -170,6 +170,14 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerClient(const QUui
 
 
     // Not registered yet, we have a connected server for the requested server uuid
+    TunnelProxyClientConnection *clientConnection = new TunnelProxyClientConnection(tunnelProxyClient, clientUuid, clientName, this);
+    if (!serverConnection->registerClientConnection(clientConnection)) {
+        qCWarning(dcTunnelProxyServer()) << "There is no free socket address left on" << serverConnection;
+        delete clientConnection;
+        tunnelProxyClient->killConnectionAfterResponse("No free socket address");
+        return TunnelProxyServer::TunnelProxyErrorInternalServerError;
+    }
+
     tunnelProxyClient->setType(TunnelProxyClient::TypeClient);
     tunnelProxyClient->setUuid(clientUuid);
     tunnelProxyClient->setName(clientName);
@@ -178,11 +186,7 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerClient(const QUui
     // Make sure it does not get disconnected any more because due to inactivity.
     tunnelProxyClient->activateClient();
 
-    TunnelProxyClientConnection *clientConnection = new TunnelProxyClientConnection(tunnelProxyClient, clientUuid, clientName, this);
-    clientConnection->setServerConnection(serverConnection);
     m_tunnelProxyClientConnections.insert(clientUuid, clientConnection);
-
-    serverConnection->registerClientConnection(clientConnection);
     qCDebug(dcTunnelProxyServer()) << "New client connection registered successfully" << clientConnection << "-->" << serverConnection;;
 
     // Tell the server a new client want's to connect
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
index 0eb8690..eb81d00 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
@@ -60,13 +60,17 @@ QList<TunnelProxyClientConnection *> TunnelProxyServerConnection::clientConnecti
     return m_clientConnections.values();
 }
 
-void TunnelProxyServerConnection::registerClientConnection(TunnelProxyClientConnection *clientConnection)
+bool TunnelProxyServerConnection::registerClientConnection(TunnelProxyClientConnection *clientConnection)
 {
     quint16 socketAddress = getFreeAddress();
+    if (socketAddress == 0xFFFF)
+        return false;
+
     clientConnection->setSocketAddress(socketAddress);
     clientConnection->setServerConnection(this);
     m_clientConnectionsAddresses.insert(socketAddress, clientConnection);
     m_clientConnections.insert(clientConnection->clientUuid(), clientConnection);
+    return true;
 }
 
 void TunnelProxyServerConnection::unregisterClientConnection(TunnelProxyClientConnection *clientConnection)
@@ -84,18 +88,18 @@ TunnelProxyClientConnection *TunnelProxyServerConnection::getClientConnection(qu
 
 quint16 TunnelProxyServerConnection::getFreeAddress()
 {
-    m_currentAddressCounter += 1;
-    quint16 address = m_currentAddressCounter;
-    for (int i = 0; i < m_connectionLimit; i++) {
-        if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
-            address++;
-        } else {
-            break;
+    // Note: 0x0000 is reserved for the JSON RPC server and 0xFFFF means there is no address assigned
+    for (int i = 0; i <= 0xFFFF; i++) {
+        m_currentAddressCounter += 1;
+        if (m_currentAddressCounter == 0x0000 || m_currentAddressCounter == 0xFFFF)
+            continue;
+
+        if (!m_clientConnectionsAddresses.contains(m_currentAddressCounter)) {
+            return m_currentAddressCounter;
         }
     }
 
-    Q_ASSERT_X(!m_clientConnectionsAddresses.contains(address), "TunnelProxyServerConnection", "no free address but the maximum of connections has been reached.");
-    return address;
+    return 0xFFFF;
 }
 
 QDebug operator<<(QDebug debug, TunnelProxyServerConnection *serverConnection)
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
index 17f62cc..8714bd3 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
@@ -50,7 +50,7 @@ public:
 
     QList<TunnelProxyClientConnection *> clientConnections() const;
 
-    void registerClientConnection(TunnelProxyClientConnection *clientConnection);
+    bool registerClientConnection(TunnelProxyClientConnection *clientConnection);
     void unregisterClientConnection(TunnelProxyClientConnection *clientConnection);
 
     TunnelProxyClientConnection *getClientConnection(quint16 socketAddress);
@@ -59,7 +59,6 @@ private:
     TransportClient *m_transportClient = nullptr;
     QUuid m_serverUuid;
     QString m_serverName;
-    quint16 m_connectionLimit = 100;
 
     quint16 m_currentAddressCounter = 0;
 
-- 
2.43.0


From bf357e4dc0965f776852f8188b6586c958b66934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 04/23] fix: do not truncate the socket address of a disconnect
 request

A request for socket address 65537 disconnected the client with address 1.
---
 libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp    | 2 +-
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp | 8 ++++++--
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h   | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
index beea4c9..3f3a930 100644
--- a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
+++ b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
@@ -121,7 +121,7 @@ JsonReply *TunnelProxyHandler::RegisterServer(const QVariantMap &params, Transpo
 JsonReply *TunnelProxyHandler::DisconnectClient(const QVariantMap &params, TransportClient *transportClient)
 {
     qCDebug(dcJsonRpc()) << name() << "disconnect client requested" << params << transportClient;
-    quint16 socketAddress = static_cast<quint16>(params.value("socketAddress").toUInt());
+    quint32 socketAddress = params.value("socketAddress").toUInt();
     TunnelProxyServer::TunnelProxyError error = Engine::instance()->tunnelProxyServer()->disconnectClient(transportClient->clientId(), socketAddress);
 
     QVariantMap response;
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index fb06b37..22c9ac4 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -202,7 +202,7 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerClient(const QUui
     return TunnelProxyServer::TunnelProxyErrorNoError;
 }
 
-TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient(const QUuid &clientId, quint16 socketAddress)
+TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient(const QUuid &clientId, quint32 socketAddress)
 {
     TunnelProxyClient *tunnelProxyClient = m_proxyClients.value(clientId);
     if (!tunnelProxyClient) {
@@ -223,7 +223,11 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient(const QU
         return TunnelProxyServer::TunnelProxyErrorInternalServerError;
     }
 
-    TunnelProxyClientConnection *clientConnection = serverConnection->getClientConnection(socketAddress);
+    // Note: a value which does not fit into a socket address must not be truncated to the address of an other client
+    TunnelProxyClientConnection *clientConnection = nullptr;
+    if (socketAddress <= 0xFFFF)
+        clientConnection = serverConnection->getClientConnection(static_cast<quint16>(socketAddress));
+
     if (!clientConnection) {
         qCWarning(dcTunnelProxyServer()) << "Could not find client connection for socket address" << socketAddress << "on" << serverConnection;
         return TunnelProxyServer::TunnelProxyErrorUnknownSocketAddress;
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h
index 15ec820..707ef03 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h
@@ -65,7 +65,7 @@ public:
 
     TunnelProxyServer::TunnelProxyError registerServer(const QUuid &clientId, const QUuid &serverUuid, const QString &serverName);
     TunnelProxyServer::TunnelProxyError registerClient(const QUuid &clientId, const QUuid &clientUuid, const QString &clientName, const QUuid &serverUuid);
-    TunnelProxyServer::TunnelProxyError disconnectClient(const QUuid &clientId, quint16 socketAddress);
+    TunnelProxyServer::TunnelProxyError disconnectClient(const QUuid &clientId, quint32 socketAddress);
 
     QVariantMap currentStatistics(bool printAll = false);
 
-- 
2.43.0


From ea6386a2757167f54ac2dae0d37b2ef9987bc049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 05/23] fix: delete disconnected unix socket clients

---
 libnymea-remoteproxy/server/unixsocketserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 7eb959a..abb46e7 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -140,6 +140,7 @@ void UnixSocketServer::onClientConnected()
         if (m_clientList.take(clientId)) {
             emit clientDisconnected(clientId);
         }
+        client->deleteLater();
     });
     connect(client, &QLocalSocket::readyRead, this, [this, client, clientId](){
         QByteArray data = client->readAll();
-- 
2.43.0


From a9f035d5cee316df0c325ffdeb7bc2975ef953f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 06/23] fix: match replies by a unique command id and never
 take a notification as reply

The command id was never incremented, so concurrent requests replaced each
other, and a notification with the id of a pending request finished it.
---
 .../proxyjsonrpcclient.cpp                       | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 84ec7f8..93b4788 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -48,7 +48,7 @@ JsonReply *JsonRpcClient::callHello()
     JsonReply *reply = new JsonReply(m_commandId, "RemoteProxy", "Hello", QVariantMap(), this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -61,7 +61,7 @@ JsonReply *JsonRpcClient::callRegisterServer(const QUuid &serverUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterServer", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -75,7 +75,7 @@ JsonReply *JsonRpcClient::callRegisterClient(const QUuid &clientUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -87,7 +87,7 @@ JsonReply *JsonRpcClient::callDisconnectClient(quint16 socketAddress)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "DisconnectClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -99,7 +99,7 @@ JsonReply *JsonRpcClient::callPing(uint timestamp)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "Ping", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -133,7 +133,11 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
 
     // check if this is a reply to a request
     int commandId = dataMap.value("id").toInt();
-    JsonReply *reply = m_replies.take(commandId);
+    // Note: the ids of notifications are counted by the server independently from the ids of our requests
+    JsonReply *reply = nullptr;
+    if (!dataMap.contains("notification"))
+        reply = m_replies.take(commandId);
+
     if (reply) {
         qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
 
-- 
2.43.0


From 2f3c8bf2932bccf6505a455672cc4b7d23fa1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 07/23] fix: ignore the signals of a replaced proxy connection

The old connection emits its disconnected signals when it gets deleted, which
tore down the new connection created in the meantime.
---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp                 | 2 ++
 .../tunnelproxy/tunnelproxysocketserver.cpp                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 43274af..9c5f277 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -301,6 +301,8 @@ void TunnelProxyRemoteConnection::cleanUp()
     }
 
     if (m_connection) {
+        // Note: the signals of this connection must not affect the next connection any more
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 8cda6e7..122d234 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -457,6 +457,8 @@ void TunnelProxySocketServer::cleanUp()
     }
 
     if (m_connection) {
+        // Note: the signals of this connection must not affect the next connection any more
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
-- 
2.43.0


From 4e63bc863140add2ba31fe40bd018fdf522be936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 08/23] fix: do not use the proxy connection after it has been
 closed

---
 libnymea-remoteproxy/server/websocketserver.cpp   |  5 ++++-
 .../tunnelproxy/tunnelproxyremoteconnection.cpp   |  6 ++++--
 .../tunnelproxy/tunnelproxysocketserver.cpp       | 15 +++++++++++++--
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index c7eefa5..7ac6ea7 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -128,7 +128,10 @@ void WebSocketServer::onClientDisconnected()
     // Manually close it in any case
     client->close();
 
-    m_clientList.take(clientId)->deleteLater();
+    if (!m_clientList.take(clientId))
+        return;
+
+    client->deleteLater();
     emit clientDisconnected(clientId);
 }
 
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 9c5f277..b42e832 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -74,12 +74,14 @@ QAbstractSocket::SocketError TunnelProxyRemoteConnection::error() const
 
 void TunnelProxyRemoteConnection::ignoreSslErrors()
 {
-    m_connection->ignoreSslErrors();
+    if (m_connection)
+        m_connection->ignoreSslErrors();
 }
 
 void TunnelProxyRemoteConnection::ignoreSslErrors(const QList<QSslError> &errors)
 {
-    m_connection->ignoreSslErrors(errors);
+    if (m_connection)
+        m_connection->ignoreSslErrors(errors);
 }
 
 QUrl TunnelProxyRemoteConnection::serverUrl() const
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 122d234..e7f53a5 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -81,12 +81,14 @@ TunnelProxySocketServer::State TunnelProxySocketServer::state() const
 
 void TunnelProxySocketServer::ignoreSslErrors()
 {
-    m_connection->ignoreSslErrors();
+    if (m_connection)
+        m_connection->ignoreSslErrors();
 }
 
 void TunnelProxySocketServer::ignoreSslErrors(const QList<QSslError> &errors)
 {
-    m_connection->ignoreSslErrors(errors);
+    if (m_connection)
+        m_connection->ignoreSslErrors(errors);
 }
 
 QUrl TunnelProxySocketServer::serverUrl() const
@@ -200,6 +202,10 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 
     // Parse SLIP frame
     for (int i = 0; i < data.length(); i++) {
+        // The connection might have been closed while processing the previous frame
+        if (!m_jsonClient)
+            return;
+
         quint8 byte = static_cast<quint8>(data.at(i));
         if (byte == SlipDataProcessor::ProtocolByteEnd) {
             // If there is no data...continue since it might be a starting END byte
@@ -346,6 +352,11 @@ void TunnelProxySocketServer::requestSocketDisconnect(quint16 socketAddress)
     TunnelProxySocket *socket = m_tunnelProxySockets.value(socketAddress);
     qCDebug(dcTunnelProxySocketServer()) << "Request to disconnect socket" << socket;
 
+    if (!m_jsonClient) {
+        qCWarning(dcTunnelProxySocketServer()) << "Could not request the socket disconnect. Not connected.";
+        return;
+    }
+
     JsonReply *reply = m_jsonClient->callDisconnectClient(socketAddress);
     connect(reply, &JsonReply::finished, this, [=](){
         reply->deleteLater();
-- 
2.43.0


From 218493addaf3893c42a61a3f2be3dc4a9a04c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 09/23] fix: do not process any data of a connection after it
 has been killed

The packets following a fatal one in the same read, and everything received
until a web socket finished its closing handshake, were still processed.
---
 libnymea-remoteproxy/server/jsonrpcserver.cpp          | 4 ++++
 libnymea-remoteproxy/server/transportclient.cpp        | 6 ++++++
 libnymea-remoteproxy/server/transportclient.h          | 4 ++++
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp | 9 +++++++++
 4 files changed, 23 insertions(+)

diff --git a/libnymea-remoteproxy/server/jsonrpcserver.cpp b/libnymea-remoteproxy/server/jsonrpcserver.cpp
index fa46c44..12862e7 100644
--- a/libnymea-remoteproxy/server/jsonrpcserver.cpp
+++ b/libnymea-remoteproxy/server/jsonrpcserver.cpp
@@ -403,6 +403,10 @@ void JsonRpcServer::processData(TransportClient *transportClient, const QByteArr
     }
 
     foreach (const QByteArray &packet, packets) {
+        // The connection might have been killed while processing the previous packet
+        if (transportClient->connectionKilled())
+            return;
+
         processDataPacket(transportClient, packet);
     }
 }
diff --git a/libnymea-remoteproxy/server/transportclient.cpp b/libnymea-remoteproxy/server/transportclient.cpp
index 3736f9d..c509e74 100644
--- a/libnymea-remoteproxy/server/transportclient.cpp
+++ b/libnymea-remoteproxy/server/transportclient.cpp
@@ -77,6 +77,11 @@ QString TransportClient::killConnectionReason() const
     return m_killConnectionReason;
 }
 
+bool TransportClient::connectionKilled() const
+{
+    return m_connectionKilled;
+}
+
 void TransportClient::enableSlipAfterResponse()
 {
     m_slipAfterResponseEnabled = true;
@@ -173,6 +178,7 @@ void TransportClient::killConnection(const QString &reason)
     if (!m_interface)
         return;
 
+    m_connectionKilled = true;
     m_interface->killClientConnection(m_clientId, reason);
 }
 
diff --git a/libnymea-remoteproxy/server/transportclient.h b/libnymea-remoteproxy/server/transportclient.h
index 4bd6ef7..7d1c400 100644
--- a/libnymea-remoteproxy/server/transportclient.h
+++ b/libnymea-remoteproxy/server/transportclient.h
@@ -55,6 +55,9 @@ public:
     bool killConnectionRequested() const;
     QString killConnectionReason() const;
 
+    // True once the connection has been killed, nothing from this client must be processed any more
+    bool connectionKilled() const;
+
     // Schedule SLIP enable after response
     void enableSlipAfterResponse();
     bool slipAfterResponseEnabled() const;
@@ -105,6 +108,7 @@ protected:
 
     bool m_killConnectionRequested = false;
     QString m_killConnectionReason;
+    bool m_connectionKilled = false;
 
     bool m_slipAfterResponseEnabled = false;
     bool m_slipEnabled = false;
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 22c9ac4..672c096 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -383,6 +383,11 @@ void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByte
         return;
     }
 
+    if (tunnelProxyClient->connectionKilled()) {
+        qCDebug(dcTunnelProxyServer()) << "Ignoring data from a killed connection" << tunnelProxyClient;
+        return;
+    }
+
     qCDebug(dcTunnelProxyServerTraffic()) << "Client data available" << tunnelProxyClient << qUtf8Printable(data);
     tunnelProxyClient->addRxDataCount(data.count());
 
@@ -416,6 +421,10 @@ void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByte
             // Handle packet fragmentation
             QList<QByteArray> frames = tunnelProxyClient->processData(data);
             foreach (const QByteArray &frameData, frames) {
+                // The connection might have been killed while processing the previous frame
+                if (tunnelProxyClient->connectionKilled())
+                    return;
+
                 SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);
 
                 if (frame.socketAddress == 0x0000) {
-- 
2.43.0


From d6b7293a821df4ab6a22f5757b1c11fd31456fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 10/23] fix: do not report a stopped engine as running

Stopping the engine before the event loop delivered the queued setRunning call
of start() left the engine running without any server.
---
 libnymea-remoteproxy/engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxy/engine.cpp b/libnymea-remoteproxy/engine.cpp
index 8777293..06788b8 100644
--- a/libnymea-remoteproxy/engine.cpp
+++ b/libnymea-remoteproxy/engine.cpp
@@ -250,6 +250,10 @@ void Engine::setRunning(bool running)
     if (m_running == running)
         return;
 
+    // Note: the engine might have been stopped before the queued call from start() has been delivered
+    if (running && !m_tunnelProxyServer)
+        return;
+
     if (m_tunnelProxyServer)
         m_tunnelProxyServer->setRunning(running);
 
-- 
2.43.0


From 27abb87c31244c790db63ccb25f8f186c19c657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 11/23] fix: client library must not cut a message at a closing
 brace

---
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 93b4788..1e629ca 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -189,7 +189,9 @@ void JsonRpcClient::processData(const QByteArray &data)
         m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
         splitIndex = m_dataBuffer.indexOf("}\n{");
     }
-    if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
+    // Note: the server terminates each message with a newline, a closing brace at the end of
+    // the available data is not necessarily the end of the message.
+    if (m_dataBuffer.endsWith("}\n")) {
         processDataPacket(m_dataBuffer);
         m_dataBuffer.clear();
     }
-- 
2.43.0


From d60787d2e615a647171a846dda6e8c8a89576da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:39 +0000
Subject: [PATCH 12/23] fix: shut down from the event loop instead of the
 signal handler

The handler destroyed the engine, wrote to sockets and allocated memory while
interrupting arbitrary code; a signal received within malloc or while an object
was being modified could deadlock or corrupt the process. The handler now only
writes the signal number to a socket pair, the shutdown is done by the event loop.
---
 server/remoteproxyserverapplication.cpp | 72 +++++++++++++++++--------
 server/remoteproxyserverapplication.h   |  7 ++-
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/server/remoteproxyserverapplication.cpp b/server/remoteproxyserverapplication.cpp
index 2370cb5..7d93fa2 100644
--- a/server/remoteproxyserverapplication.cpp
+++ b/server/remoteproxyserverapplication.cpp
@@ -26,42 +26,31 @@
 #include "loggingcategories.h"
 #include "engine.h"
 
+#include <errno.h>
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/socket.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <cxxabi.h>
 
 using namespace remoteproxy;
 
+// The signal handler wakes up the event loop using this socket pair
+static int s_signalSockets[2] = { -1, -1 };
+
 static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vector<int>& ignoreSignals = std::vector<int>())
 {
     auto handler = [](int sig) ->void {
-        switch (sig) {
-        case SIGQUIT:
-            qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
-            break;
-        case SIGINT:
-            qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
-            break;
-        case SIGTERM:
-            qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
-            break;
-        case SIGHUP:
-            qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
-            break;
-        default:
-            break;
+        // Note: a signal interrupts the application at any point, only async-signal-safe functions are allowed in here.
+        int savedErrno = errno;
+        char signalNumber = static_cast<char>(sig);
+        if (write(s_signalSockets[0], &signalNumber, sizeof(signalNumber)) < 0) {
+            // There is already a shutdown pending
         }
-
-        qCDebug(dcApplication()) << "==========================================================";
-        qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
-        qCDebug(dcApplication()) << "==========================================================";
-
-        Engine::instance()->destroy();
-        RemoteProxyServerApplication::quit();
+        errno = savedErrno;
     };
 
     // all these signals will be ignored.
@@ -75,5 +64,44 @@ static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vec
 RemoteProxyServerApplication::RemoteProxyServerApplication(int &argc, char **argv) :
     QCoreApplication(argc, argv)
 {
+    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, s_signalSockets) != 0) {
+        qCWarning(dcApplication()) << "Could not create the socket pair for the signal handling. The default signal handlers will be used.";
+        return;
+    }
+
+    m_signalNotifier = new QSocketNotifier(s_signalSockets[1], QSocketNotifier::Read, this);
+    connect(m_signalNotifier, SIGNAL(activated(int)), this, SLOT(onSignalReceived()));
+
     catchUnixSignals({SIGQUIT, SIGINT, SIGTERM, SIGHUP});
 }
+
+void RemoteProxyServerApplication::onSignalReceived()
+{
+    char signalNumber = 0;
+    if (read(s_signalSockets[1], &signalNumber, sizeof(signalNumber)) != sizeof(signalNumber))
+        return;
+
+    switch (signalNumber) {
+    case SIGQUIT:
+        qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
+        break;
+    case SIGINT:
+        qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
+        break;
+    case SIGTERM:
+        qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
+        break;
+    case SIGHUP:
+        qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
+        break;
+    default:
+        break;
+    }
+
+    qCDebug(dcApplication()) << "==========================================================";
+    qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
+    qCDebug(dcApplication()) << "==========================================================";
+
+    Engine::instance()->destroy();
+    quit();
+}
diff --git a/server/remoteproxyserverapplication.h b/server/remoteproxyserverapplication.h
index 9c53d20..4850db3 100644
--- a/server/remoteproxyserverapplication.h
+++ b/server/remoteproxyserverapplication.h
@@ -35,9 +35,12 @@ class RemoteProxyServerApplication : public QCoreApplication
 public:
     explicit RemoteProxyServerApplication(int &argc, char **argv);
 
-signals:
+private:
+    QSocketNotifier *m_signalNotifier = nullptr;
+
+private slots:
+    void onSignalReceived();
 
-public slots:
 };
 
 #endif // REMOTEPROXYSERVERAPPLICATION_H
-- 
2.43.0


From 54ec6ed91a5d9dc3bbe2229f492c0cef05a1571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:52 +0000
Subject: [PATCH 13/23] fix: monitor lost updates when the data of the server
 was split or merged

The end of a message was searched in the last chunk only and at most one message
was taken per read. A chunk ending between "}" and the line break, or two messages
within one chunk, produced an invalid JSON document and the updates got lost.
---
 monitor/monitorclient.cpp | 24 ++++++++++--------------
 monitor/monitorclient.h   |  2 +-
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index c1ec45b..6981681 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -50,10 +50,10 @@ void MonitorClient::setPrintAll(bool printAll)
     m_printAll = printAll;
 }
 
-void MonitorClient::processBufferData()
+void MonitorClient::processData(const QByteArray &data)
 {
     QJsonParseError error;
-    QJsonDocument jsonDoc = QJsonDocument::fromJson(m_dataBuffer, &error);
+    QJsonDocument jsonDoc = QJsonDocument::fromJson(data, &error);
     if(error.error != QJsonParseError::NoError) {
         qWarning() << "Failed to parse JSON data:" << error.errorString();
         return;
@@ -85,18 +85,14 @@ void MonitorClient::onDisconnected()
 void MonitorClient::onReadyRead()
 {
     // Note: the server sends the data compact with "\n" at the end
-    QByteArray data = m_socket->readAll();
-
-    int index = data.indexOf("}\n");
-    if (index < 0) {
-        // Append the entire data and continue
-        m_dataBuffer.append(data);
-        return;
-    } else {
-        m_dataBuffer.append(data.left(index + 1));
-        processBufferData();
-        m_dataBuffer.clear();
-        m_dataBuffer.append(data.right(data.length() - index - 2));
+    m_dataBuffer.append(m_socket->readAll());
+
+    int index = m_dataBuffer.indexOf("}\n");
+    while (index >= 0) {
+        QByteArray data = m_dataBuffer.left(index + 1);
+        m_dataBuffer.remove(0, index + 2);
+        processData(data);
+        index = m_dataBuffer.indexOf("}\n");
     }
 }
 
diff --git a/monitor/monitorclient.h b/monitor/monitorclient.h
index 113b3df..1293be7 100644
--- a/monitor/monitorclient.h
+++ b/monitor/monitorclient.h
@@ -48,7 +48,7 @@ private:
     bool m_printAll = false;
     QByteArray m_dataBuffer;
 
-    void processBufferData();
+    void processData(const QByteArray &data);
 
 signals:
     void connected();
-- 
2.43.0


From c76275660cd33cfcb13a6dde994f7aaf53324eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:52 +0000
Subject: [PATCH 14/23] fix: monitor printed the traffic of the server for each
 of its clients

---
 monitor/noninteractivemonitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index f149bc7..cf41d42 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
-- 
2.43.0


From 9134e252f56cc9560703ead9533cc4a9ce049eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:52 +0000
Subject: [PATCH 15/23] fix: monitor reported a failure after printing the JSON
 data

---
 monitor/monitorclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index 6981681..d6dfa40 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -63,7 +63,7 @@ void MonitorClient::processData(const QByteArray &data)
         qStdOut() << qUtf8Printable(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
         QTextStream out(stdout);
         out.flush();
-        exit(EXIT_FAILURE);
+        exit(EXIT_SUCCESS);
     }
 
     QVariantMap dataMap = jsonDoc.toVariant().toMap();
-- 
2.43.0


From f4d7a5d12c5fe2513984554eaa9b6ca3ef43d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 16/23] fix: monitor cut the traffic counters of a connection
 to 32 bit

---
 monitor/noninteractivemonitor.cpp |  8 ++++----
 monitor/terminalwindow.cpp        | 14 +++++++-------
 monitor/utils.h                   |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index cf41d42..1b9c7e5 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -78,8 +78,8 @@ void NonInteractiveMonitor::onConnected()
                     .arg(serverConnectionTime)
                     .arg(serverMap.value("serverUuid").toString())
                     .arg(serverMap.value("address").toString(), - 15)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toULongLong()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toULongLong()), - 9)
                     .arg(serverMap.value("name").toString());
 
             qStdOut() << serverLinePrint << "\n";
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toULongLong()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toULongLong()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index 182c988..6399167 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -194,8 +194,8 @@ void TerminalWindow::paintContentClients()
         uint timeStamp = clientMap.value("timestamp").toUInt();
         QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
-        int rxDataCountBytes = clientMap.value("rxDataCount").toInt();
-        int txDataCountBytes = clientMap.value("txDataCount").toInt();
+        quint64 rxDataCountBytes = clientMap.value("rxDataCount").toULongLong();
+        quint64 txDataCountBytes = clientMap.value("txDataCount").toULongLong();
 
         QString clientPrint = QString("%1 | %2 | %3 | RX: %4 | TX: %5 | %6 | %7 | %8")
                 .arg(clientConnectionTime)
@@ -228,7 +228,7 @@ void TerminalWindow::paintContentTunnels()
         QString tunnelPrint = QString("%1 | %2 | %3 | %4 | %5 (%6) <---> %7 (%8)")
                 .arg(tunnelConnectionTime)
                 .arg(Utils::getDurationString(timeStamp))
-                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toInt() + clientOne.value("txDataCount").toInt()), - 10)
+                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toULongLong() + clientOne.value("txDataCount").toULongLong()), - 10)
                 .arg(clientOne.value("userName").toString())
                 .arg(clientOne.value("name").toString())
                 .arg(clientOne.value("address").toString())
@@ -250,8 +250,8 @@ void TerminalWindow::paintContentTunnelProxy()
         QVariantMap serverMap = serverVariant.toMap();
         uint timeStamp = serverMap.value("timestamp").toUInt();
         QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
-        int rxDataCountBytes = serverMap.value("rxDataCount").toInt();
-        int txDataCountBytes = serverMap.value("txDataCount").toInt();
+        quint64 rxDataCountBytes = serverMap.value("rxDataCount").toULongLong();
+        quint64 txDataCountBytes = serverMap.value("txDataCount").toULongLong();
         QString serverLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                 .arg(serverConnectionTime)
                 .arg(serverMap.value("address").toString(), - 16)
@@ -286,8 +286,8 @@ void TerminalWindow::paintContentTunnelProxy()
             QString clientLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                     .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toULongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                     .arg(clientMap.value("address").toString(), - 16)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 10)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toULongLong()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toULongLong()), - 10)
                     .arg(clientMap.value("name").toString(), -30);
 
             mvwprintw(m_contentWindow, i, 6, "%s", clientLinePrint.trimmed().toLatin1().constData());
diff --git a/monitor/utils.h b/monitor/utils.h
index 5a121c4..c78dfb0 100644
--- a/monitor/utils.h
+++ b/monitor/utils.h
@@ -49,8 +49,8 @@ public:
         return QString::asprintf("%02d:%02d:%02d", hours, minutes, seconds);
     }
 
-    inline static QString humanReadableTraffic(int bytes) {
-        double dataCount = bytes;
+    inline static QString humanReadableTraffic(quint64 bytes) {
+        double dataCount = static_cast<double>(bytes);
         QStringList list;
         list << "KB" << "MB" << "GB" << "TB";
 
-- 
2.43.0


From 92ec422d35baed3adfebdcaa472f65c6a439631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 17/23] fix: monitor window showed a wrong connection time (32
 bit overflow)

---
 monitor/terminalwindow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index 6399167..136a6c9 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -191,7 +191,7 @@ void TerminalWindow::paintContentClients()
     foreach (const QVariant &clientVariant, m_clientHash.values()) {
         QVariantMap clientMap = clientVariant.toMap();
 
-        uint timeStamp = clientMap.value("timestamp").toUInt();
+        qint64 timeStamp = clientMap.value("timestamp").toLongLong();
         QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
         quint64 rxDataCountBytes = clientMap.value("rxDataCount").toULongLong();
@@ -222,7 +222,7 @@ void TerminalWindow::paintContentTunnels()
         QVariantMap clientTwo = m_clientHash.value(tunnelMap.value("clientTwo").toString());
 
         // Tunnel time
-        uint timeStamp = tunnelMap.value("timestamp").toUInt();
+        qint64 timeStamp = tunnelMap.value("timestamp").toLongLong();
         QString tunnelConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
         QString tunnelPrint = QString("%1 | %2 | %3 | %4 | %5 (%6) <---> %7 (%8)")
@@ -248,7 +248,7 @@ void TerminalWindow::paintContentTunnelProxy()
 
     foreach (const QVariant &serverVariant, tunnelProxyMap.value("tunnelConnections").toList()) {
         QVariantMap serverMap = serverVariant.toMap();
-        uint timeStamp = serverMap.value("timestamp").toUInt();
+        qint64 timeStamp = serverMap.value("timestamp").toLongLong();
         QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
         quint64 rxDataCountBytes = serverMap.value("rxDataCount").toULongLong();
         quint64 txDataCountBytes = serverMap.value("txDataCount").toULongLong();
-- 
2.43.0


From ea43ddf4b4953548c982f7e112fec62ff8b179ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:01 +0000
Subject: [PATCH 18/23] fix: answers pending for a departed connection were
 only dropped once

A connection with more than one unanswered asynchronous request left
all but one of them filed under its deleted client object, which was
then used to send the answer.
---
 libnymea-remoteproxy/server/jsonrpcserver.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/server/jsonrpcserver.cpp b/libnymea-remoteproxy/server/jsonrpcserver.cpp
index 12862e7..e0afb26 100644
--- a/libnymea-remoteproxy/server/jsonrpcserver.cpp
+++ b/libnymea-remoteproxy/server/jsonrpcserver.cpp
@@ -377,9 +377,8 @@ void JsonRpcServer::unregisterClient(TransportClient *transportClient)
 
     m_clients.removeAll(transportClient);
 
-    if (m_asyncReplies.values().contains(transportClient)) {
+    foreach (JsonReply *reply, m_asyncReplies.keys(transportClient)) {
         qCWarning(dcJsonRpc()) << "Client was still waiting for a reply. Clean up reply";
-        JsonReply *reply = m_asyncReplies.key(transportClient);
         m_asyncReplies.remove(reply);
         // Note: the reply will be deleted in the finished slot
     }
-- 
2.43.0


From a37e91ff60e7dabe8e085e61a214bffab6ffa9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:44 +0000
Subject: [PATCH 19/23] fix: tunnel data received together with the
 registration response was lost

---
 .../proxyjsonrpcclient.cpp                    | 26 ++++++++++++-------
 .../proxyjsonrpcclient.h                      |  3 +++
 .../tunnelproxyremoteconnection.cpp           |  7 +++++
 .../tunnelproxy/tunnelproxysocketserver.cpp   |  9 ++++++-
 4 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 1e629ca..dd30f1e 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -103,6 +103,13 @@ JsonReply *JsonRpcClient::callPing(uint timestamp)
     return reply;
 }
 
+QByteArray JsonRpcClient::takeBufferedData()
+{
+    QByteArray data = m_dataBuffer;
+    m_dataBuffer.clear();
+    return data;
+}
+
 void JsonRpcClient::sendRequest(const QVariantMap &request, bool slipEnabled)
 {
     QByteArray data = QJsonDocument::fromVariant(request).toJson(QJsonDocument::Compact) + "\n";
@@ -182,18 +189,17 @@ void JsonRpcClient::processData(const QByteArray &data)
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Received data:" << data;
 
     // Handle packet fragmentation
+    // Note: the server terminates each message with a newline, a closing brace at the end of
+    // the available data is not necessarily the end of the message. The message gets removed from
+    // the buffer before it will be processed, since the data behind the response of a successfull
+    // registration already belongs to the tunnel (see takeBufferedData).
     m_dataBuffer.append(data);
-    int splitIndex = m_dataBuffer.indexOf("}\n{");
+    int splitIndex = m_dataBuffer.indexOf("}\n");
     while (splitIndex > -1) {
-        processDataPacket(m_dataBuffer.left(splitIndex + 1));
-        m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
-        splitIndex = m_dataBuffer.indexOf("}\n{");
-    }
-    // Note: the server terminates each message with a newline, a closing brace at the end of
-    // the available data is not necessarily the end of the message.
-    if (m_dataBuffer.endsWith("}\n")) {
-        processDataPacket(m_dataBuffer);
-        m_dataBuffer.clear();
+        QByteArray packet = m_dataBuffer.left(splitIndex + 2);
+        m_dataBuffer = m_dataBuffer.mid(splitIndex + 2);
+        processDataPacket(packet);
+        splitIndex = m_dataBuffer.indexOf("}\n");
     }
 }
 
diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.h b/libnymea-remoteproxyclient/proxyjsonrpcclient.h
index 9427349..f4aed74 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.h
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.h
@@ -56,6 +56,9 @@ public:
     JsonReply *callDisconnectClient(quint16 socketAddress);
     JsonReply *callPing(uint timestamp);
 
+    // Returns the data received behind the last message and removes it from the buffer
+    QByteArray takeBufferedData();
+
 private:
     ProxyConnection *m_connection = nullptr;
 
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index b42e832..3c2c25c 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -265,6 +265,13 @@ void TunnelProxyRemoteConnection::onClientRegistrationFinished()
 
     qCDebug(dcTunnelProxyRemoteConnection()) << "Registered successfully as tunnel client on the remote proxy server.";
     setState(StateRemoteConnected);
+
+    // Everything received behind the response already belongs to the tunnel
+    if (m_jsonClient) {
+        QByteArray data = m_jsonClient->takeBufferedData();
+        if (!data.isEmpty())
+            onConnectionDataAvailable(data);
+    }
 }
 
 void TunnelProxyRemoteConnection::setState(State state)
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index e7f53a5..39cd388 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -195,8 +195,8 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
     m_keepAliveTimer.start();
 
     if (m_state != StateRunning) {
-        m_jsonClient->processData(data);
         m_dataBuffer.clear();
+        m_jsonClient->processData(data);
         return;
     }
 
@@ -323,6 +323,13 @@ void TunnelProxySocketServer::onServerRegistrationFinished()
     qCDebug(dcTunnelProxySocketServer()) << "Registered successfully as tunnel server on the remote proxy server.";
     setState(StateRunning);
     m_serverError = ErrorNoError;
+
+    // Everything received behind the response already belongs to the tunnel
+    if (m_jsonClient) {
+        QByteArray data = m_jsonClient->takeBufferedData();
+        if (!data.isEmpty())
+            onConnectionDataAvailable(data);
+    }
 }
 
 void TunnelProxySocketServer::onTunnelProxyClientConnected(const QString &clientName, const QUuid &clientUuid, const QString &clientPeerAddress, quint16 socketAddress)
-- 
2.43.0


From 41e09f2ae01f41600591e5a950b1453be1a5d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:38 +0000
Subject: [PATCH 20/23] fix: tunnel server did not reconnect if the first
 attempt failed at once

---
 .../tunnelproxy/tunnelproxysocketserver.cpp                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 39cd388..1b2c622 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -149,9 +149,11 @@ bool TunnelProxySocketServer::startServer(const QUrl &serverUrl)
     connect(m_jsonClient, &JsonRpcClient::tunnelProxyClientConnected, this, &TunnelProxySocketServer::onTunnelProxyClientConnected);
     connect(m_jsonClient, &JsonRpcClient::tunnelProxyClientDisonnected, this, &TunnelProxySocketServer::onTunnelProxyClientDisconnected);
 
+    // Note: the connection attempt can fail right away, the reconnect needs this to be set by then
+    m_enabled = true;
+
     qCDebug(dcTunnelProxySocketServer()) << "Connecting to" << m_serverUrl.toString();
     m_connection->connectServer(m_serverUrl);
-    m_enabled = true;
 
     return true;
 }
-- 
2.43.0


From 0ffc0b28f6fb0529f14b25d38fa5b8efad852ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:00 +0000
Subject: [PATCH 21/23] fix: send random data in the tunnel client only when it
 was asked for

---
 tunnelclient/clientconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tunnelclient/clientconnection.cpp b/tunnelclient/clientconnection.cpp
index 8d0bb16..71f0a47 100644
--- a/tunnelclient/clientconnection.cpp
+++ b/tunnelclient/clientconnection.cpp
@@ -55,7 +55,7 @@ ClientConnection::ClientConnection(const QUrl &serverUrl, const QString &name, c
 
     connect(m_remoteConnection, &TunnelProxyRemoteConnection::remoteConnectedChanged, this, [this](bool remoteConnected){
         qDebug() << "Remote connection" << (remoteConnected ? "established successfully" : "disconnected");
-        if (remoteConnected) {
+        if (remoteConnected && m_sendRandomData) {
             m_timer.start(1000);
         }
     });
-- 
2.43.0


From 8c845ee4d6e1e0628581c580b36bcc9317694c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:00 +0000
Subject: [PATCH 22/23] fix: print the monitor's JSON output without mangling
 non-ASCII text

---
 monitor/monitorclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index d6dfa40..4592d55 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -60,7 +60,7 @@ void MonitorClient::processData(const QByteArray &data)
     }
 
     if (m_jsonMode) {
-        qStdOut() << qUtf8Printable(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
+        qStdOut() << QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
         QTextStream out(stdout);
         out.flush();
         exit(EXIT_SUCCESS);
-- 
2.43.0


From 11d6184c10ec2e6c255eddd84c93075943c8d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:50 +0000
Subject: [PATCH 23/23] fix: log unexpected binary messages at debug level like
 all other data

---
 libnymea-remoteproxy/server/websocketserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index 7ac6ea7..426744d 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -145,7 +145,7 @@ void WebSocketServer::onTextMessageReceived(const QString &message)
 void WebSocketServer::onBinaryMessageReceived(const QByteArray &data)
 {
     QWebSocket *client = static_cast<QWebSocket *>(sender());
-    qCWarning(dcWebSocketServerTraffic()) << "<-- Binary message from" << client->peerAddress().toString() << ":" << data;
+    qCDebug(dcWebSocketServerTraffic()) << "<-- Binary message from" << client->peerAddress().toString() << ":" << data;
     // Note: this is not expected, so close this client connection.
     client->close(QWebSocketProtocol::CloseCodeBadOperation, "Binary message not expected.");
 }
-- 
2.43.0

