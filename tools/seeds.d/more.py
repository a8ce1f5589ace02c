L = "libnymea-remoteproxy/"
C = "libnymea-remoteproxyclient/"
J = L + "server/jsonrpcserver.cpp"
HDR = '''// link: client
#include "fakeproxy.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
using namespace remoteproxyclient;
'''
F = ["fakeproxy.h"]
SEEDS = [
 dict(id="empty-namespace", property="N04",
  edits=[(J, "    if (!handler) {\n", "    if (!handler && !targetNamespace.isEmpty()) {\n")],
  needs="a request whose method has an empty namespace",
  breaks="the handler which was not found is used: the server crashes",
  py='''
from proxylib import *
with Proxy() as p:
    c = p.connect()
    r = c.call(".Hello")
    time.sleep(0.3)
    if not p.alive(): fail("server died")
    if r is None or r.get("status") != "error": fail("no error: %r" % r)
    if not c.closed(): fail("not closed")
print("ok")
'''),
 dict(id="ping-timestamp-signed", property="I02",
  edits=[(L + "jsonrpc/tunnelproxyhandler.cpp", 'response.insert("timestamp", params.value("timestamp"));', 'response.insert("timestamp", params.value("timestamp").toInt());')],
  needs="a ping with a timestamp beyond 2147483647",
  breaks="the timestamp comes back changed",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    for t in (1, 1700000000, 2147483648, 4294967295):
        r = s.call("TunnelProxy.Ping", {"timestamp": t})
        if r is None or int(r["params"]["timestamp"]) != t: fail("ping %d: %r" % (t, r))
print("ok")
'''),
 dict(id="parse-error-unframed", property="J04",
  edits=[(J, """    QByteArray data = QJsonDocument::fromVariant(errorResponse).toJson(QJsonDocument::Compact);
    qCDebug(dcJsonRpcTraffic()) << "Sending data:" << data;
    if (client->slipEnabled()) {""", """    QByteArray data = QJsonDocument::fromVariant(errorResponse).toJson(QJsonDocument::Compact);
    qCDebug(dcJsonRpcTraffic()) << "Sending data:" << data;
    if (client->slipEnabled() && commandId > 0) {""")],
  needs="a registered server sending a request without usable id (or with id 0) that is refused",
  breaks="the error response to a framed connection is sent without frame",
  py='''
from proxylib import *
with Proxy() as p:
    for junk in (b"garbage\\n", b"{}\\n", b'{"id":0,"method":"A.b"}\\n'):
        s = p.server()
        s.send(enc(0, junk))
        f = s.frame()
        if f is None or f[0] != 0: fail("no frame: %r" % (s.buf,))
        if json.loads(f[1])["status"] != "error": fail("no error")
        if not s.closed(): fail("not closed")
print("ok")
'''),
 dict(id="handshake-timeout", property="S01",
  edits=[(L + "server/tcpsocketserver.cpp", """within" << (m_timer.interval() / 1000) << "seconds. Terminate connection";
        close();""", """within" << (m_timer.interval() / 1000) << "seconds. Terminate connection";
        if (mode() == QSslSocket::UnencryptedMode)
            close();""")],
  needs="TLS enabled and a client that never completes the handshake",
  breaks="such a connection is never closed: startServerEncryption has already switched the mode",
  py='''
from proxylib import *
with Proxy(ssl=True) as p:
    c = p.connect()
    if not c.closed(12): fail("connection without handshake not closed")
    c = p.connect()
    c.send(b"\\x16\\x03\\x01")
    if not c.closed(12): fail("connection with half a handshake not closed")
print("ok")
'''),
 dict(id="total-count-registered", property="M02",
  edits=[(L + "tunnelproxy/tunnelproxyserver.cpp", 'statisticsMap.insert("totalClientCount", m_proxyClients.count());',
          'statisticsMap.insert("totalClientCount", m_tunnelProxyServerConnections.count() + m_tunnelProxyClientConnections.count());')],
  needs="a connection that has not registered (yet)",
  breaks="the total count of the statistics leaves out connections which are not registered",
  py='''
from proxylib import *
def stats(p):
    m = socket.socket(socket.AF_UNIX); m.connect(p.monitor); m.settimeout(3)
    m.sendall(json.dumps({"method": "refresh", "params": {"printAll": True}}).encode() + b"\\n")
    buf = b""
    while b"\\n" not in buf: buf += m.recv(65536)
    return json.loads(buf)["tunnelProxyStatistic"]
with Proxy() as p:
    s = p.server(); a = p.client(s.uuid, "a")
    time.sleep(0.3)
    n = stats(p)["totalClientCount"]
    x = p.connect(); y = p.connect(unix=True)
    time.sleep(0.3)
    st = stats(p)
    if st["totalClientCount"] != n + 2: fail("total count %r, before %r" % (st["totalClientCount"], n))
    if st["serverConnectionsCount"] != 1 or st["clientConnectionsCount"] != 1: fail("counts %r" % st)
print("ok")
'''),
 dict(id="request-id-reused", property="C01",
  edits=[(C + "proxyjsonrpcclient.cpp", """    sendRequest(reply->requestMap(), true);
    m_replies.insert(m_commandId++, reply);
    return reply;
}

JsonReply *JsonRpcClient::callPing""", """    sendRequest(reply->requestMap(), true);
    m_replies.insert(m_commandId, reply);
    return reply;
}

JsonReply *JsonRpcClient::callPing""")],
  needs="two disconnect requests on their way at the same time",
  breaks="both use the same id, the first one is never completed",
  files=F, cpp=HDR + '''
#include "proxyjsonrpcclient.h"
#include "jsonreply.h"
#include "tcpsocketconnection.h"
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy; QList<QVariantMap> asked;
    proxy.handler = [&](FakeProxy::Peer *p, const QVariantMap &m) {
        asked.append(m);
    };
    TcpSocketConnection con; con.connectServer(proxy.url());
    JsonRpcClient client(&con);
    QObject::connect(&con, &ProxyConnection::dataReceived, [&](const QByteArray &d) { client.processData(d); });
    if (!waitFor([&]() { return con.connected() && !proxy.peers.isEmpty(); })) FAIL("not connected");
    proxy.peers[0]->framed = true;
    int fa = 0, fb = 0;
    JsonReply *a = client.callDisconnectClient(1), *b = client.callDisconnectClient(2);
    QObject::connect(a, &JsonReply::finished, [&]() { fa++; });
    QObject::connect(b, &JsonReply::finished, [&]() { fb++; });
    if (!waitFor([&]() { return asked.size() == 2; })) FAIL("requests not received");
    // the library's socket server unpacks the frames, here the management client gets the messages directly
    proxy.peers[0]->framed = false;
    FakeProxy::Peer *p = proxy.peers[0];
    QVariantMap r0 = proxy.requests[0], r1 = proxy.requests[1];
    if (r0.value("id") == r1.value("id")) FAIL("same id");
    proxy.answer(p, r1, {{"tunnelProxyError", "B"}}); proxy.answer(p, r0, {{"tunnelProxyError", "A"}});
    if (!waitFor([&]() { return fa == 1 && fb == 1; })) FAIL("completed %d %d", fa, fb);
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="keepalive-first-ping-only", property="C03",
  edits=[(C + "tunnelproxy/tunnelproxysocketserver.cpp", """    m_keepAliveTimer.setInterval(30000);
    m_keepAliveTimer.setSingleShot(false);""", """    m_keepAliveTimer.setInterval(30000);
    m_keepAliveTimer.setSingleShot(true);""")],
  needs="a ping whose answer does not arrive (every received byte restarts the timer)",
  breaks="no further ping is sent",
  files=F, cpp=HDR + '''
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    proxy.handler = [&](FakeProxy::Peer *p, const QVariantMap &m) { if (m.value("method").toString() != "TunnelProxy.Ping") proxy.answer(p, m); };
    TunnelProxySocketServer s(QUuid::createUuid(), "x", TunnelProxySocketServer::ConnectionTypeTcpSocket);
    s.startServer(proxy.url());
    if (!waitFor([&]() { return s.running(); })) FAIL("not running");
    if (!waitFor([&]() { return proxy.count("TunnelProxy.Ping") >= 2; }, 70000)) FAIL("%d pings", proxy.count("TunnelProxy.Ping"));
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="sockets-survive-loss", property="C04",
  edits=[(C + "tunnelproxy/tunnelproxysocketserver.cpp", """    foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {
        onTunnelProxyClientDisconnected(socketAddress);
    }
""", """    for (auto it = m_tunnelProxySockets.constBegin(); it != m_tunnelProxySockets.constEnd(); ++it) {
        it.value()->setDisconnected();
        emit clientDisconnected(it.value());
        it.value()->deleteLater();
    }
""")],
  needs="a lost connection with clients and then a second one",
  breaks="the sockets of the lost connection stay in the table and are reported (and deleted) again",
  files=F, cpp=HDR + '''
#include "tunnelproxy/tunnelproxysocket.h"
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    TunnelProxySocketServer s(QUuid::createUuid(), "x", TunnelProxySocketServer::ConnectionTypeTcpSocket);
    int gone = 0, come = 0;
    QObject::connect(&s, &TunnelProxySocketServer::clientConnected, [&]() { come++; });
    QObject::connect(&s, &TunnelProxySocketServer::clientDisconnected, [&]() { gone++; });
    s.startServer(proxy.url());
    if (!waitFor([&]() { return s.running() && !proxy.peers.isEmpty(); })) FAIL("not running");
    proxy.notify(proxy.peers[0], "ClientConnected", {{"clientName", "a"}, {"clientUuid", QUuid::createUuid().toString()}, {"clientPeerAddress", "127.0.0.1"}, {"socketAddress", 7}});
    if (!waitFor([&]() { return come == 1; })) FAIL("client not reported");
    proxy.peers[0]->socket->close();
    if (!waitFor([&]() { return gone == 1; })) FAIL("loss not reported");
    if (!waitFor([&]() { return s.running() && proxy.accepted == 2; }, 15000)) FAIL("not running again");
    s.stopServer();
    spin(500);
    if (gone != 1) FAIL("departure reported %d times", gone);
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="hello-failure-hangs", property="C02",
  edits=[(C + "tunnelproxy/tunnelproxyremoteconnection.cpp", """        qCWarning(dcTunnelProxyRemoteConnection()) << "JSON RPC error. Failed to register as tunnel client on the remote proxy server.";
        m_connection->disconnectServer();
        return;""", """        qCWarning(dcTunnelProxyRemoteConnection()) << "JSON RPC error. Failed to register as tunnel client on the remote proxy server.";
        setState(StateConnected);
        return;""")],
  needs="a proxy that answers the registration with a JSON RPC error and keeps the connection",
  breaks="the failed connection stays open",
  files=F, cpp=HDR + '''
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    proxy.handler = [&](FakeProxy::Peer *p, const QVariantMap &m) {
        if (m.value("method").toString() == "TunnelProxy.RegisterClient") proxy.send(p, QVariantMap{{"id", m.value("id")}, {"status", "error"}, {"error", "no"}});
        else proxy.answer(p, m);
    };
    TunnelProxyRemoteConnection r(QUuid::createUuid(), "x", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    r.connectServer(proxy.url(), QUuid::createUuid());
    if (!waitFor([&]() { return proxy.count("TunnelProxy.RegisterClient") == 1; })) FAIL("no registration");
    if (!waitFor([&]() { return proxy.peers[0]->socket->state() == QAbstractSocket::UnconnectedState; })) FAIL("still connected");
    if (!waitFor([&]() { return r.state() == TunnelProxyRemoteConnection::StateDisconnected; })) FAIL("state %d", (int)r.state());
    printf("ok\\n");
    return 0;
}
'''),
]
