L = "libnymea-remoteproxy/"
C = "libnymea-remoteproxyclient/"
J = L + "server/jsonrpcserver.cpp"
TS = L + "tunnelproxy/tunnelproxyserver.cpp"
SS = C + "tunnelproxy/tunnelproxysocketserver.cpp"
HDR = '''// link: client
#include "fakeproxy.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
using namespace remoteproxyclient;
'''
F = ["fakeproxy.h"]
SEEDS = [
 dict(id="dead-timer-by-sent-data", property="K01",
  edits=[(L + "tunnelproxy/tunnelproxyclient.cpp", "connect(this, &TransportClient::rxDataCountChanged, this, [this](){", "connect(this, &TransportClient::txDataCountChanged, this, [this](){")],
  needs="a registered server that only sends for more than a minute",
  breaks="the inactivity timer of a server is restarted by data sent to it instead of data received from it",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    end = time.time() + 75
    while time.time() < end:
        s.send(enc(77, b"to nobody"))
        if s.closed(5): fail("a sending server has been closed")
    if s.call("TunnelProxy.Ping", {"timestamp": 1}) is None: fail("no answer")
print("ok")
'''),
 dict(id="peer-address-of-server", property="A04",
  edits=[(TS, 'params.insert("clientPeerAddress", tunnelProxyClient->peerAddress().toString());',
              'params.insert("clientPeerAddress", serverConnection->transportClient()->peerAddress().toString());')],
  needs="a client connecting from an other address than its server",
  breaks="the announcement carries the address of the server",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    c = p.connect(); c.s.close()
    c.s = socket.create_connection(("127.0.0.1", p.port), source_address=("127.0.0.2", 0)); c.eof = False
    u = str(uuid.uuid4())
    c.call("TunnelProxy.RegisterClient", {"clientName": "c", "clientUuid": u, "serverUuid": s.uuid})
    n = s.notification("ClientConnected")
    if n is None or "127.0.0.2" not in n["clientPeerAddress"]: fail("announced as %r" % n)
print("ok")
'''),
 dict(id="unix-partial-read", property="X01",
  edits=[(L + "server/unixsocketserver.cpp", "QByteArray data = client->readAll();", "QByteArray data = client->read(16 * 1024);")],
  needs="more than 16 KiB waiting when the socket is read, and nothing sent afterwards",
  breaks="the rest of the data stays in the socket",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    c = p.client(s.uuid, "c", unix=True)
    a = s.notification("ClientConnected")["socketAddress"]
    os.kill(p.p.pid, 19)
    data = bytes(i % 251 for i in range(100000))
    c.s.settimeout(5); c.s.sendall(data)
    os.kill(p.p.pid, 18)
    got = b""
    for f in s.frames(1.5):
        if f[0] == a: got += f[1]
    if got != data: fail("%d of %d bytes arrived" % (len(got), len(data)))
print("ok")
'''),
 dict(id="unix-waits-for-peer", property="N01",
  edits=[(L + "server/unixsocketserver.cpp", "    client->flush();\n}", "    client->flush();\n    if (client->bytesToWrite() > 0)\n        client->waitForBytesWritten(10000);\n}")],
  needs="a client on the unix socket that does not read",
  breaks="the whole server waits for that client",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    c = p.client(s.uuid, "c", unix=True)
    a = s.notification("ClientConnected")["socketAddress"]
    o = p.server("other")
    s.s.settimeout(1)
    f = enc(a, b"x" * 60000)
    try:
        for _ in range(40): s.s.sendall(f)
    except OSError: pass
    t = time.time()
    if o.call("TunnelProxy.Ping", {"timestamp": 1}, 4) is None: fail("the server does not answer others")
print("ok")
'''),
 dict(id="null-value-valid", property="J02",
  edits=[(L + "jsonrpc/jsontypes.cpp", "return report(value.canConvert(QVariant::UInt), errorString);", "return report(value.isNull() || value.canConvert(QVariant::UInt), errorString);")],
  needs="a request with null for an unsigned parameter",
  breaks="the method is executed with a value that is not of its type",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    r = s.call("TunnelProxy.Ping", {"timestamp": None})
    if r is None or r["status"] != "error": fail("executed: %r" % r)
    if not s.closed(): fail("not closed")
print("ok")
'''),
 dict(id="invalid-params-tolerated-for-servers", property="J03",
  edits=[(J, """        sendErrorResponse(transportClient, commandId,  "Invalid params: " + validationResult.second);
        transportClient->killConnection("Invalid params passed.");""", """        sendErrorResponse(transportClient, commandId,  "Invalid params: " + validationResult.second);
        if (!transportClient->slipEnabled())
            transportClient->killConnection("Invalid params passed.");""")],
  needs="a registered server sending invalid parameters",
  breaks="its connection is not closed",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    r = s.call("TunnelProxy.DisconnectClient", {"foo": 1})
    if r is None or r["status"] != "error": fail("executed: %r" % r)
    if not s.closed(): fail("not closed")
print("ok")
'''),
 dict(id="error-without-id", property="J01",
  edits=[(J, """        sendErrorResponse(transportClient, commandId, "No such method");""", """        sendErrorResponse(transportClient, handler->name() == targetNamespace.trimmed() && method.isEmpty() ? -1 : commandId, "No such method");""")],
  needs="a request with an empty method name in a known namespace",
  breaks="the error response does not carry the id of its request",
  py='''
from proxylib import *
with Proxy() as p:
    for m in ("TunnelProxy.foo", "TunnelProxy.", "RemoteProxy."):
        c = p.connect()
        i = c.request(m)
        r = c.line()
        if r is None or r["id"] != i or r["status"] != "error": fail("%s: %r" % (m, r))
print("ok")
'''),
 dict(id="plain-unless-known-scheme", property="S02",
  edits=[(C + "tcpsocketconnection.cpp", 'if (m_serverUrl.scheme() == "tcp") {', 'if (m_serverUrl.scheme() != "ssl") {')],
  needs="a url with an other scheme than tcp and ssl",
  breaks="the library connects unencrypted although the url does not ask for it",
  files=F, cpp=HDR + '''
int main(int c, char **v) {
    QCoreApplication app(c, v);
    for (const QString &scheme : {"ssl", "tls", "tcps", "wss"}) {
        FakeProxy proxy;
        QUrl url = proxy.url(); url.setScheme(scheme);
        TunnelProxyRemoteConnection r(QUuid::createUuid(), "x", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
        r.connectServer(url, QUuid::createUuid());
        if (!waitFor([&]() { return !proxy.peers.isEmpty(); })) FAIL("no connection for %s", qPrintable(scheme));
        spin(700);
        if (!proxy.requests.isEmpty()) FAIL("unencrypted request for %s", qPrintable(scheme));
        r.disconnectServer();
    }
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="malformed-frame-kept", property="T04",
  edits=[(SS, """                        emit tunnlProxySocket->dataReceived(frame.data);
                    }
                }
            }

            m_dataBuffer.clear();""", """                        emit tunnlProxySocket->dataReceived(frame.data);
                    }
                }
                m_dataBuffer.clear();
            }
""")],
  needs="a malformed frame in front of a good one",
  breaks="the malformed frame stays in the buffer and spoils all frames behind it",
  files=F, cpp=HDR + '''
#include "tunnelproxy/tunnelproxysocket.h"
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    TunnelProxySocketServer s(QUuid::createUuid(), "x", TunnelProxySocketServer::ConnectionTypeTcpSocket);
    QByteArray got; bool come = false;
    QObject::connect(&s, &TunnelProxySocketServer::clientConnected, [&](TunnelProxySocket *k) { come = true; QObject::connect(k, &TunnelProxySocket::dataReceived, [&](const QByteArray &d) { got += d; }); });
    s.startServer(proxy.url());
    if (!waitFor([&]() { return s.running() && !proxy.peers.isEmpty(); })) FAIL("not running");
    proxy.notify(proxy.peers[0], "ClientConnected", {{"clientName", "a"}, {"clientUuid", QUuid::createUuid().toString()}, {"clientPeerAddress", "127.0.0.1"}, {"socketAddress", 7}});
    if (!waitFor([&]() { return come; })) FAIL("client not reported");
    QTcpSocket *k = proxy.peers[0]->socket;
    k->write(FakeProxy::frame(7, "one")); k->write(QByteArray("\\x00\\x07zz\\xDBzz\\xC0", 8)); k->write(FakeProxy::frame(7, "two")); k->flush();
    waitFor([&]() { return got == "onetwo"; }, 1500);
    if (got != "onetwo") FAIL("received %s", got.constData());
    s.stopServer();
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="connection-leak", property="C05",
  edits=[(C + "tunnelproxy/tunnelproxyremoteconnection.cpp", "        m_connection->deleteLater();\n", "        m_connection->disconnectServer();\n")],
  needs="connecting again",
  breaks="every replaced connection object (and its socket) is kept forever",
  files=F, cpp=HDR + '''
#include "proxyconnection.h"
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    TunnelProxyRemoteConnection r(QUuid::createUuid(), "x", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    for (int i = 0; i < 5; i++) {
        r.connectServer(proxy.url(), QUuid::createUuid());
        if (!waitFor([&]() { return r.remoteConnected(); })) FAIL("not connected");
        spin(50);
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        int n = 0;
        for (QObject *o : r.children()) if (o->inherits("remoteproxyclient::ProxyConnection")) n++;
        if (n != 1) FAIL("%d connection objects", n);
    }
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="default-follows-other-setting", property="S03",
  edits=[(L + "proxyconfiguration.cpp", 'setInactiveTimeout(settings.value("inactiveTimeout", 8000).toInt());', 'setInactiveTimeout(settings.value("inactiveTimeout", jsonRpcTimeout()).toInt());')],
  needs="a configuration without inactiveTimeout",
  breaks="the setting has not its documented default",
  cpp='''
// link: server
#include <QtCore>
#include "proxyconfiguration.h"
using namespace remoteproxy;
int main(int c, char **v) {
    QCoreApplication app(c, v);
    QFile f("c.conf"); f.open(QIODevice::WriteOnly); f.write("[ProxyServer]\\nname=x\\njsonRpcTimeout=2500\\n"); f.close();
    ProxyConfiguration conf;
    conf.loadConfiguration("c.conf");
    if (conf.inactiveTimeout() != 8000) { printf("FAIL: inactive timeout %d\\n", conf.inactiveTimeout()); return 1; }
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="stopped-engine-keeps-running", property="E01",
  edits=[(L + "engine.cpp", """    if (m_monitorServer) {
        m_monitorServer->stopServer();
        delete m_monitorServer;
        m_monitorServer = nullptr;
    }
""", """    if (m_monitorServer && m_running) {
        m_monitorServer->stopServer();
        delete m_monitorServer;
        m_monitorServer = nullptr;
    }
""")],
  needs="stopping the engine before the queued start has been delivered",
  breaks="the monitor server stays, its socket keeps answering with data of a stopped engine",
  cpp='''
// link: server
#include <QtCore>
#include <QtNetwork>
#include "engine.h"
using namespace remoteproxy;
int main(int c, char **v) {
    QCoreApplication app(c, v);
    for (int round = 0; round < 2; round++) {
        ProxyConfiguration *conf = new ProxyConfiguration;
        conf->setSslEnabled(false);
        conf->setMonitorSocketFileName(QDir::currentPath() + "/m.sock"); conf->setUnixSocketFileName(QDir::currentPath() + "/u.sock");
        conf->setWebSocketServerTunnelProxyHost(QHostAddress("127.0.0.1")); conf->setWebSocketServerTunnelProxyPort(0);
        conf->setTcpServerTunnelProxyHost(QHostAddress("127.0.0.1")); conf->setTcpServerTunnelProxyPort(0);
        Engine::instance()->start(conf);
        if (round) QCoreApplication::processEvents();
        Engine::instance()->stop();
        QCoreApplication::processEvents();
        if (Engine::instance()->monitorServer()) { printf("FAIL: monitor server left\\n"); _Exit(1); }
        QLocalSocket s; s.connectToServer(QDir::currentPath() + "/m.sock");
        if (s.waitForConnected(500)) { printf("FAIL: monitor socket open\\n"); _Exit(1); }
    }
    Engine::instance()->destroy();
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="monitor-answer-broadcast", property="M01",
  edits=[(L + "server/monitorserver.cpp", """            sendMonitorData(clientConnection, Engine::instance()->buildMonitorData(printAll));""",
          """            updateClients(Engine::instance()->buildMonitorData(printAll));""")],
  needs="two monitors at the same time",
  breaks="the answer for one monitor goes to all monitors",
  py='''
from proxylib import *
with Proxy() as p:
    ms = []
    for _ in range(2):
        m = socket.socket(socket.AF_UNIX); m.connect(p.monitor); m.settimeout(1); ms.append(m)
    def ask(m):
        m.sendall(json.dumps({"method": "refresh"}).encode() + b"\\n")
        b = b""
        while b"\\n" not in b: b += m.recv(65536)
        return json.loads(b)
    ask(ms[0]); ask(ms[1])
    ask(ms[0])
    try:
        if ms[1].recv(65536): fail("unasked data")
    except socket.timeout: pass
print("ok")
'''),
]
