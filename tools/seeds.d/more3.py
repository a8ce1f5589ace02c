L = "libnymea-remoteproxy/"
C = "libnymea-remoteproxyclient/"
J = L + "server/jsonrpcserver.cpp"
TS = L + "tunnelproxy/tunnelproxyserver.cpp"
TC = L + "tunnelproxy/tunnelproxyserverconnection.cpp"
PC = L + "tunnelproxy/tunnelproxyclient.cpp"
SS = C + "tunnelproxy/tunnelproxysocketserver.cpp"
RC = C + "tunnelproxy/tunnelproxyremoteconnection.cpp"
HDR = '''// link: client
#include "fakeproxy.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
using namespace remoteproxyclient;
'''
F = ["fakeproxy.h"]
FAKEMON = '''
import json, os, shutil, socket, subprocess, sys, tempfile, threading
REPO = os.getcwd()
def monitor(data, *args):
    d = tempfile.mkdtemp(prefix="mondemo")
    try:
        s = socket.socket(socket.AF_UNIX); s.bind(d + "/m"); s.listen(1)
        def run():
            c, _ = s.accept(); c.recv(1000); c.sendall(json.dumps(data, separators=(",", ":")).encode() + b"\\n"); c.recv(1000)
        threading.Thread(target=run, daemon=True).start()
        exe = os.path.join(REPO, "_build/monitor/nymea-remoteproxy-monitor")
        return subprocess.run([exe, "-s", d + "/m"] + list(args), capture_output=True, timeout=20,
                              env=dict(os.environ, LC_ALL="C.UTF-8", LD_LIBRARY_PATH=REPO + "/_build/libnymea-remoteproxy")).stdout.decode()
    finally:
        shutil.rmtree(d, ignore_errors=True)
'''
SEEDS = [
 dict(id="nul-truncated", property="T01",
  edits=[(TS, "        frame.data = data;\n", "        frame.data = QByteArray(data.constData());\n")],
  needs="a zero byte in the data of a client", breaks="everything behind a zero byte is lost on the way to the server",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    a = p.client(s.uuid)
    addr = s.notification("ClientConnected")["socketAddress"]
    a.send(b"ab\\0cd")
    f = s.frame()
    if f != (addr, b"ab\\0cd"): fail(f)
print("ok")
'''),
 dict(id="send-before-registered", property="T05",
  edits=[(RC, """    if (!remoteConnected()) {
        qCWarning(dcTunnelProxyRemoteConnection()) << "Could not send data. Not connected.";""", """    if (!m_connection || !m_connection->connected()) {
        qCWarning(dcTunnelProxyRemoteConnection()) << "Could not send data. Not connected.";""")],
  needs="sendData() between the connection and the end of the registration", breaks="tunnel data is sent before the tunnel exists and is taken for a request",
  files=F, cpp=HDR + '''
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    TunnelProxyRemoteConnection r(QUuid::createUuid(), "x", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    bool sent = false;
    QObject::connect(&r, &TunnelProxyRemoteConnection::stateChanged, [&](TunnelProxyRemoteConnection::State s) { if (s == TunnelProxyRemoteConnection::StateRegister) sent = r.sendData("early"); });
    r.connectServer(proxy.url(), QUuid::createUuid());
    waitFor([&]() { return r.remoteConnected(); }, 1500);
    if (sent) FAIL("data was sent before the tunnel exists");
    if (!r.remoteConnected()) FAIL("not connected");
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="half-frame-survives-connection", property="T06",
  edits=[(SS, "        m_dataBuffer.clear();\n        m_jsonClient->processData(data);\n        return;", "        m_jsonClient->processData(data);\n        return;")],
  needs="a connection lost in the middle of a frame and a new one", breaks="the half frame of the old connection is put in front of the first frame of the new one",
  files=F, cpp=HDR + '''
#include "tunnelproxy/tunnelproxysocket.h"
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    TunnelProxySocketServer s(QUuid::createUuid(), "x", TunnelProxySocketServer::ConnectionTypeTcpSocket);
    bool come = false;
    QObject::connect(&s, &TunnelProxySocketServer::clientConnected, [&](TunnelProxySocket *) { come = true; });
    s.startServer(proxy.url());
    if (!waitFor([&]() { return s.running() && !proxy.peers.isEmpty(); })) FAIL("not running");
    proxy.peers[0]->socket->write(QByteArray("\\x00\\x07half", 6)); proxy.peers[0]->socket->flush();
    spin(200);
    s.stopServer();
    if (!waitFor([&]() { return !s.running(); })) FAIL("still running");
    s.startServer(proxy.url());
    if (!waitFor([&]() { return s.running() && proxy.peers.size() == 2; })) FAIL("not running again");
    proxy.notify(proxy.peers[1], "ClientConnected", {{"clientName", "a"}, {"clientUuid", QUuid::createUuid().toString()}, {"clientPeerAddress", "127.0.0.1"}, {"socketAddress", 7}});
    if (!waitFor([&]() { return come; }, 1500)) FAIL("the first frame of the new connection is lost");
    s.stopServer();
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="split-continues-behind", property="J06",
  edits=[(PC, """            m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
            splitIndex = m_dataBuffer.indexOf("}\\n{");""", """            m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
            splitIndex = m_dataBuffer.indexOf("}\\n{", splitIndex);""")],
  needs="three requests in one read, a long one first", breaks="requests behind a longer one are not told apart and refused",
  py='''
from proxylib import *
with Proxy() as p:
    c = p.connect()
    r = [json.dumps({"id": i, "method": "RemoteProxy.Hello", "params": {}, "pad": "x" * n}).encode() for i, n in ((1, 200), (2, 0), (3, 0))]
    c.send(b"\\n".join(r) + b"\\n")
    for i in (1, 2, 3):
        l = c.line()
        if l is None or l["id"] != i or l["status"] != "success": fail("%d: %r" % (i, l))
print("ok")
'''),
 dict(id="notification-described-wrong", property="I01",
  edits=[(L + "jsonrpc/tunnelproxyhandler.cpp", '    params.insert("clientPeerAddress", JsonTypes::basicTypeToString(JsonTypes::String));\n', '    params.insert("clientAddress", JsonTypes::basicTypeToString(JsonTypes::String));\n')],
  needs="a reader of the description of the API", breaks="a notification is described with a value it does not carry",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    c = p.connect()
    d = c.call("RemoteProxy.Introspect")["params"]["notifications"]
    d = [v for k, v in d.items() if k.endswith("ClientConnected")][0]["params"]
    p.client(s.uuid)
    n = s.notification("ClientConnected")
    if set(n) != set(d): fail("described %r, sent %r" % (sorted(d), sorted(n)))
print("ok")
'''),
 dict(id="back-pressure-drops", property="X02",
  edits=[(C + "tcpsocketconnection.cpp", "    m_tcpSocket->write(data);\n", "    if (m_tcpSocket->bytesToWrite() < 1024 * 1024)\n        m_tcpSocket->write(data);\n")],
  needs="a peer which reads slower than the application sends", breaks="data is silently dropped",
  files=F, cpp=HDR + '''
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    TunnelProxyRemoteConnection r(QUuid::createUuid(), "x", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    r.connectServer(proxy.url(), QUuid::createUuid());
    if (!waitFor([&]() { return r.remoteConnected(); })) FAIL("not connected");
    QObject::disconnect(proxy.peers[0]->socket, &QTcpSocket::readyRead, nullptr, nullptr);
    qint64 got = 0;
    QTcpSocket *k = proxy.peers[0]->socket;
    QByteArray block(256 * 1024, 'x');
    for (int i = 0; i < 80; i++) if (!r.sendData(block)) FAIL("refused");
    QObject::connect(k, &QTcpSocket::readyRead, [&]() { got += k->readAll().size(); });
    got += k->readAll().size();
    waitFor([&]() { return got == 80 * qint64(block.size()); }, 10000);
    if (got != 80 * qint64(block.size())) FAIL("%lld bytes of %lld arrived", got, 80 * qint64(block.size()));
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="limit-per-read", property="K02",
  edits=[(J, "    if (transportClient->bufferSize() > 1024 * 10) {", "    if (data.size() > 1024 * 10) {")],
  needs="an endless request sent in small pieces", breaks="a connection can make the server buffer as much as it wants",
  py='''
from proxylib import *
with Proxy() as p:
    c = p.connect()
    for i in range(60):
        c.send(b"x" * 1000)
        time.sleep(0.01)
    if not c.closed(2): fail("60 kB are buffered")
print("ok")
'''),
 dict(id="empty-frame-ends-client", property="K03",
  edits=[(TS, "                    clientConnection->transportClient()->sendData(frame.data);\n", """                    clientConnection->transportClient()->sendData(frame.data);
                    if (frame.data.isEmpty())
                        clientConnection->transportClient()->killConnection("End of data");
""")],
  needs="an empty frame for a client", breaks="forwarding closes a connection",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    a = p.client(s.uuid)
    addr = s.notification("ClientConnected")["socketAddress"]
    s.send(enc(addr, b"")); s.send(enc(addr, b"hello"))
    if a.recv(5) != b"hello": fail("the client was disconnected: %r" % a.buf)
print("ok")
'''),
 dict(id="name-before-markers", property="M03",
  edits=[("monitor/noninteractivemonitor.cpp", 'serverLinePrint += QString("%1 | %2 | %3 RX: %4 TX: %5 | %6")\n                    .arg(serverConnectionTime)', 'serverLinePrint += QString("%2 | %3 | %4 RX: %5 TX: %6 | %1")\n                    .arg(serverMap.value("name").toString())\n                    .arg(serverConnectionTime)'),
         ("monitor/noninteractivemonitor.cpp", ', - 9)\n                    .arg(serverMap.value("name").toString());', ', - 9);')],
  needs="a server with a place marker in its name", breaks="the row of the server is garbled and shows values in the wrong columns",
  py=FAKEMON + '''
row = {"id": "i", "address": "1.2.3.4", "timestamp": 1700000000, "name": "disk 90%2", "serverUuid": "{u}", "rxDataCount": 1, "txDataCount": 2, "clientConnections": []}
out = monitor({"serverName": "s", "tunnelProxyStatistic": {"tunnelConnections": [row]}}, "-n")
line = [l for l in out.splitlines() if "1.2.3.4" in l]
if len(line) != 1 or "disk 90%2" not in line[0] or line[0].index("{u}") > line[0].index("1.2.3.4"): print("FAIL", out); sys.exit(1)
print("ok")
'''),
 dict(id="ignored-signal-stays-ignored", property="N02",
  edits=[("server/remoteproxyserverapplication.cpp", "        signal(sig, handler);\n", "        if (signal(sig, SIG_IGN) != SIG_IGN)\n            signal(sig, handler);\n")],
  needs="a server started in the background of a shell, which ignores SIGINT", breaks="the signal does not reach the event loop",
  py='''
import signal
from proxylib import *
signal.signal(signal.SIGINT, signal.SIG_IGN)
with Proxy() as p:
    p.p.send_signal(signal.SIGINT)
    for i in range(60):
        if not p.alive(): break
        time.sleep(0.1)
    if p.alive(): fail("the server does not end")
print("ok")
'''),
 dict(id="random-means-insecure", property="S04",
  edits=[("tunnelclient/main.cpp", "new ServerConnection(serverUrl, name, uuid, parser.isSet(insecureOption), parser.isSet(randomDataOption));", "new ServerConnection(serverUrl, name, uuid, parser.isSet(randomDataOption), parser.isSet(insecureOption));")],
  needs="a proxy with an untrusted certificate and the random data option", breaks="certificate errors are ignored although it was not asked for",
  py='''
from proxylib import *
import ssl
def registered(p, u):
    x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); x.check_hostname = False; x.verify_mode = ssl.CERT_NONE
    k = x.wrap_socket(socket.create_connection(("127.0.0.1", p.port)))
    k.sendall(json.dumps({"id": 1, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "c", "clientUuid": str(uuid.uuid4()), "serverUuid": u}}).encode() + b"\\n")
    k.settimeout(3); b = b""
    while not b.endswith(b"\\n"): b += k.recv(65536)
    k.close()
    return json.loads(b)["params"]["tunnelProxyError"] == "TunnelProxyErrorNoError"
with Proxy(ssl=True) as p:
    e = dict(os.environ, LD_LIBRARY_PATH="%s/_build/libnymea-remoteproxyclient" % REPO, HOME=p.dir)
    exe = os.path.join(REPO, "_build/tunnelclient/nymea-remoteproxy-tunnelclient")
    for opts, want in ((["-r"], False), (["-i"], True)):
        u = str(uuid.uuid4())
        t = subprocess.Popen([exe, "-s", "-u", "ssl://127.0.0.1:%d" % p.port, "--uuid", u] + opts, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, cwd=p.dir)
        time.sleep(2)
        r = registered(p, u)
        t.kill(); t.wait()
        if r != want: fail("with %r the tool is%s registered" % (opts, "" if r else " not"))
print("ok")
'''),
 dict(id="malformed-frame-logged", property="L01",
  edits=[("common/slipdataprocessor.cpp", 'qWarning() << "Error while deserializing data. Escape character received but the escaped character was not recognized.";', 'qWarning() << "Error while deserializing data. Escape character received but the escaped character was not recognized:" << data;')],
  needs="a malformed frame from a registered server", breaks="what a tunnel carries is written to the log under the shipped logging rules",
  py='''
os_env = __import__("os").environ
os_env["QT_LOGGING_CONF"] = __import__("os").getcwd() + "/nymea-remoteproxy-logging.conf"
from proxylib import *
with Proxy() as p:
    s = p.server()
    a = p.client(s.uuid)
    addr = s.notification("ClientConnected")["socketAddress"]
    s.send(b"\\x00\\x01topsecret" + bytes([ESC, 0x41, END]) + enc(addr, b"alsosecret"))
    if a.recv(10) != b"alsosecret": fail("data lost")
    a.send(b"secretanswer"); s.frame()
    time.sleep(0.5)
    out = open(os.path.join(p.dir, "out"), "rb").read()
    if b"secret" in out: fail("tunnel data is in the log: %r" % out[out.index(b"secret") - 60:][:120])
print("ok")
'''),
]
