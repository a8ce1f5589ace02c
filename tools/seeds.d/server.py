L = "libnymea-remoteproxy/"
TS = L + "tunnelproxy/tunnelproxyserver.cpp"
SEEDS = [
 dict(id="stale-address", property="D01",
  edits=[(L + "tunnelproxy/tunnelproxyserverconnection.cpp",
"""    m_clientConnectionsAddresses.remove(clientConnection->socketAddress());
    clientConnection->setSocketAddress(0xFFFF);
    clientConnection->setServerConnection(nullptr);""",
"""    clientConnection->setServerConnection(nullptr);
    clientConnection->setSocketAddress(0xFFFF);
    m_clientConnectionsAddresses.remove(clientConnection->socketAddress());""")],
  needs="a client leaves and the server uses its old address afterwards",
  breaks="the address of a departed client stays in the server's address table and points to a deleted client",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    a = p.client(s.uuid, "a")
    addr = s.notification("ClientConnected")["socketAddress"]
    b = p.client(s.uuid, "b")
    s.notification("ClientConnected")
    a.close()
    if s.notification("ClientDisconnected") is None: fail("departure not announced")
    time.sleep(0.3)
    r = s.call("TunnelProxy.DisconnectClient", {"socketAddress": addr})
    if r is None or r["params"]["tunnelProxyError"] != "TunnelProxyErrorUnknownSocketAddress": fail("address still in use: %r" % r)
    s.send(enc(addr, b"x"))
    time.sleep(0.3)
    if not p.alive(): fail("server died")
    if b.quiet() != b"": fail("data for the departed client delivered elsewhere")
print("ok")
'''),
 dict(id="idle-clients-survive", property="D02",
  edits=[(TS, """                serverConnection->unregisterClientConnection(clientConnection);
                clientConnection->transportClient()->killConnection("Server disconnected");
""", """                serverConnection->unregisterClientConnection(clientConnection);
                if (clientConnection->transportClient()->bufferSize() > 0 || clientConnection->transportClient()->txDataCount() != clientConnection->transportClient()->rxDataCount())
                    clientConnection->transportClient()->killConnection("Server disconnected");
""")],
  needs="a client which sent as many bytes as it received when its server leaves",
  breaks="such a client keeps its connection after its server has gone",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    a, b = p.client(s.uuid, "a"), p.client(s.uuid, "b")
    conns = {}
    for _ in range(2):
        n = s.notification("ClientConnected"); conns[n["clientName"]] = n["socketAddress"]
    # balance the byte counters of a: padded traffic in one direction until both agree
    m = socket.socket(socket.AF_UNIX); m.connect(p.monitor); m.settimeout(3)
    m.sendall(json.dumps({"method": "refresh", "params": {"printAll": True}}).encode() + b"\\n")
    buf = b""
    while True:
        try: d = m.recv(65536)
        except socket.timeout: break
        if not d: break
        buf += d
        try: st = json.loads(buf.strip().split(b"\\n")[-1])
        except ValueError: continue
        break
    c = [x for t in st["tunnelProxyStatistic"]["tunnelConnections"] for x in t["clientConnections"] if x["name"] == "a"][0]
    rx, tx = int(c["rxDataCount"]), int(c["txDataCount"])
    if rx > tx: s.send(enc(conns["a"], b"x" * (rx - tx)))
    elif tx > rx: a.send(b"x" * (tx - rx))
    time.sleep(0.5)
    s.close()
    if not b.closed(): fail("client b not disconnected")
    if not a.closed(): fail("client a not disconnected")
print("ok")
'''),
 dict(id="unknown-address-drops-rest", property="T02",
  edits=[(TS, """                        qCWarning(dcTunnelProxyServer()) << "The server connection wants to send data to a client connection which has not been registered to the server.";
                        continue;""",
 """                        qCWarning(dcTunnelProxyServer()) << "The server connection wants to send data to a client connection which has not been registered to the server.";
                        break;""")],
  needs="a frame for a departed client directly in front of other frames in the same read",
  breaks="the frames behind a frame for an unknown address are lost",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    a = p.client(s.uuid)
    addr = s.notification("ClientConnected")["socketAddress"]
    for i in range(20):
        s.send(enc(0x4000 + i, b"nobody") + enc(addr, b"hello%02d" % i))
        time.sleep(0.02)
    if a.quiet() != b"".join(b"hello%02d" % i for i in range(20)): fail("frames lost")
print("ok")
'''),
 dict(id="frame-length-16-bit", property="T03",
  edits=[("common/slipdataprocessor.cpp", """    stream << frame.socketAddress;
    for (int i = 0; i < frame.data.size(); i++) {
        stream << static_cast<quint8>(frame.data.at(i));
    }""", """    stream << frame.socketAddress;
    const quint16 length = static_cast<quint16>(frame.data.size());
    for (quint16 i = 0; i < length; i++) {
        stream << static_cast<quint8>(frame.data.at(i));
    }""")],
  needs="a payload of more than 65535 bytes", breaks="the frame loses the payload beyond a multiple of 65536 bytes",
  cpp='''
// link: slip
#include "slipdataprocessor.h"
#include <cstdio>
int main()
{
    for (int n : {0, 1, 1000, 65535, 65536, 70000, 200000}) {
        SlipDataProcessor::Frame f;
        f.socketAddress = 0xC0DB;
        for (int i = 0; i < n; i++)
            f.data.append(static_cast<char>(i * 7 + i / 256));
        SlipDataProcessor::Frame g = SlipDataProcessor::parseFrame(SlipDataProcessor::deserializeData(SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(f))));
        if (g.socketAddress != f.socketAddress || g.data != f.data) {
            printf("FAIL: payload of %d bytes comes back with %d bytes\\n", n, g.data.size());
            return 1;
        }
    }
    return 0;
}
'''),
 dict(id="malformed-frame-drops-read", property="T04",
  edits=[(L + "tunnelproxy/tunnelproxyclient.cpp", """                    qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                } else {""", """                    qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                    break;
                } else {""")],
  needs="a malformed frame followed by a valid one in the same read", breaks="the bytes behind a malformed frame in the same read are dropped",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    a = p.client(s.uuid)
    addr = s.notification("ClientConnected")["socketAddress"]
    for i in range(20):
        s.send(bytes([0, 9, ESC, 0x41, END]) + enc(addr, b"hello%02d" % i))
        time.sleep(0.02)
    if a.quiet() != b"".join(b"hello%02d" % i for i in range(20)): fail("frames lost")
print("ok")
'''),
 dict(id="uuid-takeover", property="A02",
  edits=[(TS, """        qCWarning(dcTunnelProxyServer()) << "There is a client already registered with client uuid" << clientUuid.toString();
        tunnelProxyClient->killConnectionAfterResponse("Already registered");""",
 """        qCWarning(dcTunnelProxyServer()) << "There is a client already registered with client uuid" << clientUuid.toString();
        if (m_tunnelProxyClientConnections.value(clientUuid)->transportClient()->peerAddress() == tunnelProxyClient->peerAddress())
            m_tunnelProxyClientConnections.value(clientUuid)->transportClient()->killConnectionAfterResponse("Replaced by a new connection");
        tunnelProxyClient->killConnectionAfterResponse("Already registered");"""),
   (TS, """        clientConnection->serverConnection()->transportClient()->sendData(rawData);
        m_troughputCounter += data.count();

""", """        clientConnection->serverConnection()->transportClient()->sendData(rawData);
        m_troughputCounter += data.count();
        if (tunnelProxyClient->killConnectionRequested())
            tunnelProxyClient->killConnection(tunnelProxyClient->killConnectionReason());

""")],
  needs="a second registration with the uuid of a connected client from the same host, and traffic of the first client afterwards",
  breaks="a refused registration closes the connection which owns the uuid",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    a = p.client(s.uuid)
    b = p.connect()
    r = b.call("TunnelProxy.RegisterClient", {"clientName": "b", "clientUuid": a.uuid, "serverUuid": s.uuid})
    if r["params"]["tunnelProxyError"] != "TunnelProxyErrorAlreadyRegistered": fail(r)
    if not b.closed(): fail("b stays")
    a.send(b"ping")
    if a.closed(1): fail("the owner of the uuid was disconnected")
print("ok")
'''),
 dict(id="unknown-address-costs-connection", property="D03",
  edits=[(TS, """        qCWarning(dcTunnelProxyServer()) << "Could not find client connection for socket address" << socketAddress << "on" << serverConnection;
""", """        qCWarning(dcTunnelProxyServer()) << "Could not find client connection for socket address" << socketAddress << "on" << serverConnection;
        if (serverConnection->clientConnections().isEmpty())
            tunnelProxyClient->killConnectionAfterResponse("Unknown socket address");
""")],
  needs="a disconnect request which crosses with the departure of the last client", breaks="the server loses its connection for naming an unknown address",
  py='''
from proxylib import *
with Proxy() as p:
    s = p.server()
    a = p.client(s.uuid)
    addr = s.notification("ClientConnected")["socketAddress"]
    a.close()
    s.notification("ClientDisconnected")
    r = s.call("TunnelProxy.DisconnectClient", {"socketAddress": addr})
    if r["params"]["tunnelProxyError"] != "TunnelProxyErrorUnknownSocketAddress": fail(r)
    if s.closed(1): fail("the server was disconnected")
print("ok")
'''),
]
