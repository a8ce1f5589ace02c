C = "libnymea-remoteproxyclient/"
SS = C + "tunnelproxy/tunnelproxysocketserver.cpp"
RC = C + "tunnelproxy/tunnelproxyremoteconnection.cpp"
HDR = '''// link: client
#include "fakeproxy.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
using namespace remoteproxyclient;
'''
F = ["fakeproxy.h"]
SEEDS = [
 dict(id="disconnect-after-loss", property="N03",
  edits=[(RC, """    if (m_connection) {
        qCDebug(dcTunnelProxyRemoteConnection()) << "Disconnecting from" """, """    if (!m_serverUrl.isEmpty()) {
        qCDebug(dcTunnelProxyRemoteConnection()) << "Disconnecting from" """)],
  needs="disconnectServer() after the proxy server closed the connection",
  breaks="the connection which is gone is used",
  files=F, cpp=HDR + '''
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    TunnelProxyRemoteConnection r(QUuid::createUuid(), "x", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    r.disconnectServer();
    r.connectServer(proxy.url(), QUuid::createUuid());
    if (!waitFor([&]() { return r.remoteConnected(); })) FAIL("not connected");
    proxy.peers.last()->socket->disconnectFromHost();
    if (!waitFor([&]() { return !r.remoteConnected(); })) FAIL("still connected");
    spin(100);
    r.disconnectServer();
    spin(100);
    printf("ok\\n");
    return 0;
}
'''),
 dict(id="pending-connection-not-aborted", property="C06",
  edits=[(C + "tcpsocketconnection.cpp", """void TcpSocketConnection::disconnectServer()
{
""", """void TcpSocketConnection::disconnectServer()
{
    // There is nothing to disconnect from
    if (!connected())
        return;

""")],
  needs="disconnectServer() while the TLS handshake is still pending",
  breaks="the connection to the server stays open",
  files=F, cpp=HDR + '''
int main(int c, char **v) {
    QCoreApplication app(c, v);
    FakeProxy proxy;
    TunnelProxyRemoteConnection r(QUuid::createUuid(), "x", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    QUrl url = proxy.url(); url.setScheme("ssl");
    r.connectServer(url, QUuid::createUuid());
    if (!waitFor([&]() { return proxy.accepted == 1; })) FAIL("not accepted");
    spin(200);
    r.disconnectServer();
    if (!waitFor([&]() { return proxy.peers.last()->socket->state() == QAbstractSocket::UnconnectedState; })) FAIL("connection still open");
    printf("ok\\n");
    return 0;
}
'''),
]
