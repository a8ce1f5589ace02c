// A minimal proxy server the client libraries can be pointed at
#include <QtCore>
#include <QtNetwork>
#include <functional>
#include <unistd.h>
#include "common/slipdataprocessor.h"

#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)

struct FakeProxy : public QTcpServer {
    struct Peer { QTcpSocket *socket; QByteArray buffer; bool framed = false; };
    QList<Peer *> peers;
    QList<QVariantMap> requests;
    int accepted = 0;
    bool autoAnswer = true;
    QByteArray tunnel;   // tunnel data (unframed peers)
    QList<QPair<quint16, QByteArray>> frames;
    std::function<void(Peer *, const QVariantMap &)> handler; // replaces the automatic answers

    FakeProxy() {
        listen(QHostAddress("127.0.0.1"), 0);
        QObject::connect(this, &QTcpServer::newConnection, [this]() {
            while (hasPendingConnections()) {
                Peer *p = new Peer; p->socket = nextPendingConnection(); p->socket->setSocketOption(QAbstractSocket::LowDelayOption, 1);
                peers.append(p); accepted++;
                QObject::connect(p->socket, &QTcpSocket::readyRead, [this, p]() { p->buffer += p->socket->readAll(); parse(p); });
            }
        });
    }
    QUrl url() const { return QUrl(QString("tcp://127.0.0.1:%1").arg(serverPort())); }
    void parse(Peer *p) {
        while (true) {
            if (p->framed) {
                int e = p->buffer.indexOf('\xC0');
                if (e < 0) return;
                QByteArray raw = p->buffer.left(e); p->buffer = p->buffer.mid(e + 1);
                if (raw.isEmpty()) continue;
                SlipDataProcessor::Frame f = SlipDataProcessor::parseFrame(SlipDataProcessor::deserializeData(raw));
                if (f.socketAddress) frames.append(qMakePair(f.socketAddress, f.data)); else message(p, f.data);
            } else {
                int e = p->buffer.indexOf("}\n");
                if (e < 0) return;
                QByteArray m = p->buffer.left(e + 2); p->buffer = p->buffer.mid(e + 2);
                message(p, m);
            }
        }
    }
    void message(Peer *p, const QByteArray &data) {
        QVariantMap m = QJsonDocument::fromJson(data).toVariant().toMap();
        if (m.isEmpty()) { tunnel += data; return; }
        requests.append(m);
        if (handler) { handler(p, m); return; }
        if (autoAnswer) answer(p, m);
    }
    void answer(Peer *p, const QVariantMap &m, QVariantMap params = QVariantMap()) {
        QString method = m.value("method").toString();
        if (params.isEmpty()) {
            if (method == "RemoteProxy.Hello") params = QVariantMap{{"server", "fake"}, {"name", "fake"}, {"version", "1"}, {"apiVersion", "1"}};
            else if (method == "TunnelProxy.Ping") params = m.value("params").toMap();
            else params = QVariantMap{{"tunnelProxyError", "TunnelProxyErrorNoError"}};
        }
        send(p, QVariantMap{{"id", m.value("id")}, {"status", "success"}, {"params", params}});
        if (method == "TunnelProxy.RegisterServer") p->framed = true;
    }
    void notify(Peer *p, const QString &name, const QVariantMap &params) {
        send(p, QVariantMap{{"id", 0}, {"notification", "TunnelProxy." + name}, {"params", params}});
    }
    static QByteArray frame(quint16 address, const QByteArray &data) {
        SlipDataProcessor::Frame f; f.socketAddress = address; f.data = data;
        return SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(f));
    }
    void send(Peer *p, const QVariantMap &m) {
        QByteArray d = QJsonDocument::fromVariant(m).toJson(QJsonDocument::Compact) + "\n";
        p->socket->write(p->framed ? frame(0, d) : d); p->socket->flush();
    }
    int count(const QString &method) { int n = 0; for (const QVariantMap &m : requests) if (m.value("method").toString() == method) n++; return n; }
};

inline bool waitFor(std::function<bool()> cond, int ms = 5000) {
    QElapsedTimer t; t.start();
    while (!cond()) { if (t.elapsed() > ms) return false; QCoreApplication::processEvents(QEventLoop::AllEvents, 20); QThread::msleep(2); }
    return true;
}
inline void spin(int ms) { waitFor([]() { return false; }, ms); }
