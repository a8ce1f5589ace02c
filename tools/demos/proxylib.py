"""Small raw client of the proxy server: starts the built server in a scratch directory and talks to its TCP port."""
import json, os, shutil, socket, subprocess, sys, tempfile, time, uuid

END, ESC, TEND, TESC = 0xC0, 0xDB, 0xDC, 0xDD
REPO = os.getcwd()


def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


def enc(addr, data):
    out = bytearray()
    for b in bytes([addr >> 8, addr & 255]) + data:
        if b == END: out += bytes([ESC, TEND])
        elif b == ESC: out += bytes([ESC, TESC])
        else: out.append(b)
    out.append(END)
    return bytes(out)


class Proxy:
    def __init__(self, inactive=60000, ssl=False):
        self.dir = tempfile.mkdtemp(prefix="proxydemo")
        self.port, self.wsport = free_port(), free_port()
        self.unix = os.path.join(self.dir, "p.sock")
        self.monitor = os.path.join(self.dir, "m.sock")
        res = os.path.join(REPO, "tests", "resources")
        conf = os.path.join(self.dir, "c.conf")
        with open(conf, "w") as f:
            f.write("[ProxyServer]\nname=demo\nwriteLogs=false\nlogFile=%s/log\nlogEngineEnabled=false\nmonitorSocket=%s\njsonRpcTimeout=10000\ninactiveTimeout=%d\n"
                    "[SSL]\nenabled=%s\ncertificate=%s/test-certificate.crt\ncertificateKey=%s/test-certificate.key\ncertificateChain=\n"
                    "[UnixSocketServerTunnelProxy]\nunixSocketFileName=%s\n[WebSocketServerTunnelProxy]\nhost=127.0.0.1\nport=%d\n[TcpServerTunnelProxy]\nhost=127.0.0.1\nport=%d\n"
                    % (self.dir, self.monitor, inactive, "true" if ssl else "false", res, res, self.unix, self.wsport, self.port))
        env = dict(os.environ, LD_LIBRARY_PATH="%s/_build/libnymea-remoteproxy:%s/_build/libnymea-remoteproxyclient" % (REPO, REPO), QT_LOGGING_TO_CONSOLE="1", HOME=self.dir)
        self.log = open(os.path.join(self.dir, "out"), "wb")
        self.p = subprocess.Popen([os.path.join(REPO, "_build/server/nymea-remoteproxy"), "-c", conf], stdout=self.log, stderr=self.log, env=env, cwd=self.dir)
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", self.port)).close()
                break
            except OSError:
                time.sleep(0.05)
        else:
            fail("server did not start")

    def alive(self):
        return self.p.poll() is None

    def close(self):
        self.p.kill(); self.p.wait(); self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    def connect(self, unix=False):
        return Conn(self, unix)

    def server(self, name="srv", u=None, unix=False):
        c = Conn(self, unix); c.uuid = u or str(uuid.uuid4())
        r = c.call("TunnelProxy.RegisterServer", {"serverName": name, "serverUuid": c.uuid})
        if r is None or r["params"]["tunnelProxyError"] != "TunnelProxyErrorNoError": fail("registration of a server: %r" % r)
        c.slip = True
        return c

    def client(self, server_uuid, name="cli", u=None, unix=False):
        c = Conn(self, unix); c.uuid = u or str(uuid.uuid4())
        r = c.call("TunnelProxy.RegisterClient", {"clientName": name, "clientUuid": c.uuid, "serverUuid": server_uuid})
        if r is None or r["params"]["tunnelProxyError"] != "TunnelProxyErrorNoError": fail("registration of a client: %r" % r)
        return c


class Conn:
    def __init__(self, proxy, unix=False):
        if unix:
            self.s = socket.socket(socket.AF_UNIX); self.s.connect(proxy.unix)
        else:
            self.s = socket.create_connection(("127.0.0.1", proxy.port))
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.slip, self.buf, self.eof, self.id, self.frames_seen = False, b"", False, 0, []

    def send(self, data):
        try:
            self.s.sendall(data)
        except OSError:
            self.eof = True

    def pump(self, timeout):
        """reads once; False on timeout or end of the connection"""
        if self.eof: return False
        self.s.settimeout(max(timeout, 0.001))
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            return False
        except OSError:
            self.eof = True
            return False
        if not d:
            self.eof = True
            return False
        self.buf += d
        return True

    def closed(self, timeout=3):
        end = time.time() + timeout
        while not self.eof and time.time() < end:
            self.pump(end - time.time())
        return self.eof

    def recv(self, n, timeout=3):
        end = time.time() + timeout
        while len(self.buf) < n and time.time() < end and not self.eof:
            self.pump(end - time.time())
        return self.buf

    def quiet(self, t=0.5):
        """everything received until nothing has come for t seconds"""
        while self.pump(t): pass
        b, self.buf = self.buf, b""
        return b

    def line(self, timeout=3):
        end = time.time() + timeout
        while b"\n" not in self.buf and time.time() < end and not self.eof:
            self.pump(end - time.time())
        if b"\n" not in self.buf: return None
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)

    def frame(self, timeout=3):
        """next SLIP frame (address, payload) or None"""
        end = time.time() + timeout
        while bytes([END]) not in self.buf and time.time() < end and not self.eof:
            self.pump(end - time.time())
        if bytes([END]) not in self.buf: return None
        f, self.buf = self.buf.split(bytes([END]), 1)
        f = f.replace(bytes([ESC, TEND]), bytes([END])).replace(bytes([ESC, TESC]), bytes([ESC]))
        return (f[0] << 8 | f[1], f[2:])

    def frames(self, t=0.5):
        """all frames until nothing has come for t seconds"""
        out = []
        while True:
            f = self.frame(t)
            if f is None: return out
            out.append(f)

    def request(self, method, params=None):
        self.id += 1
        m = json.dumps({"id": self.id, "method": method, "params": params or {}}).encode() + b"\n"
        self.send(enc(0, m) if self.slip else m)
        return self.id

    def call(self, method, params=None, timeout=3):
        self.request(method, params)
        if not self.slip: return self.line(timeout)
        while True:
            f = self.frame(timeout)
            if f is None: return None
            if f[0] == 0:
                m = json.loads(f[1])
                if m.get("id") == self.id and "notification" not in m: return m
                self.frames_seen.append(m)

    def notification(self, name, timeout=3):
        """next notification of that name on a server connection"""
        for m in self.frames_seen:
            if m.get("notification") == "TunnelProxy." + name:
                self.frames_seen.remove(m)
                return m["params"]
        while True:
            f = self.frame(timeout)
            if f is None: return None
            if f[0] == 0:
                m = json.loads(f[1])
                if m.get("notification") == "TunnelProxy." + name: return m["params"]
                self.frames_seen.append(m)

    def close(self):
        self.s.close()
