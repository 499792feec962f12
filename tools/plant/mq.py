"""A small MQTT client and broker launcher for the demonstrations. Everything lives in a scratch directory."""
import os, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time

BIN = os.path.join(os.getcwd(), "target/debug")


def free_port(host="127.0.0.1"):
    s = socket.socket()
    s.bind((host, 0))
    p = s.getsockname()[1]
    s.close()
    return p


def mstr(s):
    b = s if isinstance(s, bytes) else s.encode()
    return struct.pack(">H", len(b)) + b


def rlen(n):
    o = b""
    while True:
        b = n % 128
        n //= 128
        o += bytes([b | (128 if n else 0)])
        if not n:
            return o


def pkt(first, body=b""):
    return bytes([first]) + rlen(len(body)) + body


def connect(cid, user=None, pw=None, clean=True, keep=0, will=None, wqos=0, wretain=False, level=4):
    f = 2 if clean else 0
    b = mstr(cid)
    if will:
        f |= 4 | wqos << 3 | (32 if wretain else 0)
        b += mstr(will[0]) + mstr(will[1])
    if user is not None:
        f |= 128
        b += mstr(user)
    if pw is not None:
        f |= 64
        b += mstr(pw)
    name = "MQTT" if level == 4 else "MQIsdp"
    return pkt(0x10, mstr(name) + bytes([level, f]) + struct.pack(">H", keep) + b)


def publish(topic, payload=b"", qos=0, retain=False, pid=7):
    b = mstr(topic) + (struct.pack(">H", pid) if qos else b"") + payload
    return pkt(0x30 | qos << 1 | retain, b)


def subscribe(pid, *fs, qos=0):
    return pkt(0x82, struct.pack(">H", pid) + b"".join(mstr(f) + bytes([qos]) for f in fs))


def unsubscribe(pid, *fs):
    return pkt(0xA2, struct.pack(">H", pid) + b"".join(mstr(f) for f in fs))


PING = pkt(0xC0)
DISCONNECT = pkt(0xE0)


class Closed(Exception):
    pass


class Timeout(Exception):
    pass


class Client:
    def __init__(self, addr, cid=None, rcvbuf=None, **kw):
        self.s = socket.socket(socket.AF_INET6 if ":" in addr[0] else socket.AF_INET)
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(10)
        self.s.connect(addr)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.msgs = []
        if cid is not None:
            self.send(connect(cid, **kw))
            self.connack = self.ctl()
            assert self.connack == (0x20, b"\0\0"), "CONNACK %r" % (self.connack,)

    def send(self, data):
        self.s.sendall(data)

    def packet(self, timeout=10):
        end = time.time() + timeout
        while True:
            i, n, sh = 1, 0, 0
            while i < len(self.buf) and i < 5:
                n |= (self.buf[i] & 127) << sh
                sh += 7
                i += 1
                if not self.buf[i - 1] & 128:
                    if len(self.buf) >= i + n:
                        r = (self.buf[0], self.buf[i:i + n])
                        self.buf = self.buf[i + n:]
                        return r
                    break
            left = end - time.time()
            if left <= 0:
                raise Timeout("nothing within %s s" % timeout)
            self.s.settimeout(left)
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                continue
            except ConnectionError as e:
                raise Closed(str(e))
            if not d:
                raise Closed("closed by the broker")
            self.buf += d

    def keep(self, p):
        n = struct.unpack(">H", p[1][:2])[0]
        at = 2 + n + (2 if p[0] & 6 else 0)
        self.msgs.append((p[1][2:2 + n].decode(), p[1][at:], p[0] & 15))

    def ctl(self, timeout=10):
        """the next packet that is no message; messages are kept in msgs"""
        while True:
            p = self.packet(timeout)
            if p[0] >> 4 != 3:
                return p
            self.keep(p)

    def sub(self, *fs, pid=10, qos=0):
        self.send(subscribe(pid, *fs, qos=qos))
        p = self.ctl()
        assert p[0] == 0x90 and p[1][:2] == struct.pack(">H", pid) and len(p[1]) == 2 + len(fs), "SUBACK %r" % (p,)
        return p[1][2:]

    def unsub(self, *fs, pid=11):
        self.send(unsubscribe(pid, *fs))
        p = self.ctl()
        assert p == (0xB0, struct.pack(">H", pid)), "UNSUBACK %r" % (p,)

    def ping(self, timeout=10):
        self.send(PING)
        p = self.ctl(timeout)
        assert p == (0xD0, b""), "PINGRESP %r" % (p,)

    def pub(self, topic, payload=b"", **kw):
        """returns when the broker has handled it"""
        self.send(publish(topic, payload, **kw))
        self.ping()

    def wait(self, n, timeout=10):
        """waits for n messages in all"""
        end = time.time() + timeout
        while len(self.msgs) < n:
            p = self.packet(max(0.01, end - time.time()))
            assert p[0] >> 4 == 3, "unexpected %r" % (p,)
            self.keep(p)
        return self.msgs

    def take(self):
        """all messages up to now"""
        self.ping()
        self.ping()
        m, self.msgs = self.msgs, []
        return [(t, p) for t, p, _ in m]

    def closed(self, timeout=5):
        """waits for the broker to end the connection"""
        try:
            while True:
                p = self.packet(timeout)
                if p[0] >> 4 == 3:
                    self.keep(p)
        except Closed:
            return True
        except Timeout:
            return False

    def close(self):
        self.s.close()

    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()


class Broker:
    def __init__(self, listeners=1, users=(), passwd=None, hosts=None, env=None, conf=None):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        pw = os.path.join(self.dir, "passwd")
        open(pw, "w").write(passwd or "")
        for u, p in users:
            subprocess.run([os.path.join(BIN, "ratelmq-passwd"), "-f", pw, "-u", u, "-p", p], check=True)
        self.addrs = [(h, free_port()) for h in (hosts or ["127.0.0.1"] * listeners)]
        cf = os.path.join(self.dir, "ratelmq.conf")
        ls = ", ".join('"%s:%d"' % a for a in self.addrs)
        open(cf, "w").write(conf or '[mqtt]\nlisteners_tcp = [%s]\n[authentication]\npassword_file = "%s"\n' % (ls, pw))
        e = {k: v for k, v in os.environ.items() if not k.startswith("RATELMQ") and k != "RUST_LOG"}
        e.update(env or {})
        self.p = subprocess.Popen([os.path.join(BIN, "ratelmq"), "-c", cf], cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.dir, "err"), "w"))

    def up(self, addrs=None):
        for a in addrs or self.addrs:
            for _ in range(500):
                try:
                    socket.create_connection(a, 1).close()
                    break
                except OSError:
                    assert self.p.poll() is None, "broker ended: " + self.err()
                    time.sleep(0.02)
            else:
                raise AssertionError("the broker does not listen on %s:%d" % a)
        return self

    def err(self):
        return open(os.path.join(self.dir, "err")).read()[:500]

    def client(self, cid=None, on=0, **kw):
        return Client(self.addrs[on], cid, **kw)

    def __enter__(self):
        try:
            return self.up()
        except BaseException:
            self.__exit__()
            raise

    def __exit__(self, *a):
        self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def main(f):
    try:
        f()
    except (AssertionError, Closed, Timeout, OSError) as e:
        print("FAIL: %s: %s" % (type(e).__name__, e))
        sys.exit(1)
    print("ok")
