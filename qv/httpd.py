"""A server that answers with scripted bytes, delays and disconnects."""
import os
import socket
import ssl
import struct
import threading
import time

TLS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tls")
CERT = os.path.join(TLS, "cert.pem")


class Request:
    def __init__(self, method, target, headers, body, complete):
        self.method, self.target, self.headers, self.body, self.complete = method, target, headers, body, complete

    def brief(self):
        return {"method": self.method, "target": self.target, "headers": self.headers, "body": self.body[:300].decode("utf-8", "replace")}


def _context():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(CERT, os.path.join(TLS, "key.pem"))
    return c


class Server:
    """answer(request, number) gives the steps of a response: bytes to send, a number of seconds to wait, "close", "reset" or "stall"."""

    def __init__(self, answer, tls=False):
        self.answer, self.tls = answer, _context() if tls else None
        self.requests, self.connections, self.errors = [], 0, []
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.stopped = threading.Event()
        self.thread = threading.Thread(target=self._accept, daemon=True)
        self.thread.start()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.stopped.set()
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def _accept(self):
        while not self.stopped.is_set():
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            self.connections += 1
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _read(self, c):
        data = b""
        while b"\r\n\r\n" not in data:
            if data[:1] == b"\x16":
                return None  # a TLS client
            more = c.recv(65536)
            if not more:
                return None
            data += more
        head, _, body = data.partition(b"\r\n\r\n")
        lines = head.decode("latin-1").split("\r\n")
        method, target, _ = lines[0].split(" ", 2)
        headers = {}
        for l in lines[1:]:
            k, _, v = l.partition(":")
            headers[k.strip().lower()] = v.strip()
        if "content-length" in headers:
            while len(body) < int(headers["content-length"]):
                more = c.recv(65536)
                if not more:
                    return Request(method, target, headers, body, False)
                body += more
        elif headers.get("transfer-encoding", "").lower() == "chunked":
            whole = b""
            while True:
                while b"\r\n" not in body:
                    more = c.recv(65536)
                    if not more:
                        return Request(method, target, headers, whole, False)
                    body += more
                size, _, body = body.partition(b"\r\n")
                n = int(size.split(b";")[0], 16)
                while len(body) < n + 2:
                    more = c.recv(65536)
                    if not more:
                        return Request(method, target, headers, whole, False)
                    body += more
                whole += body[:n]
                body = body[n + 2:]
                if n == 0:
                    break
            body = whole
        return Request(method, target, headers, body, True)

    def _serve(self, c):
        try:
            c.settimeout(120)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if self.tls is not None:
                c = self.tls.wrap_socket(c, server_side=True)
            request = self._read(c)
            if request is None:
                return
            self.requests.append(request)
            for step in self.answer(request, len(self.requests) - 1):
                if isinstance(step, bytes):
                    c.sendall(step)
                elif isinstance(step, (int, float)):
                    time.sleep(step)
                elif step == "close":
                    # without the notice that TLS has for this
                    raw = c.detach() if self.tls is not None else None
                    if raw is not None:
                        s = socket.socket(fileno=raw)
                        s.shutdown(socket.SHUT_RDWR)
                        s.close()
                    return
                elif step == "reset":
                    raw = c.detach()
                    s = socket.socket(fileno=raw)
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    s.close()
                    return
                elif step == "stall":
                    self.stopped.wait(150)
                    return
            if self.tls is not None:
                try:
                    c = c.unwrap()
                except (OSError, ssl.SSLError):
                    pass
            try:
                c.shutdown(socket.SHUT_WR)
                # what is still on its way to the client is lost if this end is gone too early
                c.settimeout(10)
                while c.recv(65536):
                    pass
            except OSError:
                pass
        except (OSError, ssl.SSLError, ValueError) as e:
            self.errors.append(repr(e))
        finally:
            try:
                c.close()
            except OSError:
                pass


def response(body, status="200 OK", framing="length", headers=(), pieces=()):
    """The bytes of a response in the order they are sent, and how many of them are the head. pieces are sizes of chunks."""
    head = [f"HTTP/1.1 {status}"] + [f"{k}: {v}" for k, v in headers]
    if framing == "length":
        head.append(f"Content-Length: {len(body)}")
        payload = body
    elif framing == "chunked":
        head.append("Transfer-Encoding: chunked")
        payload, at = b"", 0
        sizes = list(pieces)
        while at < len(body):
            n = max(1, sizes.pop(0) if sizes else len(body))
            part = body[at:at + n]
            payload += b"%x\r\n" % len(part) + part + b"\r\n"
            at += n
        payload += b"0\r\n\r\n"
    else:
        head.append("Connection: close")
        payload = body
    h = ("\r\n".join(head) + "\r\n\r\n").encode()
    return h + payload, len(h)


def split(rng, data, parts, delay=0.0):
    """The data in pieces, with pauses"""
    cuts = sorted({rng.randrange(1, len(data)) for _ in range(parts)}) if len(data) > 1 else []
    out, last = [], 0
    for c in cuts + [len(data)]:
        out.append(data[last:c])
        last = c
        if delay:
            out.append(rng.random() * delay)
    return out
