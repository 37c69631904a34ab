"""A small HTTP server on the loopback interface which logs every request and can misbehave."""
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer


class Server:
    """files: path (no leading slash) -> bytes.  faults: path -> list of behaviours, one consumed per request:
    ("status", code) | ("truncate", n) | ("reset",) | ("delay", seconds) | ("ok",)"""
    def __init__(self, files, faults=None):
        self.files = dict(files)
        self.faults = {k: list(v) for k, v in (faults or {}).items()}
        self.log = []
        self.lock = threading.Lock()
        outer = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_GET(self):
                path = self.path.lstrip("/")
                with outer.lock:
                    outer.log.append(path)
                    q = outer.faults.get(path)
                    b = q.pop(0) if q else ("ok",)
                if b[0] == "delay":
                    time.sleep(b[1])
                if b[0] == "reset":
                    self.close_connection = True
                    self.connection.close()
                    return
                if b[0] == "status" or path not in outer.files:
                    code = b[1] if b[0] == "status" else 404
                    body = b"<html>error</html>"
                    self.send_response(code)
                    self.send_header("Content-Length", str(len(body)))
                    self.end_headers()
                    self.wfile.write(body)
                    return
                body = outer.files[path]
                self.send_response(200)
                self.send_header("Content-Length", str(len(body)))
                self.send_header("Content-Type", "application/xml")
                self.end_headers()
                if b[0] == "truncate":
                    self.wfile.write(body[:int(len(body) * b[1])])
                    self.wfile.flush()
                    self.close_connection = True
                    self.connection.close()
                    return
                self.wfile.write(body)

            def handle(self):
                try:
                    super().handle()
                except (ConnectionError, ValueError, OSError):
                    pass

            def finish(self):
                try:
                    super().finish()
                except (ConnectionError, ValueError, OSError):
                    pass
        self.httpd = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.httpd.daemon_threads = True
        self.port = self.httpd.server_address[1]
        self.base = f"http://127.0.0.1:{self.port}/"
        self.thread = threading.Thread(target=self.httpd.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True)
        self.thread.start()

    def take_log(self):
        with self.lock:
            out, self.log = self.log, []
        return out

    def close(self):
        self.httpd.shutdown()
        self.httpd.server_close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
