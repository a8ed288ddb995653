"""Drives the real pizauth binary built in the current directory against a scripted token server.

Everything happens inside a scratch directory which is removed at the end.
"""
import atexit, http.server, json, os, shutil, socket, subprocess, sys, tempfile, threading, time
import urllib.parse

BIN = os.path.abspath("target/debug/pizauth")


def fail(msg):
    print("FAILED:", msg)
    sys.exit(1)


def check(ok, msg):
    if not ok:
        fail(msg)


class Token:
    """A token server. `script` maps (path) to a function(form) -> (status, body) | None to hang up."""

    def __init__(self):
        self.reqs = []
        self.lock = threading.Condition()
        self.handler = lambda form: grant("AT", "RT")
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_POST(self):
                n = int(self.headers.get("content-length") or 0)
                form = dict(urllib.parse.parse_qsl(self.rfile.read(n).decode(), keep_blank_values=True))
                form["_path"] = self.path
                with outer.lock:
                    outer.reqs.append(form)
                    outer.lock.notify_all()
                r = outer.handler(form)
                if r is None:
                    self.close_connection = True
                    self.connection.close()
                    return
                st, body = r
                body = body.encode()
                self.send_response(st)
                self.send_header("content-type", "application/json")
                self.send_header("content-length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *a):
                pass

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *a):
                pass

        self.srv = S(("127.0.0.1", 0), H)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def wait(self, n, secs=20):
        """Wait until n requests have arrived."""
        with self.lock:
            return self.lock.wait_for(lambda: len(self.reqs) >= n, secs)


def grant(at, rt=None, exp=3600, **kw):
    d = {"access_token": at, "token_type": "Bearer", "expires_in": exp}
    if rt is not None:
        d["refresh_token"] = rt
    d.update(kw)
    return 200, json.dumps(d)


class World:
    def __init__(self, conf=None, accounts=("a",), top="", extra="", start=True, env=None, server_args=("-d",)):
        self.dir = tempfile.mkdtemp(prefix="pzdemo")
        atexit.register(self.close)
        self.proc = None
        self.token = Token()
        self.conf_path = os.path.join(self.dir, "pizauth.conf")
        self.run_dir = os.path.join(self.dir, "run")
        os.mkdir(self.run_dir)
        os.chmod(self.run_dir, 0o700)
        self.env = dict(PATH=os.environ.get("PATH", "/bin"), HOME=self.dir, SHELL="/bin/sh", XDG_RUNTIME_DIR=self.run_dir, USER="u", TZ="UTC", RUST_BACKTRACE="0")
        self.env.update(env or {})
        self.log = open(os.path.join(self.dir, "log"), "ab")
        self.write(conf if conf is not None else self.config(accounts, top, extra))
        if start:
            self.start(server_args)

    def account(self, name, extra="", **kw):
        f = dict(auth_uri="http://auth.%s.test/auth" % name, client_id="CID" + name, client_secret="SEC" + name,
                 token_uri="http://127.0.0.1:%d/%s" % (self.token.port, name), redirect_uri="http://localhost/")
        f.update(kw)
        s = "account \"%s\" {\n" % name
        for k, v in f.items():
            if v is not None:
                s += "    %s = %s;\n" % (k, json.dumps(v) if isinstance(v, str) else v[0])
        return s + extra + "}\n"

    def config(self, accounts=("a",), top="", extra="", **kw):
        return top + "\n" + "".join(self.account(a, extra, **kw) for a in accounts)

    def write(self, text):
        with open(self.conf_path + ".new", "w") as f:
            f.write(text)
        os.rename(self.conf_path + ".new", self.conf_path)

    def start(self, args=("-d",)):
        self.proc = subprocess.Popen([BIN, "server", "-c", self.conf_path, *args], env=self.env, cwd=self.dir,
                                     stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log)
        for _ in range(200):
            if self.cmd("status", check=False)[0] in (0, 1) and self.alive():
                return
            time.sleep(0.05)
        fail("the server does not start: " + self.read_log())

    def read_log(self):
        return open(os.path.join(self.dir, "log"), "rb").read().decode(errors="replace")

    def sock(self):
        return os.path.join(self.run_dir, "pizauth", "pizauth.sock")

    def alive(self):
        try:
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(5)
            s.connect(self.sock())
            s.sendall(b"info:")
            s.shutdown(socket.SHUT_WR)
            return len(s.recv(10)) > 0
        except OSError:
            return False

    def kill(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()
            self.proc = None

    def close(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def cmd(self, *args, stdin=b"", check=False, timeout=30):
        try:
            p = subprocess.run([BIN, *args], env=self.env, cwd=self.dir, input=stdin, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            fail("%s does not return" % (args,))
        if check and p.returncode != 0:
            fail("%s: %d %s" % (args, p.returncode, p.stderr))
        return p.returncode, p.stdout, p.stderr.decode(errors="replace")

    def raw(self, data, timeout=10):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        s.connect(self.sock())
        s.sendall(data)
        s.shutdown(socket.SHUT_WR)
        r = b""
        while True:
            x = s.recv(65536)
            if not x:
                return r
            r += x

    def url(self, name, start="show"):
        """The authorisation URL of `name`, starting an authorisation if need be."""
        rc, out, err = self.cmd(start, name)
        for w in (out.decode() + " " + err).split():
            if w.startswith("http"):
                return w
        fail("no URL from %s: %r" % (start, (rc, out, err)))

    def redirect(self, url, code="CODE", error=None, state=None, host=None, raw=None, timeout=30):
        """The browser comes back from authorisation URL `url`; returns the answer."""
        q = dict(urllib.parse.parse_qsl(urllib.parse.urlsplit(url).query))
        r = urllib.parse.urlsplit(q["redirect_uri"])
        p = {"state": q["state"] if state is None else state}
        if error:
            p["error"] = error
        else:
            p["code"] = code
        req = "GET %s?%s HTTP/1.1\r\nHost: %s\r\n\r\n" % (r.path or "/", urllib.parse.urlencode(p), host or r.netloc)
        return self.http(r.port, raw or req.encode(), timeout)

    def http(self, port, data, timeout=30):
        s = socket.create_connection(("127.0.0.1", port), timeout=timeout)
        s.sendall(data)
        r = b""
        try:
            while True:
                x = s.recv(4096)
                if not x:
                    break
                r += x
        except OSError:
            pass
        s.close()
        return r.decode(errors="replace")

    def show(self, name):
        rc, out, err = self.cmd("show", name)
        return out.decode().strip() if rc == 0 else None

    def until_shown(self, name, at, secs=20):
        t = time.time() + secs
        while time.time() < t:
            if self.show(name) == at:
                return True
            time.sleep(0.1)
        return False

    def authorise(self, name, at, rt=None, exp=3600):
        """Give `name` a token."""
        old = self.token.handler
        self.token.handler = lambda form: grant(at, rt, exp)
        self.redirect(self.url(name))
        n = time.time() + 20
        while time.time() < n:
            rc, out, err = self.cmd("status")
            if any(l.startswith(name + ": Active") or l.startswith(name + ": Access token expired") for l in out.decode().splitlines()):
                self.token.handler = old
                return
            time.sleep(0.05)
        fail("%s was not authorised: %r %r" % (name, out, err))


def later(f, secs):
    t = threading.Timer(secs, f)
    t.daemon = True
    t.start()
