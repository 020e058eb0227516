"""Runs the built daemon of /repo (the current directory) in a scratch directory of its own."""
import http.client, json, os, shutil, signal, socket, subprocess, sys, tempfile, time, atexit
REPO = os.getcwd()
_procs, _dirs = [], []
def _cleanup():
    for p in _procs:
        if p.poll() is None: p.kill(); p.wait()
    for d in _dirs: shutil.rmtree(d, ignore_errors=True)
atexit.register(_cleanup)
def scratch():
    d = tempfile.mkdtemp(prefix="istatd-demo-"); _dirs.append(d); return d
def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
def fail(msg):
    print("FAIL:", msg); sys.exit(1)
def ok():
    print("ok"); sys.exit(0)
class Daemon:
    """store=None: an agent"""
    def __init__(self, store="store", retention="1s:1m,10s:10m,1m:1h", agent=None, dir=None, env=None, settings=True, prom=False, replica=False, **opts):
        self.dir = dir or scratch()
        self.stat, self.http, self.admin = free_port(), free_port(), free_port()
        self.prom = free_port() if prom else 0
        self.repl = free_port() if replica else 0
        self.storedir = os.path.join(self.dir, "data", store) if store else None
        os.makedirs(os.path.join(self.dir, "settings"), exist_ok=True)
        os.makedirs(os.path.join(self.dir, "files"), exist_ok=True)
        if self.storedir: os.makedirs(self.storedir, exist_ok=True)
        conf = os.path.join(self.dir, "empty.cfg"); open(conf, "w").close()
        a = [os.path.join(REPO, "bin", "istatd"), "--config", conf, "--stat-port", self.stat, "--http-port", self.http, "--admin-port", self.admin,
             "--listen-address", "127.0.0.1", "--files-dir", os.path.join(self.dir, "files"), "--num-files", 1000]
        if settings: a += ["--settings", os.path.join(self.dir, "settings")]
        if store: a += ["--store", self.storedir, "--retention", retention]
        if agent: a += ["--agent", agent]
        if prom: a += ["--prometheus-port", self.prom]
        if replica: a += ["--replica-port", self.repl]
        for k, v in opts.items(): a += ["--" + k.replace("_", "-"), v]
        self.args = [str(x) for x in a]; self.env = dict(os.environ, **(env or {}))
        self.start()
    def start(self):
        self.log = open(os.path.join(self.dir, "log"), "ab")
        self.p = subprocess.Popen(self.args, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, env=self.env)
        _procs.append(self.p)
        for i in range(200):
            try: socket.create_connection(("127.0.0.1", self.http), 1).close(); return
            except OSError: time.sleep(0.1)
            if self.p.poll() is not None: break
        print(open(os.path.join(self.dir, "log")).read()[-2000:]); fail("the daemon does not start")
    def alive(self): return self.p.poll() is None
    def kill(self): self.p.send_signal(signal.SIGKILL); self.p.wait()
    def stop(self): self.p.terminate(); self.p.wait(60)
    def restart(self): self.start()
    def send(self, text, wait=0.3):
        s = socket.create_connection(("127.0.0.1", self.stat), 10); s.sendall(text.encode() if isinstance(text, str) else text)
        time.sleep(wait); s.close()
    def cmd(self, line, timeout=60):
        s = socket.create_connection(("127.0.0.1", self.admin), 10); s.settimeout(timeout); s.sendall((line + "\n").encode()); b = b""
        try:
            while not (b.endswith(b"ok\r\n") or b"huh?" in b and b.endswith(b"\r\n")):
                d = s.recv(65536)
                if not d: break
                b += d
        except socket.timeout: pass
        s.close(); return b.decode("latin1")
    def req(self, method, target, body=None, headers={}, timeout=30, port=None):
        c = http.client.HTTPConnection("127.0.0.1", port or self.http, timeout=timeout)
        c.request(method, target, body, headers); r = c.getresponse(); d = r.read(); c.close(); return r.status, d
    def query(self, name, start, end, samples=0, timeout=30):
        st, d = self.req("GET", "/%s?start=%d&end=%d&samples=%d&format=json" % (name, start, end, samples), timeout=timeout)
        if st == 404: return {}
        if st != 200: fail("query answered %d %r" % (st, d[:200]))
        j = json.loads(d)
        return {b["time"]: b["data"] for b in j["buckets"] if b["data"]["count"] > 0}
    def names(self, pattern="*"):
        st, d = self.req("GET", "/?q=" + pattern); return [x["name"] for x in json.loads(d)["matching_names"] if x["is_leaf"]]
def away_from_second(frac=0.3):
    """waits until the clock is just past the turn of a second"""
    t = time.time(); time.sleep(1.05 - t % 1 if t % 1 > 0.1 else 0)
    return int(time.time())
