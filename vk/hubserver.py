"""A model hub on the loopback interface: repositories with revisions, over the parts of the HTTP interface that
huggingface_hub uses. A forked child serves <root>/repos/<org>/<name>/{refs.json,<sha>/...}; it logs every request to
<root>/log/<org> and fails on demand (<root>/fault/<org>)."""

import hashlib
import json
import os
import shutil
import signal
import socketserver
import tempfile
import threading
import time
import urllib.parse
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

ROOT = None
PORT = None


def sha_of(text):
    return hashlib.sha1(text.encode()).hexdigest()


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    timeout = 60

    def log_message(self, *a):
        pass

    def note(self, org, line):
        with open(os.path.join(ROOT, "log", org), "a") as f:
            f.write(line + "\n")

    def reply(self, code, body=b"", ctype="application/json", **headers):
        if not isinstance(body, bytes):
            body = json.dumps(body).encode()
        self.send_response(code)
        self.send_header("Content-Type", ctype)
        self.send_header("Content-Length", str(len(body)))
        for k, v in headers.items():
            self.send_header(k.replace("_", "-"), v)
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(body)

    def missing(self, kind):
        self.reply(401 if kind == "RepoNotFound" else 404, {"error": kind}, X_Error_Code=kind, X_Error_Message=kind)

    def repo(self, org, name, rev):
        """directory of a revision and its commit, or None after the answer is given"""
        d = os.path.join(ROOT, "repos", org, name)
        if not os.path.exists(os.path.join(d, "refs.json")):
            self.missing("RepoNotFound")
            return None
        with open(os.path.join(d, "refs.json")) as f:
            refs = json.load(f)
        sha = refs.get(rev, rev)
        if sha not in refs.values():
            self.missing("RevisionNotFound")
            return None
        return os.path.join(d, sha), sha

    def do_HEAD(self):
        self.do_GET()

    def do_POST(self):
        n = int(self.headers.get("Content-Length") or 0)
        self.rfile.read(n)
        self.missing("EntryNotFound")

    def do_GET(self):
        url = urllib.parse.urlsplit(self.path)
        parts = [urllib.parse.unquote(p) for p in url.path.strip("/").split("/")]
        try:
            if parts[:2] == ["api", "models"]:
                return self.api(parts[2:], urllib.parse.parse_qs(url.query))
            if len(parts) > 4 and parts[2] == "resolve":
                return self.file(parts[0], parts[1], parts[3], "/".join(parts[4:]))
            self.missing("EntryNotFound")
        except (BrokenPipeError, ConnectionResetError):
            self.close_connection = True

    def api(self, parts, q):
        if len(parts) < 2:
            return self.missing("RepoNotFound")
        org, name, *rest = parts
        if rest and rest[0] not in ("revision", "tree"):
            return self.missing("EntryNotFound")
        at = self.repo(org, name, rest[1] if rest else "main")
        self.note(org, f"api {name} {'/'.join(rest)}")
        if at is None:
            return
        d, sha = at
        if rest and rest[0] == "tree":
            base = "/".join(rest[2:])
            if base and not os.path.isdir(os.path.join(d, base)):
                return self.missing("EntryNotFound")
            out = []
            deep = q.get("recursive", ["false"])[0].lower() == "true"
            for r, subs, fs in os.walk(os.path.join(d, base)):
                for n in sorted(subs):
                    p = os.path.relpath(os.path.join(r, n), d)
                    out.append(dict(type="directory", path=p, oid=sha_of(p), size=0))
                for n in sorted(fs):
                    p = os.path.relpath(os.path.join(r, n), d)
                    out.append(dict(type="file", path=p, oid=sha_of(sha + p), size=os.path.getsize(os.path.join(r, n))))
                if not deep:
                    break
            return self.reply(200, out)
        files = sorted(os.path.relpath(os.path.join(r, n), d) for r, _, fs in os.walk(d) for n in fs)
        self.reply(200, dict(_id=sha_of(org + name)[:24], id=f"{org}/{name}", modelId=f"{org}/{name}", sha=sha, private=False, gated=False, disabled=False, downloads=0, likes=0, tags=[],
                             siblings=[dict(rfilename=f) for f in files]))

    def file(self, org, name, rev, fn):
        at = self.repo(org, name, rev)
        if at is None:
            return
        d, sha = at
        p = os.path.join(d, fn)
        self.note(org, f"{self.command} {name} {sha} {fn}")
        if not os.path.isfile(p):
            return self.missing("EntryNotFound")
        with open(p, "rb") as f:
            data = f.read()
        head = dict(ETag='"' + hashlib.sha256(data).hexdigest() + '"', X_Repo_Commit=sha, Accept_Ranges="bytes")
        if self.command == "GET":
            if self.fault(org, fn, data, head):
                return
            rng = self.headers.get("Range")
            if rng and rng.startswith("bytes="):
                a, _, b = rng[6:].partition("-")
                a = int(a or 0)
                b = int(b) if b else len(data) - 1
                if a >= len(data):
                    return self.reply(416, b"")
                return self.reply(206, data[a : b + 1], "application/octet-stream", Content_Range=f"bytes {a}-{b}/{len(data)}", **head)
        self.reply(200, data, "application/octet-stream", **head)

    def fault(self, org, fn, data, head):
        fp = os.path.join(ROOT, "fault", org)
        if not os.path.exists(fp):
            return False
        with LOCK:
            if not os.path.exists(fp):
                return False
            with open(fp) as f:
                what = json.load(f)
            what["after"] -= 1
            if what["after"] >= 0:
                with open(fp, "w") as f:
                    json.dump(what, f)
                return False
            if not what.get("stay"):
                os.remove(fp)
        self.note(org, f"fault {what['kind']} {fn}")
        if what["kind"] == "error":
            self.reply(403, {"error": "no"}, X_Error_Message="no")
            return True
        if what["kind"] == "gone":
            self.missing("EntryNotFound")
            return True
        # the connection breaks within the file
        self.send_response(200)
        self.send_header("Content-Length", str(len(data)))
        for k, v in head.items():
            self.send_header(k.replace("_", "-"), v)
        self.end_headers()
        self.wfile.write(data[: int(len(data) * what["part"])])
        self.wfile.flush()
        self.close_connection = True
        return True


LOCK = threading.Lock()


class Server(ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 64

    def handle_error(self, *a):
        pass


def start():
    """Before huggingface_hub is imported: fork the server and point the libraries at it."""
    global ROOT, PORT
    ROOT = tempfile.mkdtemp(prefix="vk-hub-")
    for d in ("repos", "log", "fault", "home"):
        os.makedirs(os.path.join(ROOT, d))
    me = os.getpid()
    srv = Server(("127.0.0.1", 0), Handler)
    PORT = srv.server_address[1]
    pid = os.fork()
    if pid == 0:
        signal.signal(signal.SIGINT, signal.SIG_IGN)

        def watch():
            while os.getppid() == me:
                time.sleep(0.5)
            shutil.rmtree(ROOT, ignore_errors=True)
            os._exit(0)

        threading.Thread(target=watch, daemon=True).start()
        srv.serve_forever()
        os._exit(0)
    srv.socket.close()
    for k in ("HF_HUB_OFFLINE", "TRANSFORMERS_OFFLINE", "HF_DATASETS_OFFLINE"):
        os.environ[k] = "0"
    for k in list(os.environ):
        if k.lower() in ("http_proxy", "https_proxy", "all_proxy"):
            del os.environ[k]
    os.environ.update(HF_ENDPOINT=f"http://127.0.0.1:{PORT}", HF_HOME=os.path.join(ROOT, "home"), HF_HUB_DISABLE_XET="1", HF_HUB_DISABLE_TELEMETRY="1", HF_HUB_DISABLE_PROGRESS_BARS="1",
                      DISABLE_SAFETENSORS_CONVERSION="1", NO_PROXY="127.0.0.1", no_proxy="127.0.0.1", HF_HUB_DISABLE_IMPLICIT_TOKEN="1")
    return pid


def stop(pid):
    try:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    except (ProcessLookupError, ChildProcessError):
        pass
    shutil.rmtree(ROOT, ignore_errors=True)


# ---- for the workloads -------------------------------------------------------------------------------------------------
def publish(org, name, revisions, main):
    """revisions: {label: directory}; the repository's main branch is `main`. Returns {label: commit}."""
    d = os.path.join(ROOT, "repos", org, name)
    os.makedirs(d)
    refs = {}
    for label, src in revisions.items():
        refs[label] = sha_of(f"{org}/{name}/{label}")
        shutil.copytree(src, os.path.join(d, refs[label]))
    refs["main"] = refs[main]
    with open(os.path.join(d, "refs.json"), "w") as f:
        json.dump(refs, f)
    return refs


def move_main(org, name, label):
    p = os.path.join(ROOT, "repos", org, name, "refs.json")
    with open(p) as f:
        refs = json.load(f)
    refs["main"] = refs[label]
    with open(p, "w") as f:
        json.dump(refs, f)


def log(org, clear=False):
    p = os.path.join(ROOT, "log", org)
    if not os.path.exists(p):
        return []
    with open(p) as f:
        out = f.read().splitlines()
    if clear:
        os.remove(p)
    return out


def fault(org, **kw):
    with open(os.path.join(ROOT, "fault", org), "w") as f:
        json.dump(kw, f)


def forget(org):
    """drop a case's repositories, log and downloads"""
    shutil.rmtree(os.path.join(ROOT, "repos", org), ignore_errors=True)
    for d in ("log", "fault"):
        p = os.path.join(ROOT, d, org)
        if os.path.exists(p):
            os.remove(p)
    for base in (os.path.join(ROOT, "home", "hub"), os.path.join(ROOT, "home", "hub", ".locks")):
        if os.path.isdir(base):
            for n in os.listdir(base):
                if n.startswith(f"models--{org}--"):
                    shutil.rmtree(os.path.join(base, n), ignore_errors=True)
