"""A stand-in for Backblaze B2 that watches its client and misbehaves as told."""
import hashlib
import json
import os
import random
import socket
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qs, urlsplit

TRANSIENT = ['s408', 's429', 's500', 's502', 's503', 'drop', 'lost', 'reset', 'badjson', 'cutjson', 'emptyjson']
# For requests whose answer is a file or of no interest:
TRANSIENT_BODY = ['s408', 's429', 's500', 's503', 'drop', 'reset']
TRANSIENT_UP = TRANSIENT_BODY + ['lost', 'dropmid']
PERMANENT = ['s400', 's401', 's403', 's404', 's405', 's416', 'redirect']
WRONG = ['half', 'short', 'flip', 'swap', 'empty', 'extra']


class B2:
    def __init__(self, rng, key=('kid', 'appkey'), bucket='bucket'):
        self.rng = rng
        self.key, self.bucket = key, bucket
        self.lock = threading.RLock()
        self.store = {}         # name -> [(file id, bytes or None for hidden)]
        self.log = []           # (what, kind, name, outcome)
        self.seq = 0
        self.active = 0
        self.most = 0
        self.session_most = 0
        self.tokens = set()
        self.up_tokens = set()
        self.page = 10000
        self.delay = 0
        self.trickle = False
        self.plan = []          # [fault(kind, name, nth) -> how or None]
        self.counts = {}
        self.caps = ['listFiles', 'readFiles', 'writeFiles', 'deleteFiles', 'listBuckets']
        self.buckets = None
        self.wrong = []         # what the client did that it must not
        self.on_store = None
        outer = self

        class H(BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'
            timeout = 60

            def log_message(self, *a):
                pass

            def do_GET(self):
                outer.handle(self, 'GET')

            def do_POST(self):
                outer.handle(self, 'POST')

        class S(ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128

            def handle_error(self, *a):
                pass
        self.server = S(('127.0.0.1', 0), H)
        self.url = 'http://127.0.0.1:%d' % self.server.server_address[1]
        threading.Thread(target=self.server.serve_forever, daemon=True, kwargs=dict(poll_interval=0.05)).start()

    def close(self):
        self.server.shutdown()
        self.server.server_close()

    # -------------------------------------------------- the store

    def latest(self):
        with self.lock:
            return {n: v[-1][1] for n, v in self.store.items() if v and v[-1][1] is not None}

    def put(self, name, data):
        with self.lock:
            self.seq += 1
            self.store.setdefault(name, []).append(('id%d' % self.seq, data))

    def fresh_run(self, plan=(), page=10000, delay=0, trickle=False):
        with self.lock:
            self.log, self.counts, self.plan = [], {}, list(plan)
            self.most = self.active = 0
            self.page, self.delay, self.trickle = page, delay, trickle

    # -------------------------------------------------- requests

    def handle(self, h, method):
        u = urlsplit(h.path)
        q = {k: v[0] for k, v in parse_qs(u.query).items()}
        p = u.path
        name = ''
        if p.endswith('/b2_authorize_account'):
            kind = 'login'
        elif p.endswith('/b2_list_buckets'):
            kind = 'buckets'
        elif p.endswith('/b2_get_upload_url'):
            kind = 'uploadurl'
        elif p.endswith('/b2_list_file_names'):
            kind, name = 'list', q.get('prefix', '')
        elif p.endswith('/b2_list_file_versions'):
            kind, name = 'versions', q.get('prefix', '')
        elif p.endswith('/b2_delete_file_version'):
            kind = 'delete'
        elif p.startswith('/file/'):
            kind, name = 'get', p[len('/file/' + self.bucket) + 1:]
        elif p.startswith('/upload/'):
            kind, name = 'put', h.headers.get('X-Bz-File-Name', '')
        else:
            kind = 'unknown'
        counted = kind in ('list', 'versions', 'delete', 'get', 'put')
        with self.lock:
            if counted:
                self.active += 1
                self.most = max(self.most, self.active)
            n = self.counts[kind] = self.counts.get(kind, 0) + 1
            how = None
            for f in self.plan:
                how = how or f(kind, name, n)
        done = []

        def leave():
            # Before the last byte goes out: from then on the client may start another.
            if counted and not done:
                done.append(1)
                with self.lock:
                    self.active -= 1
        try:
            self.serve(h, method, kind, name, q, how, leave)
        except (ConnectionError, BrokenPipeError, socket.timeout, ValueError):
            self.note(kind, name, 'client went away')
            h.close_connection = True
        finally:
            leave()

    def note(self, kind, name, what):
        with self.lock:
            self.log.append((kind, name, what))

    def read_body(self, h, stop=None):
        n = int(h.headers.get('Content-Length', 0))
        out = bytearray()
        while len(out) < n:
            if stop is not None and len(out) >= stop:
                return None
            b = h.rfile.read(min(n - len(out), 4096 if self.trickle or stop is not None else 1 << 16))
            if not b:
                return None
            out += b
            if self.trickle:
                time.sleep(0.0005)
        return bytes(out)

    def reply(self, h, status, body, leave, headers=(), length=None, read=False):
        if not body or not read:
            # Nobody has to read such a body.
            leave()
        h.send_response(status)
        h.send_header('Content-Length', str(len(body) if length is None else length))
        for k, v in headers:
            h.send_header(k, v)
        h.end_headers()
        h.wfile.flush()
        if not body:
            return
        if self.trickle:
            step = max(1, len(body) // 20)
            for i in range(0, len(body) - 1, step):
                h.wfile.write(body[i:min(i + step, len(body) - 1)])
                h.wfile.flush()
                time.sleep(0.001)
        else:
            h.wfile.write(body[:-1])
            h.wfile.flush()
        leave()
        h.wfile.write(body[-1:])
        h.wfile.flush()

    def hang_up(self, h, reset=False):
        h.close_connection = True
        s = h.connection
        if reset:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b'\1\0\0\0\0\0\0\0')
            # Closing happens when the handler ends; linger of zero makes it a reset.
            h.wfile = open(os.devnull, 'wb')
            s.close()
            return
        try:
            s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass

    def bad_client(self, what):
        with self.lock:
            self.wrong.append(what)

    def serve(self, h, method, kind, name, q, how, leave):
        if self.delay:
            time.sleep(self.delay * self.rng.random())
        body = b''
        if how == 'dropmid' and method == 'POST':
            n = int(h.headers.get('Content-Length', 0))
            self.read_body(h, stop=max(1, n // 2))
            self.note(kind, name, how)
            leave()
            return self.hang_up(h)
        if how in ('drop', 'reset'):
            if method == 'POST' and self.rng.random() < 0.5:
                self.read_body(h)
            self.note(kind, name, how)
            leave()
            return self.hang_up(h, how == 'reset')
        if method == 'POST':
            body = self.read_body(h)
            if body is None:
                self.note(kind, name, 'cut short')
                h.close_connection = True
                return
        if how and how[0] == 's' and how[1:].isdigit():
            self.note(kind, name, how)
            return self.reply(h, int(how[1:]), json.dumps(dict(status=int(how[1:]), code='planned', message='as planned')).encode(), leave)
        if how == 'redirect':
            self.note(kind, name, how)
            return self.reply(h, 302, b'', leave, [('Location', self.url + '/elsewhere')])
        status, out = self.act(h, kind, name, q, body)
        if how == 'lost':
            self.note(kind, name, 'done, answer lost')
            leave()
            return self.hang_up(h)
        if kind != 'get' or status != 200:
            out = json.dumps(out).encode()
            if how == 'badjson':
                out = b'<html>' + out
            elif how == 'cutjson':
                self.note(kind, name, how)
                self.reply(h, status, out[:len(out) // 2], leave, length=len(out))
                return self.hang_up(h)
            elif how == 'emptyjson':
                out = b'{}'
            self.note(kind, name, how or 'ok %d' % status)
            return self.reply(h, status, out, leave, read=status == 200 and kind in ('list', 'versions') and not how)
        if how == 'half':
            self.note(kind, name, how)
            self.reply(h, 200, out[:max(1, len(out) // 2)], leave, length=len(out))
            return self.hang_up(h)
        if how == 'short':
            out = out[:len(out) // 2]
        elif how == 'flip' and out:
            at = self.rng.randrange(len(out))
            out = out[:at] + bytes([out[at] ^ 1 << self.rng.randrange(8)]) + out[at + 1:]
        elif how == 'empty':
            out = b''
        elif how == 'extra':
            out = out + b'\0' * 100
        elif how == 'swap':
            others = [v for n, v in self.latest().items() if n != name and n.split('/')[0] == name.split('/')[0]]
            out = self.rng.choice(others) if others else b''
        self.note(kind, name, how or 'ok 200')
        self.reply(h, 200, out, leave, read=True)

    def authorized(self, h):
        return h.headers.get('Authorization', '') in self.tokens

    def act(self, h, kind, name, q, body):
        """What B2 would do."""
        no = lambda s, c: (s, dict(status=s, code=c, message=c))
        with self.lock:
            if kind == 'login':
                import base64
                a = h.headers.get('Authorization', '')
                if a.replace('Basic ', 'Basic', 1) != 'Basic' + base64.b64encode(':'.join(self.key).encode()).decode():
                    return no(401, 'bad_auth_token')
                t = 'token%d' % len(self.tokens)
                self.tokens.add(t)
                return 200, dict(accountId='acct', authorizationToken=t, apiInfo=dict(storageApi=dict(apiUrl=self.url, downloadUrl=self.url, capabilities=self.caps)))
            if kind == 'put':
                if h.headers.get('Authorization', '') not in self.up_tokens:
                    return no(401, 'expired_auth_token')
                if h.headers.get('X-Bz-Content-Sha1') == 'hex_digits_at_end':
                    body, sha = body[:-40], body[-40:].decode('ascii', 'replace')
                else:
                    sha = h.headers.get('X-Bz-Content-Sha1', '')
                if hashlib.sha1(body).hexdigest() != sha:
                    self.bad_client('upload of %s with a wrong hash' % name)
                    return no(400, 'bad_request')
                self.seq += 1
                fid = 'id%d' % self.seq
                self.store.setdefault(name, []).append((fid, body))
                if self.on_store:
                    self.on_store('put', name)
                return 200, dict(fileId=fid, fileName=name, contentLength=len(body), contentSha1=sha, action='upload')
            if not self.authorized(h):
                return no(401, 'expired_auth_token')
            if kind == 'buckets':
                bs = [self.bucket] if self.buckets is None else self.buckets
                return 200, dict(buckets=[dict(bucketName=b, bucketId='bid-' + b, accountId='acct') for b in bs])
            if kind == 'uploadurl':
                t = 'up%d' % len(self.up_tokens)
                self.up_tokens.add(t)
                return 200, dict(bucketId=q.get('bucketId'), uploadUrl=self.url + '/upload/' + t, authorizationToken=t)
            if kind in ('list', 'versions', 'delete') and kind != 'delete' and q.get('bucketId') != 'bid-' + self.bucket:
                return no(400, 'bad_bucket_id')
            if kind == 'list':
                names = sorted(n for n in self.store if self.store[n] and n.startswith(q.get('prefix', '')) and n >= q.get('startFileName', ''))
                # Hidden files are left out by B2; it lists folders only when asked to. Some stand-ins show them.
                k = min(self.page, int(q.get('maxFileCount', 100)))
                fs = [dict(fileName=n, contentLength=len(self.store[n][-1][1]), action='upload', fileId=self.store[n][-1][0]) if self.store[n][-1][1] is not None
                      else dict(fileName=n, contentLength=0, action='hide', fileId=self.store[n][-1][0]) for n in names[:k]]
                return 200, dict(files=fs, nextFileName=names[k] if len(names) > k else None)
            if kind == 'versions':
                out = []
                for n in sorted(self.store):
                    if n.startswith(q.get('prefix', '')) and n >= q.get('startFileName', ''):
                        for fid, b in reversed(self.store[n]):
                            out.append(dict(fileName=n, fileId=fid, action='upload' if b is not None else 'hide', contentLength=len(b or b'')))
                return 200, dict(files=out[:100], nextFileName=None, nextFileId=None)
            if kind == 'delete':
                v = json.loads(body)
                vs = self.store.get(v.get('fileName'), [])
                keep = [x for x in vs if x[0] != v.get('fileId')]
                if len(keep) == len(vs):
                    return no(400, 'file_not_present')
                if keep:
                    self.store[v['fileName']] = keep
                else:
                    del self.store[v['fileName']]
                if self.on_store:
                    self.on_store('delete', v['fileName'])
                return 200, dict(fileName=v['fileName'], fileId=v['fileId'])
            if kind == 'get':
                vs = self.store.get(name)
                if not vs or vs[-1][1] is None:
                    return no(404, 'not_found')
                return 200, vs[-1][1]
            self.bad_client('%s %s' % (h.command, h.path))
            return no(400, 'bad_request')


def burst(kinds, start, times, how, name=''):
    """Requests of these kinds, from the nth on, fail so many times."""
    left = [times]

    def f(kind, nm, n):
        if kind in kinds and n >= start and left[0] > 0 and name in nm:
            left[0] -= 1
            return how if isinstance(how, str) else how(kind)
        return None
    f.left = left
    f.times = times
    return f
