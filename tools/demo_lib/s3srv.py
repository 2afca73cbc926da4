'''A tiny S3-compatible server that keeps objects in memory.'''
import asyncio  # noqa: F401
import contextlib
import hashlib
import http.server
import os
import socketserver
import sys
import threading
import urllib.parse

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import trio  # noqa: E402
import s3ql.common  # noqa: E402,F401
from s3ql.backends import common as backends_common  # noqa: E402
from s3ql.backends import s3c  # noqa: E402
from s3ql.backends.common import NoSuchObject, CorruptedObjectError  # noqa: E402,F401
from s3ql.backends.comprenc import AsyncComprencBackend  # noqa: E402,F401


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def log_message(self, *a):
        pass

    @property
    def key(self):
        return urllib.parse.unquote(self.path.split('?')[0]).split('/', 2)[2]

    def reply(self, status, body=b'', headers=(), length=None):
        self.send_response(status)
        for k, v in dict(headers).items():
            self.send_header(k, v)
        self.send_header('Content-Length', str(len(body) if length is None else length))
        self.end_headers()
        self.wfile.write(body)

    def error(self, status, code, headers=()):
        body = ('<?xml version="1.0"?><Error><Code>%s</Code><Message>m</Message></Error>' % code).encode()
        self.reply(status, body, {'Content-Type': 'application/xml', **dict(headers)})

    def handle_any(self):
        s = self.server
        n = int(self.headers.get('Content-Length') or 0)
        self.body = self.rfile.read(n)
        s.requests.append((self.command, self.path, dict(self.headers), self.body))
        if s.hook is not None and s.hook(self):
            return
        getattr(self, 's_' + self.command)()

    do_GET = do_HEAD = do_PUT = do_DELETE = do_POST = handle_any

    def handle_expect_100(self):
        self.send_response_only(100)
        self.end_headers()
        return True

    def s_PUT(self):
        meta = {k: v for k, v in self.headers.items() if k.lower().startswith('x-amz-meta')}
        self.server.objects[self.key] = (self.body, meta)
        self.reply(200, b'', {'ETag': '"%s"' % hashlib.md5(self.body).hexdigest()})

    def s_HEAD(self):
        if self.key not in self.server.objects:
            return self.reply(404)
        body, meta = self.server.objects[self.key]
        self.send_response(200)
        for k, v in meta.items():
            self.send_header(k, v)
        self.send_header('ETag', '"%s"' % hashlib.md5(body).hexdigest())
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()

    def s_GET(self):
        if not self.key:
            return self.listing()
        if self.key not in self.server.objects:
            return self.error(404, 'NoSuchKey')
        body, meta = self.server.objects[self.key]
        self.reply(200, body, {'ETag': '"%s"' % hashlib.md5(body).hexdigest(), **meta})

    def s_DELETE(self):
        if self.server.objects.pop(self.key, None) is None:
            return self.error(404, 'NoSuchKey')
        self.reply(204)

    def listing(self):
        q = dict(urllib.parse.parse_qsl(self.path.partition('?')[2]))
        keys = sorted(k for k in self.server.objects
                      if k.startswith(q.get('prefix', '')) and k > q.get('marker', ''))
        n = min(int(q.get('max-keys', 1000)), self.server.page)
        more, keys = len(keys) > n, keys[:n]
        body = ('<?xml version="1.0"?><ListBucketResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/">'
                '<IsTruncated>%s</IsTruncated>%s</ListBucketResult>'
                % (str(more).lower(), ''.join('<Contents><Key>%s</Key></Contents>' % k for k in keys)))
        self.reply(200, body.encode(), {'Content-Type': 'application/xml'})


class Server(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True


@contextlib.contextmanager
def server(hook=None, page=1000):
    s = Server(('127.0.0.1', 0), Handler)
    s.objects = {}
    s.requests = []
    s.hook = hook
    s.page = page
    threading.Thread(target=s.serve_forever, daemon=True).start()
    try:
        yield s
    finally:
        s.shutdown()
        s.server_close()


@contextlib.asynccontextmanager
async def backend(s, cls=None, **options):
    opts = {'no-ssl': True, 'tcp-timeout': '5'}
    opts.update(options)
    b = await (cls or s3c.AsyncBackend).create(
        storage_url='s3c://127.0.0.1:%d/bucket/' % s.server_address[1],
        backend_options=opts, backend_login='login', backend_password='password',
        max_connections=4)
    try:
        yield b
    finally:
        await b.close()


def run(main, limit=60):
    async def wrapper():
        with trio.fail_after(limit):
            await main()
    trio.run(wrapper)
