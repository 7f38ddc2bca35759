"""A minimal in-process ASGI client: HTTP calls and websocket sessions on the
real application object, with every message in the caller's hands."""
import asyncio
import json


class Server:
    def __init__(self, app, loop=None):
        self.app = app
        self.loop = loop or asyncio.new_event_loop()

    def close(self):
        self.loop.close()

    async def acall(self, method, path, payload=None, raw=None):
        """(status, parsed body or None). An exception out of the application is (500, None), as a client would see it."""
        body = raw if raw is not None else (b"" if payload is None else json.dumps(payload).encode())
        scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http",
                 "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "",
                 "headers": [(b"host", b"studio"), (b"content-type", b"application/json"), (b"content-length", str(len(body)).encode())],
                 "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80), "state": {}}
        sent = []
        todo = [{"type": "http.request", "body": body, "more_body": False}]

        async def receive():
            if todo:
                return todo.pop(0)
            await asyncio.Event().wait()

        async def send(message):
            sent.append(message)

        try:
            await self.app(scope, receive, send)
        except Exception as e:  # noqa
            return 500, {"exception": f"{type(e).__name__}: {e}"}
        status = next(m["status"] for m in sent if m["type"] == "http.response.start")
        out = b"".join(m.get("body", b"") for m in sent if m["type"] == "http.response.body")
        try:
            return status, json.loads(out)
        except ValueError:
            return status, None

    def call(self, method, path, payload=None, raw=None):
        return self.loop.run_until_complete(self.acall(method, path, payload, raw))

    def session(self, path="/ws"):
        return Session(self, path)


class Session:
    """One websocket connection. `push` queues a client message, `outbox` collects what the server sent."""

    def __init__(self, server, path):
        self.server = server
        self.inbox = asyncio.Queue()
        self.outbox = []
        self.closed = False
        self.after = None
        scope = {"type": "websocket", "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "ws", "path": path,
                 "raw_path": path.encode(), "query_string": b"", "root_path": "", "headers": [(b"host", b"studio")],
                 "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80), "subprotocols": [], "state": {}}
        self.inbox.put_nowait({"type": "websocket.connect"})

        async def receive():
            return await self.inbox.get()

        async def send(message):
            if self.closed:
                raise OSError("the client has gone")
            if message["type"] == "websocket.send":
                text = message.get("text")
                self.outbox.append(json.loads(text if text is not None else message["bytes"]))
            elif message["type"] == "websocket.close":
                self.outbox.append({"type": "(closed by the server)"})

        self.task = server.loop.create_task(server.app(scope, receive, send))

    def push(self, message):
        self.inbox.put_nowait({"type": "websocket.receive", "text": message if isinstance(message, str) else json.dumps(message)})

    def disconnect(self):
        self.closed = True
        self.inbox.put_nowait({"type": "websocket.disconnect", "code": 1001})
