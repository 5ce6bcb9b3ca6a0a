"""The real FastAPI application on the real Engine front half (see front.py),
called through its ASGI interface: no sockets, no subprocesses."""
import asyncio
import json

try:
    from harness.py import front
except ImportError:
    import front
from pymllm.server import launch as srv


class Client:
    """One HTTP exchange; parsed as it arrives."""

    def __init__(self, method, path, body, headers=()):
        self.body = json.dumps(body).encode() if body is not None else b""
        self.scope = dict(type="http", asgi={"version": "3.0", "spec_version": "2.3"}, http_version="1.1", method=method,
                          scheme="http", path=path, raw_path=path.encode(), query_string=b"", root_path="",
                          headers=[(b"host", b"t"), (b"content-type", b"application/json"),
                                   (b"content-length", str(len(self.body)).encode())] + [(a.encode(), b.encode()) for a, b in headers],
                          client=("127.0.0.1", 1), server=("127.0.0.1", 2))
        self.sent_body = False
        self.gone = asyncio.Event()
        self.status, self.raw, self.over, self.read_to = None, b"", False, 0
        self.task = asyncio.get_running_loop().create_task(self._run())

    async def _receive(self):
        if not self.sent_body:
            self.sent_body = True
            return {"type": "http.request", "body": self.body, "more_body": False}
        await self.gone.wait()
        return {"type": "http.disconnect"}

    async def _send(self, m):
        if self.gone.is_set():
            return                              # what uvicorn does with output nobody reads
        if m["type"] == "http.response.start":
            self.status = m["status"]
            self.sse = any(v.startswith(b"text/event-stream") for k, v in m["headers"] if k.lower() == b"content-type")
        elif m["type"] == "http.response.body":
            self.raw += m.get("body", b"")
            if not m.get("more_body"):
                self.over = True

    async def _run(self):
        await srv.app(self.scope, self._receive, self._send)

    def leave(self):
        self.gone.set()

    def events(self):
        """Server-sent events complete since the last call."""
        out = []
        while True:
            e = self.raw.find(b"\n\n", self.read_to)
            if e < 0:
                return out
            line = self.raw[self.read_to:e].decode()
            assert line.startswith("data: "), line
            self.read_to = e + 2
            out.append("DONE" if line == "data: [DONE]" else json.loads(line[6:]))

    def answer(self):
        return json.loads(self.raw)


def make(**server):
    e, rr, s = front.make()
    srv._engine = e
    cfg = srv.get_global_config()
    for k, v in dict(dict(served_model_name="m", reasoning_parser=None, tool_call_parser=None, api_key=None, admin_api_key=None,
                          max_queued_requests=None), **server).items():
        setattr(cfg.server, k, v)
    return e, rr, s
