"""Example data: download faults and tampering with the cache."""
import hashlib
import io
import os
import shutil
import tempfile
import warnings
from pathlib import Path

from mc.explore import Scenario
from mc.util import scratch

ASSUMPTIONS = [
    "no network: the HTTP transport below requests is replaced by a model server",
    "the published files are not available: stand-in contents take the place of the "
    "files with the published SHA-256 checksums (the hash function is extended accordingly)",
]
BASE = "https://github.com/phausamann/rbm-data/raw/main/"
# names, files and checksums as published with the pinned release
PUBLISHED = {
    "head": ("head.nc", "874eddaa51bf775c7311f0046613c6f969adef6e34fe4aea2e1248a75ed3fee3"),
    "left_eye": ("left_eye.nc", "56d5488fb8d3ff08450663ed0136ac659c1d51eb5340a7e3ed52f5ecf019139c"),
    "right_eye": ("right_eye.nc", "b038c4cb2f6932e4334f135cdf7e24ff9c3b5789977b2ae0206ba80acf54c647"),
    "rosbag": ("example.bag", "8d27f5e554f5a0e02e0bec59b60424e582f6104380f96c3f226b4d85c107f2bc"),
}
CONTENT = {k: (b"authentic " + k.encode()) * 400 for k in PUBLISHED}
UNKNOWN = ["Head", "head ", "tail", "", "head.nc", "left eye", "url", None, 0, ("head",), "__getitem__"]
SHA = hashlib.sha256


class FakeSha:
    """SHA-256 which maps the stand-in contents to the published checksums."""

    name, digest_size, block_size = "sha256", 32, 64

    def __init__(self, data=b"", **kw):
        self._b = bytes(data)

    def update(self, data):
        self._b += bytes(data)

    def hexdigest(self):
        for k, c in CONTENT.items():
            if self._b == c:
                return PUBLISHED[k][1]
        return SHA(self._b).hexdigest()

    def digest(self):
        return bytes.fromhex(self.hexdigest())

    def copy(self):
        return FakeSha(self._b)


class Server:
    def __init__(self, ch):
        import pooch.hashes
        import requests.adapters

        self.ch, self.requests, self.mode = ch, [], "ok"
        srv = self

        def send(adapter, request, **kw):
            return srv.respond(request)

        old = requests.adapters.HTTPAdapter.send
        requests.adapters.HTTPAdapter.send = send
        alg = dict(pooch.hashes.ALGORITHMS_AVAILABLE)
        pooch.hashes.ALGORITHMS_AVAILABLE["sha256"] = FakeSha
        hashlib.sha256 = FakeSha
        self.dir = tempfile.mkdtemp(dir=scratch())
        env = {k: os.environ.get(k) for k in ("XDG_CACHE_HOME", "HOME")}
        os.environ["XDG_CACHE_HOME"] = os.path.join(self.dir, "cache")
        os.environ["HOME"] = self.dir

        def undo():
            requests.adapters.HTTPAdapter.send = old
            pooch.hashes.ALGORITHMS_AVAILABLE.clear()
            pooch.hashes.ALGORITHMS_AVAILABLE.update(alg)
            hashlib.sha256 = SHA
            for k, v in env.items():
                os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
            shutil.rmtree(self.dir, ignore_errors=True)

        ch.defer(undo)

    def respond(self, request):
        import requests
        import urllib3

        url = request.url
        self.requests.append(url)
        if self.mode == "refused":
            raise requests.exceptions.ConnectionError("refused")
        if self.mode == "timeout":
            raise requests.exceptions.ReadTimeout("timed out")
        names = [k for k, (f, _) in PUBLISHED.items() if url == BASE + f]
        body = CONTENT[names[0]] if names else b"not found"
        status, length = (200 if names else 404), None
        if self.mode == "not found":
            status, body = 404, b"not found"
        elif self.mode == "error page":
            body = b"<html>rate limited</html>"
        elif self.mode == "altered":
            body = body[:100] + b"X" + body[101:]
        elif self.mode == "truncated":
            body = body[:-1]
        elif self.mode == "longer":
            body = body + b"\n"
        elif self.mode == "empty":
            body = b""
        elif self.mode == "other file":
            body = CONTENT["right_eye" if names == ["left_eye"] else "left_eye"]
        elif self.mode == "connection lost":
            length, body = len(body), body[:1500]

        class Body(io.BytesIO):
            def read(s, *a):
                if self.mode == "interrupted" and s.tell() >= 1024:
                    raise KeyboardInterrupt()
                return super().read(*a)

        r = requests.Response()
        r.status_code = status
        r.url, r.request = url, request
        r.headers = requests.structures.CaseInsensitiveDict(
            {"content-length": str(len(body) if length is None else length)})
        r.raw = urllib3.HTTPResponse(
            body=Body(body), headers=dict(r.headers), status=status, preload_content=False,
            enforce_content_length=True)
        return r


MODES = ["ok", "altered", "truncated", "not found", "refused", "connection lost", "interrupted",
         "empty", "longer", "other file", "error page", "timeout"]
TAMPER = {
    "alter": lambda p: p.write_bytes(b"Y" + p.read_bytes()[1:]),
    "truncate": lambda p: p.write_bytes(p.read_bytes()[:-7]),
    "empty": lambda p: p.write_bytes(b""),
    "delete": lambda p: p.unlink(),
}


def access(ch, srv, name, mode, paths):
    """One access; ``paths``: name -> path of earlier successful accesses."""
    import rigid_body_motion as rbm

    srv.mode = mode
    n = len(srv.requests)
    good = name in paths and paths[name].exists() and paths[name].read_bytes() == CONTENT[name]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = rbm.example_data[name]
    except BaseException as e:
        if type(e).__name__ in ("Violation", "Divergence", "Hang"):
            raise
        p, err = None, e
    ch.step()
    urls = srv.requests[n:]
    what = lambda: f"{name}, server: {mode}, requests {urls}"
    ch.check(all(u == BASE + PUBLISHED[name][0] for u in urls), "wrong address", what)
    if p is None:
        ch.check(not good, "authentic local file not used", lambda: f"{what()}: {err!r}")
        ch.check(mode != "ok", "download failed", lambda: f"{what()}: {err!r}")
        ch.check(name not in paths or not paths[name].exists() or
                 paths[name].read_bytes() in (CONTENT[name], paths.get(("left", name))),
                 "unverified download left in place", what)
        return False
    ch.check(isinstance(p, Path), "path", lambda: repr(p))
    ch.check(p.is_file(), "no such file", lambda: repr(p))
    ch.check(p.read_bytes() == CONTENT[name], "content differs from the published file", what)
    if good:
        ch.check(not urls, "downloaded again", what)
        ch.check(p == paths[name], "path", lambda: f"{p} {paths[name]}")
    others = [v for k, v in paths.items() if k in PUBLISHED and k != name]
    ch.check(p not in others, "path shared with another data set", lambda: str(p))
    paths[name] = p
    return True


def histories(ch, depth, few):
    """Accesses under faults and tampering with local files."""
    srv = Server(ch)
    names = list(PUBLISHED)[1:3] if few else list(PUBLISHED)
    modes = MODES[:7] if few else MODES
    paths = {}
    for k in range(depth):
        ops = ["access"]
        known = [x for x in paths if x in PUBLISHED and paths[x].exists()]
        if known:
            ops.append("tamper")
        op = ch.choose(f"operation {k}", ops, free=True)
        if op == "access":
            name = ch.choose("name", names, free=True)
            mode = ch.choose("server", modes, free=True)
            access(ch, srv, name, mode, paths)
        else:
            name = ch.choose("file", known, free=True)
            how = ch.choose("change", list(TAMPER), free=True)
            TAMPER[how](paths[name])
            ch.step()
            if paths[name].exists():
                paths[("left", name)] = paths[name].read_bytes()
        ch.state(k, op, sorted((x, paths[x].exists() and paths[x].read_bytes() == CONTENT[x])
                               for x in paths if x in PUBLISHED))
    # every data set is available in the end
    for name in PUBLISHED:
        access(ch, srv, name, "ok", paths)
    others = set()
    for name in PUBLISHED:
        ch.check(paths[name].read_bytes() == CONTENT[name], "file damaged by a later access", name)
        others.add(str(paths[name]))
    ch.check(len(others) == len(PUBLISHED), "path shared with another data set", str(others))


def unknown(ch):
    """Unknown names are rejected without touching the network."""
    import rigid_body_motion as rbm

    srv = Server(ch)
    name = ch.choose("name", UNKNOWN, free=True)
    first = ch.flag("after a download", free=True)
    paths = {}
    if first:
        access(ch, srv, "head", "ok", paths)
    n = len(srv.requests)
    try:
        p = rbm.example_data[name]
    except (KeyError, TypeError):
        p = None
    ch.step()
    ch.state(repr(name), first)
    ch.check(p is None, "unknown name accepted", lambda: f"{name!r}: {p}")
    ch.check(len(srv.requests) == n, "request for an unknown name", lambda: str(srv.requests))


def scenarios(tier):
    # before forking
    import logging

    import pooch
    import requests.adapters
    import rigid_body_motion  # noqa
    import urllib3  # noqa

    pooch.get_logger().setLevel(logging.CRITICAL)
    q = tier == "quick"
    return [
        Scenario("single faults and tampering", lambda ch: histories(ch, 2, False), 0),
        Scenario("histories", lambda ch: histories(ch, 3 if q else 4, True), 0),
        Scenario("unknown names", unknown, 0),
    ]
