"""An independent, deliberately boring implementation of the wire formats (Connect,
gRPC, gRPC-Web) for wrapper StringValue messages.  It shares no code with connectrpc
and acts as the spec-conforming peer and the oracle."""
from __future__ import annotations

import base64
import gzip
import json
import zlib
from dataclasses import dataclass, field

import brotli
import zstandard

CODES = [
    "canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found",
    "already_exists", "permission_denied", "resource_exhausted", "failed_precondition",
    "aborted", "out_of_range", "unimplemented", "internal", "unavailable", "data_loss",
    "unauthenticated",
]
GRPC_NUM = {c: i + 1 for i, c in enumerate(CODES)}
# https://connectrpc.com/docs/protocol/#error-codes
HTTP_STATUS = {
    "canceled": 499, "unknown": 500, "invalid_argument": 400, "deadline_exceeded": 504,
    "not_found": 404, "already_exists": 409, "permission_denied": 403,
    "resource_exhausted": 429, "failed_precondition": 400, "aborted": 409,
    "out_of_range": 400, "unimplemented": 501, "internal": 500, "unavailable": 503,
    "data_loss": 500, "unauthenticated": 401,
}
# https://connectrpc.com/docs/protocol/#http-to-error-code
FROM_HTTP = {
    400: "internal", 401: "unauthenticated", 403: "permission_denied",
    404: "unimplemented", 429: "unavailable", 502: "unavailable", 503: "unavailable",
    504: "unavailable",
}


class WireError(Exception):
    pass


# -- messages ---------------------------------------------------------------
def varint(n: int) -> bytes:
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def read_varint(b: bytes, i: int) -> tuple[int, int]:
    n = s = 0
    while True:
        if i >= len(b):
            raise WireError("short varint")
        n |= (b[i] & 0x7F) << s
        s += 7
        i += 1
        if not b[i - 1] & 0x80:
            return n, i


def fields(b: bytes):
    i = 0
    while i < len(b):
        tag, i = read_varint(b, i)
        num, wt = tag >> 3, tag & 7
        if wt == 0:
            v, i = read_varint(b, i)
        elif wt == 2:
            ln, i = read_varint(b, i)
            if i + ln > len(b):
                raise WireError("short field")
            v = bytes(b[i : i + ln])
            i += ln
        else:
            raise WireError(f"wire type {wt}")
        yield num, v


def enc_msg(codec: str, s: str) -> bytes:
    if codec == "text":
        # (a codec of the application)
        return b"T" + s.encode()
    if codec == "json":
        return json.dumps(s).encode()
    raw = s.encode()
    return b"" if not raw else b"\x0a" + varint(len(raw)) + raw


def dec_msg(codec: str, b: bytes) -> str:
    b = bytes(b)
    if codec == "text":
        if b[:1] != b"T":
            raise WireError(f"not text: {b!r}")
        return b[1:].decode()
    if codec == "json":
        v = json.loads(b)
        if not isinstance(v, str):
            raise WireError(f"not a string: {v!r}")
        return v
    out = ""
    for num, v in fields(b):
        if num == 1 and isinstance(v, bytes):
            out = v.decode()
    return out


# -- compression ------------------------------------------------------------
def compress(name: str, b: bytes) -> bytes:
    match name:
        case "identity":
            return b
        case "gzip":
            return gzip.compress(b, mtime=0)
        case "br":
            return brotli.compress(b)
        case "zstd":
            return zstandard.ZstdCompressor().compress(b)
        case "x-rot":
            # (an algorithm of the application)
            return b"!" + bytes(b)[::-1]
    raise WireError(name)


def decompress(name: str, b: bytes) -> bytes:
    b = bytes(b)
    if name == "x-rot":
        if b[:1] != b"!":
            raise WireError(f"bad x-rot: {b!r}")
        return b[1:][::-1]
    try:
        match name:
            case "identity":
                return b
            case "gzip":
                return gzip.decompress(b)
            case "br":
                return brotli.decompress(b)
            case "zstd":
                return zstandard.ZstdDecompressor().decompressobj().decompress(b)
    except (OSError, zlib.error, brotli.error, zstandard.ZstdError, EOFError) as e:
        raise WireError(f"bad {name}: {e}") from e
    raise WireError(f"unknown encoding {name!r}")


# -- envelopes --------------------------------------------------------------
def env(flag: int, data: bytes) -> bytes:
    return bytes([flag]) + len(data).to_bytes(4, "big") + data


def split_envs(b: bytes) -> tuple[list[tuple[int, bytes]], bytes]:
    out = []
    i = 0
    while len(b) - i >= 5:
        n = int.from_bytes(b[i + 1 : i + 5], "big")
        if len(b) - i - 5 < n:
            break
        out.append((b[i], bytes(b[i + 5 : i + 5 + n])))
        i += 5 + n
    return out, bytes(b[i:])


# -- errors -----------------------------------------------------------------
@dataclass
class Err:
    code: str
    message: str = ""
    details: list[tuple[str, bytes]] = field(default_factory=list)
    prefix: str = "type.googleapis.com/"  # of the type URLs, where there are any

    def key(self):
        return (self.code, self.message, tuple(self.details))


def b64d(s: str) -> bytes:
    s = s.strip()
    return base64.b64decode(s + "=" * (-len(s) % 4))


def err_to_dict(e: Err) -> dict:
    d: dict = {"code": e.code}
    if e.message:
        d["message"] = e.message
    if e.details:
        d["details"] = [
            {"type": t, "value": base64.b64encode(v).decode().rstrip("=")}
            for t, v in e.details
        ]
    return d


def err_from_dict(d: dict) -> Err:
    if not isinstance(d, dict):
        raise WireError(f"error is not an object: {d!r}")
    code = d.get("code")
    if code not in CODES:
        raise WireError(f"bad code {code!r}")
    det = []
    for x in d.get("details", []):
        if "/" in x["type"]:
            raise WireError(f"detail type must be unprefixed: {x['type']}")
        if "=" in x["value"]:
            raise WireError("detail value must be unpadded base64")
        det.append((x["type"], b64d(x["value"])))
    return Err(code, d.get("message", ""), det)


def pct_encode(s: str) -> str:
    """gRPC spec percent-encoding: bytes outside 0x20-0x7E, and '%'."""
    out = [
        chr(b) if 0x20 <= b <= 0x7E and b != 0x25 else f"%{b:02X}" for b in s.encode()
    ]
    # HTTP strips optional whitespace around field values; encoding it is always allowed
    for i in (0, -1):
        if out and out[i] == " ":
            out[i] = "%20"
    return "".join(out)


def pct_decode(s: str) -> str:
    out = bytearray()
    raw = s.encode("ascii")
    i = 0
    while i < len(raw):
        if raw[i] == 0x25 and i + 2 < len(raw) + 0:
            try:
                out.append(int(raw[i + 1 : i + 3], 16))
                i += 3
                continue
            except ValueError:
                pass
        out.append(raw[i])
        i += 1
    return out.decode()


def status_bin(e: Err) -> bytes:
    b = b"\x08" + varint(GRPC_NUM[e.code])
    m = e.message.encode()
    if m:
        b += b"\x12" + varint(len(m)) + m
    for t, v in e.details:
        u = (e.prefix + t).encode()
        a = b"\x0a" + varint(len(u)) + u
        if v:
            a += b"\x12" + varint(len(v)) + v
        b += b"\x1a" + varint(len(a)) + a
    return b


def parse_status_bin(b: bytes) -> Err:
    code = 0
    msg = ""
    det = []
    for num, v in fields(b):
        if num == 1:
            code = v
        elif num == 2:
            msg = v.decode()
        elif num == 3:
            t, val = "", b""
            for n2, v2 in fields(v):
                if n2 == 1:
                    t = v2.decode()
                elif n2 == 2:
                    val = v2
            det.append((t.rsplit("/", 1)[-1], val))
    if not 1 <= code <= 16:
        raise WireError(f"bad status code {code}")
    return Err(CODES[code - 1], msg, det)


def grpc_trailers(e: Err | None) -> list[tuple[str, str]]:
    if e is None:
        return [("grpc-status", "0")]
    out = [("grpc-status", str(GRPC_NUM[e.code]))]
    if e.message:
        out.append(("grpc-message", pct_encode(e.message)))
    if e.details:
        out.append(
            ("grpc-status-details-bin", base64.b64encode(status_bin(e)).decode().rstrip("="))
        )
    return out


def parse_grpc_trailers(tr: list[tuple[str, str]]) -> tuple[Err | None, list[tuple[str, str]]]:
    """(error or None, user trailers)"""
    d: dict[str, list[str]] = {}
    user = []
    for k, v in tr:
        k = k.lower()
        if k in ("grpc-status", "grpc-message", "grpc-status-details-bin"):
            d.setdefault(k, []).append(v)
        else:
            user.append((k, v))
    st = d.get("grpc-status")
    if not st or len(st) != 1:
        raise WireError(f"grpc-status: {st}")
    if st[0] == "0":
        return None, user
    if not st[0].isdigit() or not 1 <= int(st[0]) <= 16:
        raise WireError(f"grpc-status {st[0]!r}")
    raw = d.get("grpc-message", [""])[0]
    if any(not 0x20 <= ord(c) <= 0x7E for c in raw):
        raise WireError(f"grpc-message not percent-encoded: {raw!r}")
    e = Err(CODES[int(st[0]) - 1], pct_decode(raw))
    if "grpc-status-details-bin" in d:
        e2 = parse_status_bin(b64d(d["grpc-status-details-bin"][0]))
        if (e2.code, e2.message) != (e.code, e.message):
            raise WireError(f"status details disagree: {e2} vs {e}")
        e.details = e2.details
    return e, user


# -- requests and responses -------------------------------------------------
PROTOS = ("connect", "grpc", "grpcweb")
KINDS = ("unary", "client_stream", "server_stream", "bidi")


@dataclass
class Req:
    method: str
    path: str
    query: str
    headers: list[tuple[str, str]]
    chunks: list[bytes]

    @property
    def body(self) -> bytes:
        return b"".join(self.chunks)


@dataclass
class Resp:
    status: int
    headers: list[tuple[str, str]]
    chunks: list[bytes]
    trailers: list[tuple[str, str]] | None = None

    @property
    def body(self) -> bytes:
        return b"".join(self.chunks)

    def get(self, name: str, default=None):
        for k, v in self.headers:
            if k.lower() == name:
                return v
        return default

    def getall(self, name: str):
        return [v for k, v in self.headers if k.lower() == name]


def content_type(proto: str, kind: str, codec: str) -> str:
    if proto == "connect":
        return f"application/{codec}" if kind == "unary" else f"application/connect+{codec}"
    if proto == "grpc":
        return f"application/grpc+{codec}"
    return f"application/grpc-web+{codec}"


def enc_header(proto: str, kind: str) -> str:
    if proto == "connect":
        return "content-encoding" if kind == "unary" else "connect-content-encoding"
    return "grpc-encoding"


def accept_header(proto: str, kind: str) -> str:
    if proto == "connect":
        return "accept-encoding" if kind == "unary" else "connect-accept-encoding"
    return "grpc-accept-encoding"


def build_request(proto, kind, codec, msgs, *, path, comp="identity", accept=None,
                  headers=(), timeout=None, flags=None) -> Req:
    h = [("host", "example.test"), ("content-type", content_type(proto, kind, codec))]
    if comp != "identity":
        h.append((enc_header(proto, kind), comp))
    if accept is not None:
        h.append((accept_header(proto, kind), accept))
    if proto == "connect":
        h.append(("connect-protocol-version", "1"))
        if timeout is not None:
            h.append(("connect-timeout-ms", timeout))
    else:
        h.append(("te", "trailers"))
        if timeout is not None:
            h.append(("grpc-timeout", timeout))
    h.extend(headers)
    enc = [compress(comp, enc_msg(codec, m)) for m in msgs]
    if proto == "connect" and kind == "unary":
        body = enc[0] if enc else b""
    else:
        body = b"".join(env(0 if comp == "identity" else 1, e) for e in enc)
    return Req("POST", path, "", h, [body])


def build_response(proto, kind, codec, msgs, *, error: Err | None = None, comp="identity",
                   headers=(), trailers=(), trailers_only=False) -> Resp:
    h = []
    if proto == "connect" and kind == "unary":
        if error is not None:
            h.append(("content-type", "application/json"))
            body = json.dumps(err_to_dict(error)).encode()
            status = HTTP_STATUS[error.code]
        else:
            h.append(("content-type", content_type(proto, kind, codec)))
            body = compress(comp, enc_msg(codec, msgs[0]))
            status = 200
            if comp != "identity":
                h.append(("content-encoding", comp))
        h.extend(headers)
        h.extend(("trailer-" + k, v) for k, v in trailers)
        return Resp(status, h, [body])
    h.append(("content-type", content_type(proto, kind, codec)))
    if comp != "identity":
        h.append((enc_header(proto, kind), comp))
    h.extend(headers)
    flag = 0 if comp == "identity" else 1
    chunks = [env(flag, compress(comp, enc_msg(codec, m))) for m in msgs]
    if proto == "connect":
        end: dict = {}
        if trailers:
            md: dict = {}
            for k, v in trailers:
                md.setdefault(k, []).append(v)
            end["metadata"] = md
        if error is not None:
            end["error"] = err_to_dict(error)
        chunks.append(env(flag | 2, compress(comp, json.dumps(end).encode())))
        return Resp(200, h, chunks)
    tr = list(trailers) + grpc_trailers(error)
    if proto == "grpc":
        if trailers_only and not msgs:
            return Resp(200, h + tr, [], [])
        return Resp(200, h, chunks, tr)
    data = "".join(f"{k}: {v}\r\n" for k, v in tr).encode()
    chunks.append(env(flag | 0x80, compress(comp, data)))
    return Resp(200, h, chunks)


HOP = {"content-type", "content-encoding", "vary", "connect-content-encoding",
       "grpc-encoding", "content-length", "trailer", "date", "server"}


@dataclass
class Parsed:
    msgs: list[str]
    error: Err | None
    headers: list[tuple[str, str]]  # user headers
    trailers: list[tuple[str, str]]  # user trailers
    comp: str = "identity"


def parse_response(proto, kind, codec, r: Resp, *, decoded_unary=False) -> Parsed:
    """Strict reading of a response by the spec. Raises WireError if malformed."""
    user = [(k.lower(), v) for k, v in r.headers if k.lower() not in HOP]
    if proto == "connect" and kind == "unary":
        hdrs = [(k, v) for k, v in user if not k.startswith("trailer-")]
        tr = [(k[len("trailer-"):], v) for k, v in user if k.startswith("trailer-")]
        if r.status == 200:
            if r.get("content-type") != content_type(proto, kind, codec):
                raise WireError(f"content-type {r.get('content-type')!r}")
            comp = r.get("content-encoding", "identity")
            body = r.body if decoded_unary else decompress(comp, r.body)
            return Parsed([dec_msg(codec, body)], None, hdrs, tr, comp)
        if r.get("content-type") != "application/json":
            raise WireError(f"error content-type {r.get('content-type')!r} status {r.status}")
        e = err_from_dict(json.loads(r.body))
        if HTTP_STATUS[e.code] != r.status:
            raise WireError(f"status {r.status} for code {e.code}")
        return Parsed([], e, hdrs, tr)
    if r.status != 200:
        raise WireError(f"stream response status {r.status}")
    if r.get("content-type") != content_type(proto, kind, codec):
        raise WireError(f"content-type {r.get('content-type')!r}")
    comp = r.get(enc_header(proto, kind), "identity")
    envs, rest = split_envs(r.body)
    if rest:
        raise WireError(f"trailing {len(rest)} bytes")
    msgs = []
    endflag = {"connect": 2, "grpc": 0, "grpcweb": 0x80}[proto]
    end = None
    for f, d in envs:
        if end is not None:
            raise WireError("envelope after end of stream")
        if f & ~(1 | endflag):
            raise WireError(f"flags {f:#x}")
        if f & 1:
            if comp == "identity":
                raise WireError("compressed flag without encoding")
            d = decompress(comp, d)
        if f & endflag:
            end = d
        else:
            msgs.append(dec_msg(codec, d))
    if proto == "connect":
        if end is None:
            raise WireError("no end of stream")
        obj = json.loads(end)
        e = err_from_dict(obj["error"]) if "error" in obj else None
        tr = [(k.lower(), v) for k, vs in obj.get("metadata", {}).items() for v in vs]
        return Parsed(msgs, e, user, tr, comp)
    if proto == "grpc":
        if r.trailers is None:
            raise WireError("no trailers")
        e, tr = parse_grpc_trailers(r.trailers)
        return Parsed(msgs, e, user, tr, comp)
    if end is None:
        raise WireError("no trailer frame")
    lines = end.decode("latin-1").split("\r\n")
    if lines[-1] != "":
        raise WireError("trailer frame not terminated")
    pairs = []
    for line in lines[:-1]:
        if ":" not in line:
            raise WireError(f"bad trailer line {line!r}")
        k, v = line.split(":", 1)
        pairs.append((k.strip().lower(), v.strip()))
    e, tr = parse_grpc_trailers(pairs)
    return Parsed(msgs, e, user, tr, comp)


def parse_request(proto, kind, codec, req: Req):
    """Strict reading of a client request. Returns (msgs, user headers, comp)."""
    hd = {}
    for k, v in req.headers:
        hd.setdefault(k.lower(), []).append(v)
    if req.method != "POST":
        raise WireError(req.method)
    ct = hd.get("content-type")
    if ct != [content_type(proto, kind, codec)]:
        raise WireError(f"content-type {ct}")
    comp = hd.get(enc_header(proto, kind), ["identity"])[0]
    if proto == "connect":
        if hd.get("connect-protocol-version") != ["1"]:
            raise WireError("connect-protocol-version")
    elif hd.get("te") != ["trailers"]:
        raise WireError("te")
    if proto == "connect" and kind == "unary":
        return [dec_msg(codec, decompress(comp, req.body))], hd, comp
    envs, rest = split_envs(req.body)
    if rest:
        raise WireError("trailing bytes")
    msgs = []
    for f, d in envs:
        if f & ~1:
            raise WireError(f"flags {f:#x}")
        if f & 1:
            if comp == "identity":
                raise WireError("compressed flag without encoding")
            d = decompress(comp, d)
        msgs.append(dec_msg(codec, d))
    return msgs, hd, comp
