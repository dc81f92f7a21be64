"""Independent encoder/decoder of the GivEnergy wire format.

Deliberately shares no code with givenergy_modbus: it is the oracle side of the
codec checks and the device side of the client checks.
"""
from __future__ import annotations

import struct

MARK = b"\x59\x59\x00\x01"
ADAPTER = "WF1234G567"
INVERTER = "SA1234G567"

_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ 0xA001 if _c & 1 else _c >> 1
    _T.append(_c)


def crc16(data: bytes) -> int:
    c = 0xFFFF
    for b in data:
        c = (c >> 8) ^ _T[(c ^ b) & 0xFF]
    return c


def _s(s, n=10):
    b = s if isinstance(s, bytes) else s.encode("latin1")
    return b[-n:].rjust(n, b"*")


def mbap(fid: int, body: bytes, uid: int = 1) -> bytes:
    return MARK + struct.pack(">HBB", len(body) + 2, uid, fid) + body


def heartbeat(adapter=ADAPTER, typ=0) -> bytes:
    return mbap(1, _s(adapter) + bytes([typ]))


def transparent(inner: bytes, adapter=ADAPTER, padding=0x8A, crc: int | None = None) -> bytes:
    """inner = device address onward, without check."""
    if crc is None:
        crc = crc16(inner)
        chk = struct.pack("<H", crc)
    else:
        chk = struct.pack(">H", crc)
    return mbap(2, _s(adapter) + struct.pack(">Q", padding) + inner + chk)


def read_request(fc, dev, base, count, adapter="AB1234G567", padding=8) -> bytes:
    return transparent(struct.pack(">BBHH", dev, fc, base, count), adapter, padding)


def write_request(dev, reg, value, adapter="AB1234G567", padding=8) -> bytes:
    return transparent(struct.pack(">BBHH", dev, 6, reg, value), adapter, padding)


def read_response(fc, dev, base, values, adapter=ADAPTER, inverter=INVERTER, count=None, crc=None, padding=0x8A) -> bytes:
    n = len(values) if count is None else count
    inner = struct.pack(">BB", dev, fc) + _s(inverter) + struct.pack(">HH", base, n) + struct.pack(f">{len(values)}H", *values)
    return transparent(inner, adapter, padding, crc)


def error_response(fc, dev, base, count, adapter=ADAPTER, inverter=INVERTER) -> bytes:
    inner = struct.pack(">BB", dev, fc | 0x80) + _s(inverter) + struct.pack(">HH", base, count)
    return transparent(inner, adapter, 0x12)


def write_response(dev, reg, value, adapter=ADAPTER, inverter=INVERTER, error=False) -> bytes:
    inner = struct.pack(">BB", dev, 6 | (0x80 if error else 0)) + _s(inverter) + struct.pack(">HH", reg, value)
    return transparent(inner, adapter, 0x12 if error else 0x8A)


def null_response(adapter=ADAPTER) -> bytes:
    inner = struct.pack(">BB", 0x32, 0) + b"\x00" * 10 + b"\x00" * 124
    return transparent(inner, adapter, 0x8A)


def lan_config(adapter="WO1234G567", text=b",192.168.1.7,255.255.255.0,192.168.1.1\r\n\r\n", check=0x1234) -> bytes:
    return mbap(2, _s(adapter) + b"\x00" * 7 + text + struct.pack(">H", check))


class BadFrame(Exception):
    pass


def parse_outgoing(frame: bytes) -> dict:
    """Parse one complete client->device frame strictly; raise BadFrame on any deviation."""
    if frame[:4] != MARK:
        raise BadFrame(f"marker {frame[:4].hex()}")
    (ln, uid, fid) = struct.unpack(">HBB", frame[4:8])
    if ln != len(frame) - 6 or uid != 1:
        raise BadFrame(f"header len={ln} uid={uid} actual={len(frame) - 6}")
    body = frame[8:]
    if fid == 1:
        if len(body) != 11:
            raise BadFrame("heartbeat length")
        return {"kind": "heartbeat", "adapter": body[:10].decode("latin1"), "type": body[10]}
    if fid != 2:
        raise BadFrame(f"fid {fid}")
    if len(body) != 26:
        raise BadFrame(f"request body length {len(body)}")
    adapter, padding, dev, fc, base, n = struct.unpack(">10sQBBHH", body[:24])
    chk = body[24:26]
    if chk != struct.pack("<H", crc16(body[18:24])):
        raise BadFrame("crc")
    kind = {3: "read_hr", 4: "read_ir", 0x16: "read_mr", 6: "write"}.get(fc)
    if kind is None:
        raise BadFrame(f"fc {fc}")
    d = {"kind": kind, "dev": dev, "fc": fc, "base": base, "count": n, "padding": padding}
    if kind == "write":
        d["register"], d["value"] = base, n
    return d


class StreamSplitter:
    """Splits the client's outgoing byte stream into frames by the MBAP length."""

    def __init__(self):
        self.buf = b""

    def feed(self, data: bytes) -> list[bytes]:
        self.buf += data
        out = []
        while len(self.buf) >= 6:
            if self.buf[:4] != MARK:
                raise BadFrame(f"outgoing stream not at a frame boundary: {self.buf[:12].hex()}")
            n = 6 + struct.unpack(">H", self.buf[4:6])[0]
            if len(self.buf) < n:
                break
            out.append(self.buf[:n])
            self.buf = self.buf[n:]
        return out


def serial_regs(s: str, n: int = 5) -> list[int]:
    b = s.encode("latin1").ljust(n * 2, b"\x00")[: n * 2]
    return [int.from_bytes(b[i : i + 2], "big") for i in range(0, n * 2, 2)]
