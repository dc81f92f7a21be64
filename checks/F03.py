"""F03: encode/decode agree with an independent codec over the whole bounded message space."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, fr
from mc.report import Check, split
from mc import wire as w
from givenergy_modbus import pdu as P
from givenergy_modbus.exceptions import InvalidPduState, InvalidFrame

REQ = {3: P.ReadHoldingRegistersRequest, 4: P.ReadInputRegistersRequest, 0x16: P.ReadMeterProductRegistersRequest}
RSP = {3: P.ReadHoldingRegistersResponse, 4: P.ReadInputRegistersResponse, 0x16: P.ReadMeterProductRegistersResponse}
BASES = [0, 1, 59, 60, 180, 255, 256, 1000, 1600, 2040, 0x5959, 0x7FFF, 0x8000, 0xFFC4, 0xFFFE, 0xFFFF]


def need(t, cond, key, **d):
    t.add("transitions")
    if not cond:
        t.violation(key, **d)


def attempt(t, key, fn, **d):
    """A message inside the valid domain must be codable: any exception is a violation."""
    try:
        return fn()
    except Exception as e:
        t.violation(key, error=repr(e), **d)
        return None


def one_request(t, fc, dev, base, count):
    want = w.read_request(fc, dev, base, count)
    m = REQ[fc](device_address=dev, base_register=base, register_count=count)
    got = attempt(t, "request-encode", m.encode, fc=fc, dev=dev, base=base, count=count)
    if got is None:
        return
    need(t, got == want, "request-bytes", fc=fc, dev=dev, base=base, count=count, got=got, want=want)
    need(t, m.encode() == want, "encode-not-repeatable", fc=fc, dev=dev, base=base)
    d = attempt(t, "request-decode", lambda: P.ServerIncomingMessage.decode_bytes(want), frame=want)
    if d is None:
        return
    ok = type(d) is REQ[fc] and (d.device_address, d.base_register, d.register_count, d.error) == (dev, base, count, False)
    need(t, ok, "request-decoded", fc=fc, dev=dev, base=base, count=count, got=repr(vars(d)))
    need(t, d.encode() == want, "request-reencode", frame=want)
    e = m.expected_response()
    need(t, type(e) is RSP[fc] and (e.device_address, e.base_register, e.register_count) == (dev, base, count),
         "expected-response", fc=fc, dev=dev, base=base, count=count)
    t.add("states")


def one_response(t, fc, dev, base, vals, adapter=w.ADAPTER, inverter=w.INVERTER):
    want = w.read_response(fc, dev, base, vals, adapter, inverter)
    d = attempt(t, "response-decode", lambda: P.ClientIncomingMessage.decode_bytes(want), frame=want)
    if d is None:
        return
    ok = (type(d) is RSP[fc] and d.device_address == dev and d.base_register == base and d.register_count == len(vals)
          and list(d.register_values) == list(vals) and d.error is False and d.crc_failed is False
          and d.data_adapter_serial_number == adapter and d.inverter_serial_number == inverter and bytes(d.raw_frame) == want
          and d.to_dict() == {base + i: v for i, v in enumerate(vals)})
    need(t, ok, "response-decoded", fc=fc, dev=dev, base=base, vals=vals, got=repr(vars(d))[:800])
    m = RSP[fc](device_address=dev, base_register=base, register_count=len(vals), register_values=list(vals), padding=0x8A,
                data_adapter_serial_number=adapter, inverter_serial_number=inverter)
    got = attempt(t, "response-encode", m.encode, fc=fc, dev=dev, base=base, vals=vals)
    need(t, got == want, "response-bytes", fc=fc, dev=dev, base=base, got=got, want=want)
    need(t, d.encode() == want, "response-reencode", frame=want)
    t.add("states")


def sh_requests(t, devs, tier):
    for dev in devs:
        for fc in REQ:
            for base in BASES:
                for count in (range(1, 61) if tier or dev in (0x11, 0x32) else (1, 2, 59, 60)):
                    one_request(t, fc, dev, base, count)


def sh_bases(t, bases):
    for base in bases:
        for fc in REQ:
            one_request(t, fc, 0x11, base, 60 if base % 2 else 5)


def sh_responses(t, devs, tier):
    for dev in devs:
        for fc in RSP:
            for base in (BASES if tier else BASES[::3]):
                for n in ((1, 2, 5, 30, 59, 60) if tier or dev in (0x11, 0x32) else (1, 60)):
                    if base + n > 0x10000:
                        continue
                    one_response(t, fc, dev, base, [(dev * 257 + i * 13 + base) & 0xFFFF for i in range(n)])


def sh_values(t, vals):
    for v in vals:
        for fc in RSP:
            one_response(t, fc, 0x32, 60, [v])
        one_response(t, 4, 0x11, 0, [v ^ 0xFFFF, v, (v * 7) & 0xFFFF])


def sh_counts(t, ns):
    for n in ns:
        for fc in RSP:
            for pos in range(n):
                for v in (0x5959, 0x0001, 0xFFFF, 0x8000):
                    vals = [0] * n
                    vals[pos] = v
                    one_response(t, fc, 0x11, 60, vals)


def sh_writes(t, regs):
    """Writes that the register gate allows: exact bytes for every value; refused otherwise."""
    for reg, installer in regs:
        for v in (0, 1, 2, 60, 100, 255, 256, 2359, 0x5959, 0x7FFF, 0x8000, 0xFFFF):
            for dev in (0x00, 0x11, 0x31, 0x32, 0xFF):
                kw = dict(register=reg, value=v, device_address=dev)
                if installer:
                    kw["installer"] = True
                try:
                    got = P.WriteHoldingRegisterRequest(**kw).encode()
                except InvalidPduState:
                    t.add("refused")
                    t.outcome("refused")
                    continue
                want = w.write_request(dev, reg, v)
                need(t, got == want, "write-bytes", reg=reg, value=v, dev=dev, got=got, want=want)
                t.outcome("encoded")
                t.add("states")
        for v in (-1, -65536, 0x10000, 0x1FFFF, 1 << 32):
            try:
                got = P.WriteHoldingRegisterRequest(register=reg, value=v, **({"installer": True} if installer else {})).encode()
            except Exception:
                t.add("refused")
                continue
            t.violation("out-of-range-write-encoded", reg=reg, value=v, got=got)
        for v in (True, False, 1.0, "1", None, b"1"):
            try:
                got = P.WriteHoldingRegisterRequest(register=reg, value=v, **({"installer": True} if installer else {})).encode()
            except Exception:
                t.add("refused")
                continue
            t.violation("non-integer-write-encoded", reg=reg, value=repr(v), got=got)


def sh_writes_all(t, vals):
    for v in vals:
        m = P.WriteHoldingRegisterRequest(register=111, value=v)
        need(t, m.encode() == w.write_request(0x11, 111, v), "write-bytes", reg=111, value=v)
        d = attempt(t, "write-decode", lambda: P.ServerIncomingMessage.decode_bytes(w.write_request(0x11, 111, v)), value=v)
        need(t, d is not None and (d.register, d.value, d.device_address) == (111, v, 0x11), "write-decoded", value=v)
        r = attempt(t, "write-response", lambda: P.ClientIncomingMessage.decode_bytes(w.write_response(0x11, 111, v)), value=v)
        need(t, r is not None and type(r) is P.WriteHoldingRegisterResponse and (r.register, r.value, r.device_address, r.error) == (111, v, 0x11, False),
             "write-response-decoded", value=v)
        need(t, r is not None and r.encode() == w.write_response(0x11, 111, v), "write-response-reencode", value=v)
        t.add("states")


def sh_misc(t, _):
    # heartbeats: every adapter type, serial alphabet per position
    for typ in range(256):
        f = w.heartbeat("WF1234G567", typ)
        d = P.ClientIncomingMessage.decode_bytes(f)
        need(t, type(d) is P.HeartbeatRequest and d.data_adapter_type == typ and d.data_adapter_serial_number == "WF1234G567", "heartbeat-decode", typ=typ)
        need(t, d.encode() == f, "heartbeat-reencode", typ=typ)
        r = d.expected_response()
        e = w.parse_outgoing(r.encode())
        need(t, e["kind"] == "heartbeat" and e["type"] == typ, "heartbeat-response", typ=typ)
        s = P.ServerIncomingMessage.decode_bytes(r.encode())
        need(t, type(s) is P.HeartbeatResponse and s.data_adapter_type == typ, "heartbeat-response-decode", typ=typ)
        t.add("states")
    # error replies of every function
    for fc in (3, 4, 0x16):
        for dev in range(256):
            for base, n in ((0, 60), (60, 30), (0xFFFF, 1), (1000, 60)):
                f = w.error_response(fc, dev, base, n)
                d = attempt(t, "error-decode", lambda: P.ClientIncomingMessage.decode_bytes(f), frame=f)
                if d is None:
                    continue
                need(t, type(d) is RSP[fc] and d.error is True and (d.device_address, d.base_register, d.register_count) == (dev, base, n)
                     and d.crc_failed is False, "error-decoded", fc=fc, dev=dev, base=base, n=n)
                need(t, d.encode() == f, "error-reencode", frame=f)
                t.add("states")
    for dev in (0x11, 0x31):
        f = w.write_response(dev, 27, 5, error=True)
        d = P.ClientIncomingMessage.decode_bytes(f)
        need(t, type(d) is P.WriteHoldingRegisterResponse and d.error is True and (d.register, d.value) == (27, 5), "write-error-decoded", dev=dev)
        need(t, d.encode() == f, "write-error-reencode", frame=f)
    f = w.null_response()
    d = P.ClientIncomingMessage.decode_bytes(f)
    need(t, type(d) is P.NullResponse and d.encode() == f, "null-roundtrip")
    for txt in (b",192.168.1.7,255.255.255.0,192.168.1.1\r\n\r\n", b",0.0.0.0,0.0.0.0,0.0.0.0\r\n\r\n", b",10.0.0.200,255.0.0.0,10.0.0.138\r\n\r\n"):
        f = w.lan_config(text=txt)
        d = P.ClientIncomingMessage.decode_bytes(f)
        ip, nm, gw = txt.decode().strip().strip(",").split(",")
        need(t, type(d) is P.LanConfigBroadcast and (d.ip, d.netmask, d.gateway) == (ip, nm, gw), "lan-decode", text=txt)
        need(t, d.encode() == f, "lan-reencode", text=txt)
    # serial numbers: every printable byte at every position
    for b in range(0x20, 0x7F):
        for pos in range(10):
            s = list("AB1234G567"); s[pos] = chr(b); s = "".join(s)
            one_response(t, 4, 0x32, 60, [1, 2], adapter=s)
            one_response(t, 3, 0x11, 0, [1, 2], inverter=s)
    # truncated and extended frames are refused, never decoded as something else
    for name, f in fr.frames().items():
        for k in range(len(f)):
            for g in (f[:k], f + f[:k + 1]):
                try:
                    d = P.ClientIncomingMessage.decode_bytes(g)
                except (InvalidFrame, InvalidPduState):
                    t.add("refused"); t.add("transitions")
                    continue
                except Exception as e:
                    t.violation("decode-raised", frame=g, error=repr(e)); continue
                t.violation("bad-length-decoded", name=name, cut=k, frame=g)
    # register count disagreeing with the payload is refused
    for fc in RSP:
        for n in range(0, 62):
            for cnt in list(range(0, 64)) + [255, 256, 0xFFFF]:
                if cnt == n:
                    continue
                g = w.read_response(fc, 0x11, 0, [7] * n, count=cnt)
                try:
                    d = P.ClientIncomingMessage.decode_bytes(g)
                except (InvalidFrame, InvalidPduState):
                    t.add("refused"); t.add("transitions")
                    continue
                except Exception as e:
                    t.violation("decode-raised", frame=g, error=repr(e)); continue
                # trailing bytes beyond the declared count: the check value cannot then match
                need(t, cnt < n and d.crc_failed, "count-mismatch-accepted", n=n, cnt=cnt, fc=fc)
    # out-of-range requests are refused
    for fc, cls in REQ.items():
        for base, cnt, dev in [(-1, 1, 0x11), (0x10000, 1, 0x11), (1 << 20, 60, 0x11), (0, 0, 0x11), (0, -1, 0x11), (0, 61, 0x11), (0, 120, 0x11),
                               (0, 255, 0x11), (0, 0x10000, 0x11), (0, 1, -1), (0, 1, 256), (0, 1, 1 << 16), (None, 1, 0x11)]:
            try:
                g = cls(base_register=base, register_count=cnt, device_address=dev).encode()
            except Exception:
                t.add("refused"); t.add("transitions")
                continue
            t.violation("out-of-range-request-encoded", fc=fc, base=base, count=cnt, dev=dev, frame=g)
    # unknown function codes: refused on both sides
    for code in range(256):
        body = b"WF1234G567" + b"\0" * 7 + b"\x8a" + bytes([0x32, code]) + b"SA1234G567" + b"\0\x3c\0\1\0\7" + b"\0\0"
        if (code & 0x7F) not in (0, 3, 4, 6, 0x16):
            for side in (P.ClientIncomingMessage, P.ServerIncomingMessage):
                try:
                    d = side.decode_bytes(w.mbap(2, body))
                except (InvalidFrame, InvalidPduState):
                    t.add("refused"); t.add("transitions")
                    continue
                except Exception as e:
                    t.violation("decode-raised", code=code, error=repr(e)); continue
                t.violation("unknown-function-decoded", code=code)
    # two PDUs encoded alternately do not share buffers
    a, b = REQ[3](device_address=1, base_register=2, register_count=3), REQ[4](device_address=4, base_register=5, register_count=6)
    for _ in range(3):
        need(t, a.encode() == w.read_request(3, 1, 2, 3) and b.encode() == w.read_request(4, 4, 5, 6), "encode-shared")
    t.sample({"frame": w.read_request(3, 0x11, 0, 60)})


def main():
    c = Check("F03", "model_checking")
    tier = not c.quick
    c.run(sh_requests, split(range(256), 64), tier=tier)
    c.run(sh_bases, split(range(0, 65536, 1), 64))
    c.run(sh_responses, split(range(256), 64), tier=tier)
    c.run(sh_values, split(range(0, 65536, 1), 64))
    c.run(sh_counts, split(range(1, 61), 32))
    c.run(sh_writes, split([(r, i) for r in list(range(0, 600)) + list(range(1000, 1200)) + list(range(2040, 2080)) + [4001] + list(range(5000, 5020)) + list(range(20000, 20060)) for i in (False, True)], 32))
    c.run(sh_writes_all, split(range(0, 65536, 1), 32))
    c.run(sh_misc, [0])
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0),
              "refused": n.get("refused", 0)})


if __name__ == "__main__":
    main()
