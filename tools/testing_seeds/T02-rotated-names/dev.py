"""A loopback dongle for the demonstrations: answers reads/writes from register tables, or as a script says."""
import asyncio, logging, os, sys, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
import wire

KIND = {"read_hr": "HR", "read_ir": "IR", "read_mr": "MR"}


class Dongle:
    def __init__(self, banks=None, script=None):
        self.banks, self.script = banks or {}, script
        self.log, self.writers = [], []

    def answer(self, r):
        if r["kind"] == "heartbeat" or r["dev"] not in self.banks:
            return None
        if r["kind"] == "write":
            return wire.write_response(r["dev"], r["register"], r["value"])
        k = KIND[r["kind"]]
        if k not in self.banks[r["dev"]]:
            return None
        t = self.banks[r["dev"]][k]
        return wire.read_response(r["fc"], r["dev"], r["base"], [t.get(r["base"] + i, 0) for i in range(r["count"])])

    async def _conn(self, rd, wr):
        self.writers.append(wr)
        sp = wire.StreamSplitter()
        try:
            while True:
                d = await rd.read(4096)
                if not d:
                    break
                for f in sp.feed(d):
                    r = wire.parse_outgoing(f)
                    r["conn"], r["raw"] = len(self.writers) - 1, f
                    self.log.append(r)
                    a = self.script(len(self.log) - 1, r, wr) if self.script else None
                    if a is None:
                        a = self.answer(r)
                    if a:
                        wr.write(a)
                        await wr.drain()
        except (ConnectionError, asyncio.CancelledError):
            pass
        finally:
            wr.close()

    async def __aenter__(self):
        self.server = await asyncio.start_server(self._conn, "127.0.0.1", 0)
        self.port = self.server.sockets[0].getsockname()[1]
        return self

    async def __aexit__(self, *a):
        self.server.close()
        for w in self.writers:
            w.close()


def client(d, **kw):
    from givenergy_modbus.client.client import Client
    kw.setdefault("tx_message_wait", 0.01)
    kw.setdefault("tx_jitter", 0)
    return Client("127.0.0.1", d.port, **kw)


def feed(framer, data):
    async def go():
        return [m async for m in framer.decode(data)]
    return asyncio.run(go())


def fail(msg):
    print("DEMO FAILS:", msg)
    sys.exit(1)
