#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **extra):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if extra.get("observe"): a["observe_at"] = extra["observe"]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
G = "givenergy_modbus/"
FR, CL, PL = G+"framer.py", G+"client/client.py", G+"model/plant.py"
CMD, MAN, REG, RC = G+"client/commands.py", G+"model/manifest.py", G+"model/register.py", G+"model/register_cache.py"
RR, WR, TR, BASE = G+"pdu/read_registers.py", G+"pdu/write_registers.py", G+"pdu/transparent.py", G+"pdu/base.py"
COD, DEV, SPL = G+"codec.py", G+"model/devices.py", G+"model/battery_splice.py"

p("F01", "Message delivery does not depend on how the byte stream is chunked",
  "For any byte stream received from a dongle, the sequence of messages delivered (and their decoded contents) is the same however TCP splits the stream into reads. Nothing is delivered twice, dropped, or reordered because of where a read ended.",
  ["inputs", "schedules"], "every split of every stream in a bounded family (valid frames of every kind, noise, broken headers) into reads",
  "Tests feed whole captures or a few hand-picked splits; the number of splits is exponential in the stream length.",
  [FR], [("incremental frame decoder buffer", "framer.py Framer.decode")])
p("F02", "Frame decoding recovers after any line noise and never raises",
  "Whatever bytes arrive, decoding never raises out of the receive path, never loops, and keeps a bounded amount of undecoded data. Well-formed frames that begin clear of a disturbance are all delivered, once, in order; bytes that contain no frame marker, a frame cut short within its first 17 bytes and a marker followed by an impossible header cost no neighbouring frame.",
  ["inputs", "fault_sequences"], "every deletion, insertion, duplication and byte corruption at every position of a reference stream, and every short byte string over the framing alphabet",
  "Tests use a handful of recorded corruptions; recovery must work for every position and kind of damage.",
  [FR, TR], [("resynchronisation rules", "framer.py Framer.decode")])
p("F03", "Every message survives an encode/decode round trip with the right check value",
  "Encoding any valid message and decoding the bytes yields a message with the same kind, device, register range and values; the bytes match the published wire format, including the CRC and length fields. Messages whose fields are out of range are refused instead of being encoded as something else.",
  ["inputs"], "every function code x device x base x count x boundary values, compared against an independent encoder",
  "Round-trip tests cover a few tens of literal frames.",
  [BASE, TR, RR, WR, COD], [("PDU encode/decode", "pdu/base.py, pdu/transparent.py"), ("payload codec", "codec.py")])
p("F04", "A corrupted reply never changes plant state or satisfies a request",
  "A reply (register read or write acknowledgement) whose protected bytes were damaged in transit is never absorbed into the plant's register state and never counts as the answer to an outstanding request.",
  ["inputs", "fault_sequences"], "every single- and double-bit error and every short burst in the protected region of a reply, for every reply kind",
  "Tests corrupt one byte of one reply.",
  [RR, PL, CL], [("CRC verdict", "pdu/read_registers.py"), ("commit gate", "model/plant.py Plant.update")])
p("C01", "Each caller gets the reply to its own request and never someone else's",
  "A caller awaiting a reply gets only a reply of the same function, device and register range that arrived after the call was made; a reply for anything else never satisfies it. A matching good reply within the deadline completes the call. When two calls ask for the same range at once the newer one is served and the older one is cancelled, never mixed up.",
  ["schedules", "fault_sequences"], "every ordering, duplication, delay, drop and error reply for up to three overlapping requests",
  "Tests drive one scripted interleaving at a time.",
  [CL, TR], [("expected-response matching", "client/client.py send_request_and_await_response, _task_network_consumer")])
p("C02", "Requests terminate within their deadline after at most retries+1 transmissions",
  "Every request ends (reply, timeout or communication error) within the bound implied by its timeout and retry settings, transmits at most retries+1 copies, and reports a timeout only if no acceptable reply arrived in any attempt window.",
  ["schedules", "fault_sequences"], "every per-attempt outcome sequence (answer, late answer, error, foreign reply, corrupt reply, silence, duplicate) for all small retry budgets",
  "Tests cover single outcomes with mocked queues, not sequences.",
  [CL], [("retry loop", "client/client.py send_request_and_await_response")])
p("C03", "Losing the connection at any instant is reported promptly to every caller",
  "If the peer closes, resets or stops accepting data at any moment, every waiting caller fails promptly with a communication error that says the connection was lost, the client reports itself disconnected, and later calls fail at once rather than hanging.",
  ["crash_points", "schedules"], "every instant in the event sequence of a request/refresh/detect, for each kind of loss (EOF, reset, write stall)",
  "Tests inject EOF at one or two chosen moments.",
  [CL], [("connection-loss handling", "client/client.py _abort_connection, _task_network_consumer, _task_network_producer")])
p("C04", "Reconnecting always gives a clean, working session",
  "After any close or connection loss, connecting again yields a session that works normally: bytes, requests or replies left over from the old connection never affect it, and nothing from the old session is transmitted on it.",
  ["crash_points", "histories"], "every instant of loss/close followed by reconnect, with every partial frame left in flight",
  "Tests reconnect from a quiescent state only.",
  [CL, FR], [("connect/close lifecycle", "client/client.py connect, close")])
p("C05", "Frames go out whole, in order, spaced, and heartbeats are answered",
  "Queued messages are transmitted as complete, uninterleaved frames in submission order with at least the configured gap between them, and every heartbeat request is answered exactly once, echoing its adapter type.",
  ["schedules"], "every interleaving of up to four concurrent senders and heartbeats",
  "Tests check the producer with one message.",
  [CL, G+"pdu/heartbeat.py"], [("transmit queue and producer", "client/client.py _task_network_producer")])
p("C06", "Cancelling a call at any instant leaves the client fully usable",
  "Cancelling an in-flight operation at any point leaves no residue: concurrent calls still complete correctly, the same request can be issued again and succeeds, and closing still works.",
  ["schedules", "crash_points"], "every await point of a request, refresh, command or capture at which cancellation can land",
  "Tests cancel at one point if at all.",
  [CL], [("in-flight bookkeeping", "client/client.py send_request_and_await_response, capture_frames")])
p("C07", "Multi-block operations report partial failure honestly",
  "When some of the requests making up a refresh, configuration load or command fail, the caller is told, succeeded blocks are applied and failed blocks keep their previous values; success is reported only if every request was answered.",
  ["fault_sequences"], "every subset of failing requests in each multi-request operation and plant type",
  "Tests fail one chosen block.",
  [CL], [("gathering requests", "client/client.py execute, refresh, load_config")])
p("C08", "Polling and discovery only read, and poll exactly the applicable blocks",
  "Discovery, liveness probes and polling never send a write. For every plant topology, a poll requests each block that applies to the devices present exactly once and none that belongs to absent hardware, within protocol size limits.",
  ["configurations"], "every combination of model and attached devices in the bounded topology family",
  "Tests check a few model/topology combinations.",
  [CL, G+"model/manifest.py"], [("bank selection", "client/client.py refresh, load_config, detect")])
p("C09", "Recording traffic is complete and cannot disturb the session",
  "A traffic recording contains exactly the bytes exchanged during its window, and a failing recorder never disturbs request/reply processing; only one recording runs at a time and ending one (normally, by error or cancellation) allows another.",
  ["schedules", "fault_sequences"], "every point at which the sink raises, capture is cancelled or the connection drops",
  "Tests use well-behaved sinks.",
  [CL], [("frame capture", "client/client.py capture_frames")])
p("C10", "Clients in one process are independent",
  "When several clients run in one process, whatever one of them does or suffers (requests, polls, discovery, commands, recordings, losses, reconnects, damaged data) leaves every other client's outcomes, timing, transmitted bytes, recordings and readings exactly as they would be if it ran alone.",
  ["schedules", "fault_sequences"], "every pair of sessions x every relative offset between them",
  "Tests run one client at a time.",
  [CL, FR, PL], [("session state", "client/client.py Client.__init__, _reset_session"), ("framer buffers", "framer.py"), ("plant state", "model/plant.py")])
p("C11", "The one-call refresh and the watch loop do exactly the steps they compose",
  "refresh_plant performs discovery (only if the plant is unknown), then the configuration load (only for a full refresh), then one poll, and ends as those steps end; watch_plant performs a full refresh followed by one poll per period (none when passive), calls the handler after each successful round, lets failures reach the caller, and may be cancelled at any instant leaving the client usable.",
  ["fault_sequences", "schedules"], "every failing request and pair of them in each composed operation, every cancellation point and handler failure of a watch",
  "Tests mock the composed steps.",
  [CL], [("one-call refresh", "client/client.py refresh_plant"), ("watch loop", "client/client.py watch_plant")])
p("W01", "Only registers known safe for the detected model are ever written",
  "No sequence of ordinary command submissions transmits a write to a register outside the set documented as writable for the detected model (or for the base single-phase set before detection). A batch containing one unsafe or out-of-range write is refused as a whole before anything is sent, including in dry-run mode.",
  ["inputs", "configurations"], "every register number 0-65535 x every model and firmware class x every submission path, and every position in a batch",
  "Tests probe some tens of registers.",
  [CL, MAN, WR], [("write gate", "client/client.py one_shot_command"), ("manifest", "model/manifest.py write_safe_registers"), ("encode gate", "pdu/write_registers.py")])
p("W02", "Command helpers emit only valid writes appropriate to the model",
  "Every command helper either raises a validation error and emits nothing, or emits writes whose register is the documented one for that model, whose value encodes the argument exactly, and which pass the safety gate of every model the helper is documented for.",
  ["inputs", "configurations"], "every helper x model x full argument domain (or all boundaries for wide domains)",
  "Tests check one or two arguments per helper.",
  [CMD], [("command builders", "client/commands.py")])
p("W03", "Destructive and grid-protection writes need explicit confirmation",
  "Factory resets, totals resets, black start and grid-protection limits can only be built with explicit confirmation and are never accepted by the ordinary command path; values outside the documented range are refused even with confirmation.",
  ["inputs"], "every such helper x confirmation value x argument boundary x submission path",
  "Tests check single examples.",
  [CMD, CL, WR], [("confirmation guards", "client/commands.py")])
p("W04", "Schedule slots read back exactly as written",
  "Writing any schedule slot and applying the resulting register values makes the model report exactly that slot, leaves every other slot and setting unchanged, and clearing a slot makes it report 00:00-00:00, the disabled slot.",
  ["inputs", "configurations"], "every slot index x direction x model and every minute of the day for start and end",
  "Tests use one or two times on one model.",
  [CMD, G+"model/slot_map.py", G+"model/inverter.py", G+"model/inverter_threephase.py", G+"model/ems.py"], [("slot maps", "model/slot_map.py"), ("time slot decode", "model/register.py")])
p("D01", "Discovery finds exactly the devices that are attached",
  "Against a plant that answers reliably, whatever traffic of other clients the dongle relays meanwhile, discovery reports exactly the model, batteries, meters and stacks that are present - none missed, none invented - in the documented address order, and marks every block it asked for as present exactly when the device it belongs to was found; of a device that no longer answers no readings are kept.",
  ["configurations"], "every combination of model and attached devices in the bounded plant family",
  "Tests detect a few hand-made plants.",
  [CL, PL], [("discovery", "client/client.py detect")])
p("D02", "Discovery under faults never passes off a partial plant as complete",
  "If the connection is lost at any moment during discovery, discovery fails and no topology is adopted; a single lost, delayed or corrupted reply never makes an attached device disappear or a phantom one appear.",
  ["crash_points", "fault_sequences"], "every request index of discovery x every fault kind (loss, drop, error, corruption, duplicate, all-zero)",
  "Tests inject faults at a chosen probe.",
  [CL, PL], [("probe loop", "client/client.py detect, _probe")])
p("D03", "Discovery with a remembered topology agrees with full discovery or says so",
  "Discovery that is given a remembered topology succeeds exactly when the model and every remembered device are confirmed, and then returns that topology, with the blocks it asked for marked present; otherwise it raises a mismatch error carrying what was remembered and what was found, and leaves no topology adopted. It never silently keeps a device that is gone. (Devices outside the remembered topology are documented as not looked for.)",
  ["configurations", "histories"], "every ordered pair (remembered plant, actual plant) of the bounded plant family",
  "Tests cover three or four mismatches.",
  [CL], [("prior verification", "client/client.py detect(prior=...)")])
p("D04", "The liveness check tells the truth",
  "The liveness check answers True exactly when the inverter's identity block was genuinely answered during that very check - never because of data from an earlier connection, another block, a damaged, error or all-zero reply - and then leaves the connection open for discovery to use; otherwise it answers False, without raising and within its attempts' time on a connected client, with the connection closed. It transmits nothing but the identity read, once per attempt, never connects by itself and leaves the known topology alone; either way the session can go on from there.",
  ["fault_sequences", "crash_points", "histories"], "every prior connection history x every per-attempt outcome sequence x connection lost at every step; every up/down history of checks up to length 3 (5); overlap with other operations at every offset",
  "Tests cover a handful of single-attempt cases.",
  [CL], [("liveness", "client/client.py probe_alive")])
p("P01", "A reply updates exactly the registers it covers, on its own device",
  "Absorbing a good reply changes exactly the registers the reply covers on the device it names, and nothing on any other device or register type; a refused reply changes no register value at all.",
  ["histories", "inputs"], "every sequence of up to three replies over a colliding alphabet of devices, register types and ranges",
  "Tests apply one reply at a time to a fresh plant.",
  [PL, RC], [("commit", "model/plant.py Plant.update")])
p("P02", "All-zero and physically impossible replies never overwrite good data",
  "Once a block holds real data, a full-size (60-register) all-zero dropout reply or a physically impossible battery reply is refused and the previous data stays readable; a genuine later reply is accepted.",
  ["histories"], "every interleaving of good, all-zero and impossible replies up to the depth bound per guarded block",
  "Tests cover one rejection after one good read.",
  [PL, SPL], [("dropout/impossible guards", "model/plant.py Plant.update")])
p("P03", "Data of two batteries is never mixed in one battery's readings",
  "A battery reply in which an identifying register or pack constant, or two or more readings beyond one poll's documented movement, come from another battery's reply is never absorbed, however the two are spliced: the battery keeps its previous consistent readings. A single such reading is absorbed only when the next poll repeats it, and a battery not seen before is adopted only when a second reply agrees with the first.",
  ["inputs", "histories"], "every splice offset and length between two batteries' replies, at every point of a short poll history",
  "Tests use a few recorded splices.",
  [PL, SPL], [("splice guards", "model/battery_splice.py")])
p("P04", "A battery that genuinely changed is accepted again within bounded polls",
  "Whatever was rejected before, consistent genuine readings are accepted within the documented polls and time for that kind of change (a clean reading at once, a lone step on its second poll, a new battery on its second, changed pack constants after ten agreeing polls and 900 s); several readings at once are accepted when they return to what is held or after an observation gap of over 300 s. Protection never locks a healthy battery out permanently.",
  ["histories"], "every bounded history of good / spliced / changed replies followed by a steady genuine stream",
  "Tests check one heal path.",
  [PL, SPL], [("heal logic", "model/plant.py")])
p("P05", "Reported data ages are truthful and skip only what is fresh",
  "The age reported for a register or block is the time since it was last accepted from the device; refused replies do not refresh it, and a poll with a maximum age skips exactly the blocks accepted within that age.",
  ["histories"], "every bounded history of accepted/refused replies and clock advances over colliding blocks",
  "Tests use one or two timestamps.",
  [PL, CL], [("freshness bookkeeping", "model/plant.py")])
p("P06", "Plant identity comes only from the inverter and dongle themselves",
  "The plant's serial numbers are taken only from good replies of the inverter's own addresses (the dongle's from any accepted reply): another device's reply, a damaged reply or an error reply never changes, blanks or supplies the inverter's serial, and a damaged reply never changes the dongle's.",
  ["histories"], "every sequence of up to three identity-bearing messages",
  "Tests check one adoption.",
  [PL], [("serial adoption", "model/plant.py Plant.update")])
p("P07", "Diagnostic counters count every refused, held or re-sent frame exactly once",
  "Each frame refused for a bad checksum, refused as implausible, held for confirmation, or held while a battery's first reading is confirmed, and each retry of a read where an answer was expected, adds exactly one to that device's counter for that reason and to no other; accepted frames, quietly ignored frames and expected silence add nothing; redacted copies carry independent counters and exports omit them.",
  ["histories", "fault_sequences"], "every history of frames to a depth on two batteries and other devices, and every per-attempt outcome sequence of a live poll",
  "Tests check single events.",
  [PL, CL], [("counters", "model/plant.py crc_failure_count, splice_reject_count, splice_held_count, retry_count, cold_start_held_count"), ("retry accounting", "client/client.py send_request_and_await_response")])
p("M01", "Reading any attribute never raises, whatever the registers contain",
  "For every device model, reading every public value with any register contents - missing, zero, maximum, garbage - returns a value of the declared kind or None and never raises.",
  ["inputs"], "every register of every model x an exhaustive/boundary value set, alone and with neighbours",
  "Tests decode recorded captures only.",
  [REG, G+"model/inverter.py", G+"model/battery.py"], [("register decoding", "model/register.py RegisterGetter")])
p("M02", "Each value is the documented conversion of its own registers and respects its declared bounds",
  "A decoded attribute is the documented conversion of its documented registers and depends on no others, so changing any other register leaves it unchanged, and a reading outside its documented physical range is reported as absent rather than as a number.",
  ["inputs"], "every attribute x every register x value sweep, all 65536 values for single-register attributes",
  "Tests decode a few values.",
  [REG], [("register definitions", "model/register.py")])
p("M03", "The device list presents each attached device exactly once with a valid parent",
  "For every topology the device walk lists each attached device exactly once, with unique identities, parents that exist, and exactly one inverter with control authority per plant as documented.",
  ["configurations"], "every topology of the bounded family",
  "Tests walk a few recorded plants.",
  [DEV, PL], [("device walk", "model/plant.py devices")])
p("S01", "A saved topology restores to an equal one",
  "Saving a discovered topology and restoring it through JSON yields an equal topology with the same derived behaviour; malformed or older saved data is either migrated or refused, never misread.",
  ["configurations"], "every topology of the bounded family and every single-field omission",
  "Tests round-trip a couple of topologies.",
  [PL], [("capabilities persistence", "model/plant.py PlantCapabilities")])
p("S02", "Saved register data restores to the same data",
  "Saving register data in either supported format and loading it back yields exactly the same registers and values, so every decoded reading is unchanged.",
  ["inputs"], "every bounded combination of devices, register types, sparse layouts and values",
  "Tests round-trip recorded captures.",
  [RC], [("register cache serialisation", "model/register_cache.py")])
p("S03", "A plant rebuilt from saved data equals the live one",
  "Rebuilding a plant from its saved topology and register data, with no connection, gives the same devices and the same readings as the live plant it was saved from.",
  ["configurations", "histories"], "every topology of the bounded family populated with device-distinct data",
  "Tests rebuild a couple of captures.",
  [PL], [("offline rebuild", "model/plant.py Plant.from_caches")])
p("R01", "A redacted recording never contains a serial number, however chunked",
  "In a redacted traffic recording no serial number from any position of any frame the client decodes appears, for every frame kind and every way the stream is chunked or surrounded by noise, and everything else is preserved so that the recording decodes to the same readings. (Bytes that are no complete frame are documented as recorded intact.)",
  ["inputs", "schedules"], "every frame kind that carries a serial x every serial position x every split of the stream, including damaged neighbours",
  "Tests redact a few whole frames.",
  [CL, FR, G+"pdu/lan_config.py"], [("redaction", "client/client.py / framer.py FrameRedactor")])
p("R02", "A redacted plant export contains no serial number",
  "A redacted plant, in memory or exported in any supported format, contains no serial number from the original in any field, leaves the original untouched and keeps all non-identifying readings.",
  ["configurations", "inputs"], "every topology of the bounded family with every serial-bearing field populated",
  "Tests redact one capture.",
  [PL, RC], [("plant redaction", "model/plant.py Plant.redact"), ("cache redaction", "model/register_cache.py redact_serials")])
MOCK, IDN = G+"testing/mock_plant.py", G+"testing/identify.py"
p("R03", "The capture scanner flags exactly the captures that still carry a serial",
  "The capture scanner reports a capture as clean exactly when no serial-shaped text with live unit digits (a whole serial, one without its two-letter prefix, or one interrupted by NUL bytes) occurs anywhere in either direction's bytes, in either line format and however the bytes are cut into lines or mixed with other lines; otherwise it names each one and its exit status says so. Recordings made with redaction are clean.",
  ["inputs", "schedules"], "every place a frame can carry a serial x serial shape x cut into lines x line format x foreign lines; every one- and two-character change to a serial; every list of up to 3 (5) files",
  "The scanner has no tests.",
  ["scripts/scan_capture_serials.py", CL], [("scanner", "scripts/scan_capture_serials.py scan, main")])
p("T01", "The mock plant serves exactly the state it was given",
  "A mock plant answers every readable register request with exactly the registers it was given for that device, type and range, stays silent for devices it does not have and answers an error for registers it does not have; a write is acknowledged with its echo and changes no served register (as documented); and this holds for every client however its requests are cut, pipelined or interleaved with other clients'.",
  ["inputs", "schedules"], "every request over small banks, every split and pipelining of request streams, every interleaving of two clients, and the real client against the mock over every topology of the family",
  "Tests read a few blocks of one capture.",
  [MOCK, FR], [("mock server", "testing/mock_plant.py MockPlant")])
p("T02", "A capture read back gives the plant that produced it",
  "Reading a recorded capture back yields the same registers and serials the live decoder obtained from the same received bytes, whatever line format, cutting into lines, file rotation, noise or cut-off end it has; a capture in which nothing can be read is refused; and when a capture is served, redacted serials that collide are made distinct keeping their prefix while everything else is served unchanged.",
  ["inputs", "schedules", "configurations"], "every cutting of a frame stream into lines in every line format, every bounded frame sequence, every order of rotated lines, every cut-off length, live redacted sessions over the topology family, every pattern of colliding serials",
  "Tests load a few recorded files.",
  [MOCK], [("capture reader", "testing/mock_plant.py plant_from_capture, MockPlant.from_capture")])
p("T03", "Sentinel seeding and identification recover the exact register",
  "A sentinel overlay holds address plus offset at exactly the seeded registers and the base's values everywhere else without touching the base; and identification from the values two overlays display returns exactly the register and scale they came from (from one, every register that could show it), and nothing for readings no register could show.",
  ["inputs"], "every register address x scale x offset, every linear attribute of every model, bounded families of overlays",
  "Tests identify a few addresses.",
  [IDN, MOCK], [("identification", "testing/identify.py"), ("overlay", "testing/mock_plant.py from_sentinels")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
