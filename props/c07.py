"""MIDI routing between ports and the application"""
from .common import *

BOUNDS = {
    "quick": "2 ports, every subset of the 8 possible routes (port or application to port or application), 0..2 queued messages per port (CC with any value and channel, program change, SysEx, unknown or undecodable; at once or arriving between two looks at a port), 4 polls and 2 application messages in every order; 3 ports with the route sets of the shipped examples plus merge/distribute combinations",
    "thorough": "as quick with 3 queued messages, 6 polls, plus all subsets of port-to-port and port-to-application routes of 3 ports with 1 message each"
}
OUTSIDE = "routes from the application to itself; sources delivering faster than they are polled"


class Port:
    def __init__(self, name):
        self.name = name
        self.queue = []
        self.sent = []
        self.received = []

    def receive(self):
        if self.queue:
            m = self.queue.pop(0)
            if m is None:
                # Nothing there yet: the next message arrives after this look at the port
                return None
            self.received.append(m)
            return m
        return None

    def send(self, m):
        self.sent.append(m)


def routing(s, nports, routes, nmsgs, polls, unsupported = True, gaps = False):
    """routes: list of (source, target) with index or 'A' for the application; 'sym' = every subset"""
    ctl = s.load("pyswitch.controller.midi")
    CC = s.obj("adafruit_midi.control_change:ControlChange")
    PC = s.obj("adafruit_midi.program_change:ProgramChange")
    SX = s.obj("adafruit_midi.system_exclusive:SystemExclusive")
    Unknown = s.obj("adafruit_midi.midi_message:MIDIUnknownEvent")
    # Like the library class for messages which cannot be decoded
    Bad = type("MIDIBadEvent", (s.obj("adafruit_midi.midi_message:MIDIMessage"),), {"_STATUS": None})
    R = ctl.MidiRouting
    ports = [Port(i) for i in range(nports)]
    if routes == "sym":
        cand = [("A", 0), (0, "A"), (0, 1), (1, 0), (1, "A"), ("A", 1), (0, 0), (1, 1)]
        routes = [r for i, r in enumerate(cand) if s.flag("route%d" % i)]
    elif routes == "sym3":
        cand = [(0, 1), (0, "A"), (1, "A"), (1, 2), (2, 0), (0, 2), (2, "A"), (2, 1), ("A", 0)]
        routes = [r for i, r in enumerate(cand) if s.flag("route%d" % i)]
    obj = lambda x: R.APPLICATION if x == "A" else ports[x]
    midi = ctl.MidiController([R(source = obj(a), target = obj(b)) for a, b in routes])

    # messages
    msgs = {}
    total = 0
    for i, p in enumerate(ports):
        k = s.split(s.int("n%d" % i, 0, nmsgs)) if isinstance(nmsgs, int) else nmsgs[i]
        for j in range(k):
            v = s.int("v%d_%d" % (i, j), 0, 127)
            kind = s.choice("kind%d_%d" % (i, j), ["cc", "unknown", "bad"] if unsupported == "all" else ["pc", "sysex", "unknown"] if unsupported == "kinds" else ["cc", "unknown"]) if unsupported else "cc"
            # every message of a port has its own channel
            ch = s.int("ch%d_%d" % (i, j), 0, 15) if kind in ("cc", "pc") else None
            m = {"cc": lambda: CC(i, v, channel = ch), "pc": lambda: PC(v, channel = ch), "sysex": lambda: SX(bytes([0, 0x20, 0x33]), bytes([i, 5])), "unknown": lambda: Unknown(0xf8), "bad": Bad}[kind]()
            if gaps and s.flag("gap%d_%d" % (i, j)):
                p.queue.append(None)
                total += 1
            p.queue.append(m)
            msgs[id(m)] = (i, j, kind in ("unknown", "bad"), kind, v, ch)
            total += 1
    all = [[m for m in p.queue if m is not None] for p in ports]

    appl_in = []
    appl_out = []
    for i in range(polls):
        if any(r[0] == "A" for r in routes) and i in (0, 2):
            m = CC(100 + i, 5)
            midi.send(m)
            appl_out.append(m)
        m = midi.receive()
        if m is not None:
            appl_in.append(m)

    # oracle
    def targets(i):
        return [b for a, b in routes if a == i]

    def is_(a, b):
        return len(a) == len(b) and all_([x is y for x, y in zip(a, b)])

    for i, p in enumerate(ports):
        # what has been consumed is a prefix of the queue
        s.check(is_(p.received, all[i][:len(p.received)]), "queue-order")
        if not targets(i):
            s.check(len(p.received) == 0, "unrouted-port-not-read")

    for i, p in enumerate(ports):
        # everything sent to this port: per source the messages in order, each exactly once
        exp_src = [a for a, b in routes if b == i and a != "A"]
        for src in range(nports):
            got = [m for m in p.sent if id(m) in msgs and msgs[id(m)][0] == src]
            if src in exp_src:
                exp = [m for m in ports[src].received if not msgs[id(m)][2]]
                s.check(is_(got, exp), "forwarded-exactly-once-in-order", lambda: "port %s to %s: %s of %s (routes %s)" % (src, i, [msgs[id(m)] for m in got], [msgs[id(m)] for m in exp], routes))
            else:
                s.check(len(got) == 0, "not-forwarded-without-route")
        own = [m for m in p.sent if id(m) not in msgs]
        if ("A", i) in routes:
            s.check(is_(own, appl_out), "application-messages-sent-once")
        else:
            s.check(len(own) == 0, "application-messages-without-route")

    for src in range(nports):
        got = [m for m in appl_in if msgs[id(m)][0] == src]
        if (src, "A") in routes:
            exp = ports[src].received
            # the last messages read may still wait for the next poll
            s.check(is_(got, exp[:len(got)]), "application-gets-everything-in-order", lambda: "port %s: %s of %s (routes %s)" % (src, [msgs[id(m)] for m in got], [msgs[id(m)] for m in exp], routes))
        else:
            s.check(len(got) == 0, "application-without-route")
    if polls > total:
        # quiet at the end: everything must have been delivered
        for i, p in enumerate(ports):
            if targets(i):
                s.check(len(p.queue) == 0, "everything-read", lambda: "port %s routes %s" % (i, routes))
            if (i, "A") in routes:
                s.check(len([m for m in appl_in if msgs[id(m)][0] == i]) == len(p.received), "application-misses-nothing", lambda: "port %s routes %s" % (i, routes))
    for p in ports:
        for m in p.received:
            _, _, _, kind, v, ch = msgs[id(m)]
            if kind == "cc":
                s.check(s.And(m.value == v, m.control == msgs[id(m)][0], m.channel == ch), "message-unchanged")
            elif kind == "pc":
                s.check(s.And(m.patch == v, m.channel == ch), "message-unchanged")
            elif kind == "sysex":
                s.check(bytes(m.manufacturer_id) == bytes([0, 0x20, 0x33]) and bytes(m.data) == bytes([msgs[id(m)][0], 5]), "message-unchanged")


def all_(x):
    for v in x:
        if not v:
            return False
    return True


EXAMPLES = [
    [(0, "A"), ("A", 0)],
    [(0, "A"), ("A", 0), (1, "A"), ("A", 1)],
    [(1, 0), (0, "A"), ("A", 0)],
    [(0, 1), (1, 0), (0, "A"), ("A", 0)],
    [(0, 1), (0, "A"), ("A", 0)],
]


def jobs(tier):
    q = tier == "quick"
    ret = [job(routing, nports = 2, routes = "sym", nmsgs = (2, 1), polls = 5, unsupported = True)]
    ret += [job(routing, nports = 2, routes = r, nmsgs = 2 if q else 3, polls = 7, unsupported = "all", name = "examples[%d]" % i) for i, r in enumerate(EXAMPLES)]
    extra = [
        [(0, 1), (0, 2), (1, 2), (2, "A"), ("A", 2)],
        [(0, "A"), (1, "A"), (2, "A"), (0, 2), ("A", 0), ("A", 1)],
        [(0, 1), (1, 2), (2, 0), (0, "A"), (1, "A")],
        [(1, 0), (0, 1), (1, "A"), (0, "A"), ("A", 2)],
    ]
    ret += [job(routing, nports = 3, routes = r, nmsgs = 1 if q else 2, polls = 7, unsupported = "all", name = "three[%d]" % i) for i, r in enumerate(extra)]
    # messages arriving between two looks at a port; other message kinds
    ret += [job(routing, nports = 2, routes = r, nmsgs = (2, 1), polls = 7, unsupported = "kinds", gaps = True, name = "gaps[%d]" % i) for i, r in enumerate([EXAMPLES[1], EXAMPLES[3], [(0, 1), (1, 0), (0, "A"), (1, "A")]])]
    ret += [job(routing, nports = 3, routes = r, nmsgs = (1, 2, 1), polls = 8, unsupported = False, gaps = True, name = "gaps3[%d]" % i) for i, r in enumerate(extra)]
    if not q:
        ret += [job(routing, nports = 3, routes = "sym3", nmsgs = (1, 1, 1), polls = 4, unsupported = False), job(routing, nports = 2, routes = "sym", nmsgs = (3, 2), polls = 6, unsupported = True)]
    return ret
