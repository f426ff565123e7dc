"""Matching of received messages against parameters, and decoding of the value"""
from .common import *

BOUNDS = {
    "quick": "1 received message (CC/PC/SysEx/other type) with all bytes symbolic, SysEx of 0..10 data bytes (strings up to 14), against one parameter of each response kind with symbolic address; 2 messages in sequence for value retention",
    "thorough": "as quick, SysEx of 0..16 data bytes, 3 messages in sequence, all shipped Kemper parameters as targets"
}
OUTSIDE = "parameters whose response template is not a control change, program change or system exclusive message"


def sysex(s, midi, tag, length, man = None):
    return midi.SX(
        man or [s.int("%s_m%d" % (tag, i), 0, 127) for i in range(3)],
        [s.int("%s_d%d" % (tag, i), 0, 127) for i in range(length)]
    )


def message(s, midi, tag, kind):
    if kind == "cc":
        return midi.CC(s.int(tag + "_c", 0, 127), s.int(tag + "_v", 0, 127))
    if kind == "pc":
        return midi.PC(s.int(tag + "_p", 0, 127))
    if kind == "?":
        return midi.Unknown(0xf8)
    return sysex(s, midi, tag, kind)


def model(s, midi, response, msg, string):
    """(accepted, value)"""
    r = midi.snap(response) if response else ("none",)
    x = midi.snap(msg)
    if r[0] == "none" or x[0] != r[0]:
        return False, None
    if x[0] == "CC":
        return x[1] == r[1], x[2]
    if x[0] == "PC":
        return True, x[1]
    d = x[2]
    if len(d) < 6 or (not string and len(d) < 8):
        return False, None
    ok = s.And(s.eq(x[1], r[1]), s.eq(d[2:6], r[2][2:6]))
    if string:
        return ok, list(d[6:-1])
    return ok, d[-2] * 128 + d[-1]


def check_value(s, value, exp, string, label):
    if string:
        s.check(len(value) == len(exp), label + "-length")
        for i in range(len(exp)):
            s.check(ord_(s, value, i) == exp[i], label, lambda: "decoded %s" % repr(value))
    else:
        s.check(value == exp, label, lambda: "decoded %s, must be %s" % (value, exp))


def ord_(s, v, i):
    return s.load("pyswitch.misc").__builtins__["ord"](v[i]) if s.symbolic else ord(v[i])


def one(s, response, string, kind):
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    midi = Midi(s)
    resp = None
    if response == "cc":
        resp = midi.CC(s.int("r_c", 0, 127), 0)
    elif response == "pc":
        resp = midi.PC(0)
    elif response == "sx":
        resp = midi.SX([s.int("r_m%d" % i, 0, 127) for i in range(3)], [2, 0x7f] + [s.int("r_d%d" % i, 0, 127) for i in range(4)])
    m = C.get(name = "X", response = resp, value = 4711, type = C.PARAMETER_TYPE_STRING if string else C.PARAMETER_TYPE_NUMERIC)
    msg = message(s, midi, "x", kind)
    before = midi.snap(msg)
    ok, value = model(s, midi, resp, msg, string)
    got = m.parse(msg)
    s.observe("accepted", got)
    s.check(s.eq(midi.snap(msg), before), "message-untouched")
    if got:
        s.check(ok, "accepted-foreign-message")
        check_value(s, m.value, value, string and response == "sx", "value")
    else:
        s.check(s.Not(ok), "rejected-own-message")
        s.check(m.value == 4711, "value-kept")


def sequence(s, n):
    """Through the client: listeners get exactly the values addressed to them, in order"""
    Client = s.obj("pyswitch.controller.client:Client")
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    midi = Midi(s)
    client = Client(midi, {})
    K = s.obj("pyswitch.clients.kemper:KemperNRPNMessage")
    maps = [
        C.get(name = "A", response = K(1, 0x32, 3)),
        C.get(name = "B", response = K(1, 0x33, 3)),
        C.get(name = "C", response = midi.CC(5, 0)),
        C.get(name = "D", response = K(3, 0, 1), type = C.PARAMETER_TYPE_STRING),
        # Requested parameters, also with the same address as others
        C.get(name = "E", request = K(0x41, 0x33, 3), response = K(1, 0x33, 3)),
        C.get(name = "F", request = K(0x41, 0x33, 3), response = K(1, 0x33, 3)),
        C.get(name = "G", request = K(0x41, 0, 9), response = midi.CC(5, 0)),
    ]
    ls = [Listener() for m in maps]
    first = s.flag("requests-first")
    for m, l in zip(maps, ls):
        if not m.request:
            if first:
                client.request(maps[4], ls[4])
            client.register(m, l)
    last = [None for m in maps]
    for i in range(n):
        kind = s.choice("kind%d" % i, ["cc", "pc", 8])
        if kind == 8:
            fn = s.int("fn%d" % i, 0, 127)
            page = s.int("page%d" % i, 0, 127)
            num = s.int("num%d" % i, 0, 127)
            msg = midi.SX([0, 0x20, 0x33], [0, 0, fn, 0, page, num, s.int("hi%d" % i, 0, 127), s.int("lo%d" % i, 0, 127)])
        else:
            msg = message(s, midi, "x%d" % i, kind)
        for j in (4, 5, 6):
            client.request(maps[j], ls[j])
        counts = [l.changed for l in ls]
        ret = client.receive(msg)
        any = False
        for j, m in enumerate(maps):
            ok, value = model(s, midi, m.response, msg, j == 3)
            if ls[j].changed != counts[j]:
                s.check(ls[j].changed == counts[j] + 1, "notified-once")
                s.check(ok, "notified-foreign")
                any = True
                last[j] = value
            else:
                s.check(s.Not(ok), "not-notified")
            if last[j] is None:
                s.check(m.value is None, "value-none")
            else:
                check_value(s, m.value, last[j], j == 3, "value")
        s.check(bool(ret) == any, "return-value")


def kemper(s, part):
    """All shipped parameters: accept exactly their own address"""
    midi = Midi(s)
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    all = [x for i, x in enumerate(kemper_factories(s)) if i % 8 == part]
    i = s.split(s.int("parameter", 0, len(all) - 1))
    m = all[i][2](*all[i][3])
    if not m.response or isinstance(m.response, list):
        s.check(True, "skipped")
        return
    string = m.type == C.PARAMETER_TYPE_STRING
    kind = s.choice("kind", ["cc", "pc", 8, 11])
    msg = message(s, midi, "x", kind)
    ok, value = model(s, midi, m.response, msg, string)
    if m.parse(msg):
        s.check(ok, "accepted-foreign-message", m.name)
        check_value(s, m.value, value, string and midi.snap(msg)[0] == "SX", "value")
    else:
        s.check(s.Not(ok), "rejected-own-message", m.name)


def jobs(tier):
    ret = []
    top = 10 if tier == "quick" else 16
    for response in ("cc", "pc", "sx", "none"):
        for kind in ["cc", "pc", "?"] + list(range(0, top + 1)):
            if response in ("none",) and kind not in ("cc", "pc", "?", 8):
                continue
            if response in ("cc", "pc") and kind not in ("cc", "pc", "?", 8, 6):
                continue
            ret.append(job(one, response = response, string = False, kind = kind))
    for kind in ["cc", "pc", "?"] + list(range(0, 15 if tier == "quick" else 21)):
        ret.append(job(one, response = "sx", string = True, kind = kind))
    ret.append(job(sequence, n = 2 if tier == "quick" else 3))
    if tier != "quick":
        ret += [job(kemper, part = p) for p in range(8)]
    return ret
