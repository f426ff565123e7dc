"""Setting a parameter: what is sent, and the round trip through the parser"""
from .common import *

BOUNDS = {
    "quick": "values 0..16383 (NRPN) / 0..127 (CC, PC), 3 sets in sequence with any values reported in between, set messages with 6..8 data bytes, list set messages of 1..3 parts; the program change mapping of the local client (3 sets); every shipped Kemper parameter, 2 sets in sequence (and any value reported in between)",
    "thorough": "values 0..16383 (NRPN) / 0..127 (CC, PC), 5 sets in sequence with any values reported in between, symbolic address bytes, set messages with 6..10 data bytes, list set messages of 1..4 parts; the program change mapping of the local client (5 sets); every shipped Kemper parameter, 3 sets in sequence (and any values reported in between)"
}
OUTSIDE = "values beyond 14 bit / 7 bit, fractional values, string parameters (setting them raises by design)"


def expected(template, v):
    """What a set message template must look like with value v"""
    if template[0] == "CC":
        return ("CC", template[1], v)
    if template[0] == "PC":
        return ("PC", v)
    d = list(template[2])
    while len(d) < 8:
        d.append(0)
    d[6] = v // 128
    d[7] = v % 128
    return ("SX", template[1], tuple(d))


def limit(template):
    return 16383 if template[0] == "SX" else 127


def set_single(s, kind, n):
    Client = s.obj("pyswitch.controller.client:Client")
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    midi = Midi(s)
    client = Client(midi, {})

    if kind == "cc":
        msg = midi.CC(s.int("control", 0, 127), 0)
    elif kind == "pc":
        msg = midi.PC(0)
    else:
        msg = midi.SX([s.int("m%d" % i, 0, 127) for i in range(3)], [s.int("d%d" % i, 0, 127) for i in range(kind)])

    template = midi.snap(msg)
    m = C.get(name = "X", set = msg, response = msg)
    other = C.get(name = "Y", set = midi.CC(3, 0))

    for i in range(n):
        v = s.int("v%d" % i, 0, limit(template))
        client.set(m, v)
        sent = midi.take()
        s.check(len(sent) == 1, "one-message")
        e = expected(template, v)
        s.check(s.eq(sent[0], e), "encoding", lambda: "sent %s instead of %s" % (sent[0], e))

        # Feed the message which has been sent back in
        back = mk(midi, sent[0])
        s.check(m.parse(back), "parsed")
        s.check(m.value == v if kind not in (9, 10) else True, "round-trip")

        # Another value reported by the device in between
        if s.flag("reported%d" % i):
            w = s.int("w%d" % i, 0, limit(template))
            s.check(m.parse(mk(midi, expected(template, w))), "reported")

        if i == 0:
            client.set(other, 5)
            s.check(s.eq(midi.take(), [("CC", 3, 5)]), "other")


def mk(midi, x):
    if x[0] == "CC":
        return midi.CC(x[1], x[2])
    if x[0] == "PC":
        return midi.PC(x[1])
    return midi.SX(list(x[1]), list(x[2]))


def set_list(s, kinds, n):
    """A parameter set by several messages"""
    Client = s.obj("pyswitch.controller.client:Client")
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    midi = Midi(s)
    client = Client(midi, {})
    msgs = []
    for i, k in enumerate(kinds):
        if k == "c":
            msgs.append(midi.CC(40 + i, 0))
        elif k == "p":
            msgs.append(midi.PC(0))
        elif k == "n":
            msgs.append(midi.SX([0, 0x20, 0x33], [2, 0x7f, 1, 0, 9, i]))
        else:
            msgs.append(None)
    templates = [midi.snap(m) if m else None for m in msgs]
    m = C.get(name = "X", set = msgs, response = midi.CC(99, 0))
    for j in range(n):
        vals = [s.int("v%d_%d" % (j, i), 0, limit(t)) if t else 0 for i, t in enumerate(templates)]
        client.set(m, vals)
        exp = [expected(t, v) for t, v in zip(templates, vals) if t]
        sent = midi.take()
        s.check(len(sent) == len(exp), "count")
        s.check(s.eq(sent, exp), "encoding", lambda: "sent %s instead of %s" % (sent, exp))
        if s.flag("reported%d" % j):
            m.parse(midi.CC(99, s.int("w%d" % j, 0, 127)))


def no_set(s):
    """Parameters without set message"""
    Client = s.obj("pyswitch.controller.client:Client")
    midi = Midi(s)
    client = Client(midi, {})
    m = generic_mapping(s, "nrpn", set = False)
    client.set(m, s.int("v", 0, 16383))
    s.check(len(midi.take()) == 0, "nothing-sent")


def kemper(s, part, n):
    Client = s.obj("pyswitch.controller.client:Client")
    midi = Midi(s)
    client = Client(midi, {})
    all = kemper_factories(s)
    all = [x for i, x in enumerate(all) if i % 8 == part]
    i = s.split(s.int("parameter", 0, len(all) - 1))
    modname, name, fn, args = all[i]
    m = fn(*args)
    s.observe("name", m.name)

    if not m.set:
        client.set(m, s.int("v", 0, 127))
        s.check(len(midi.take()) == 0, "nothing-sent")
        return

    templates = [midi.snap(x) for x in (m.set if isinstance(m.set, list) else [m.set])]
    s.check(all_lens(templates), "template")

    for k in range(n):
        if isinstance(m.set, list):
            v = [s.int("v%d_%d" % (k, j), 0, limit(t)) for j, t in enumerate(templates)]
            exp = [expected(t, x) for t, x in zip(templates, v)]
        else:
            v = s.int("v%d" % k, 0, limit(templates[0]))
            exp = [expected(templates[0], v)]
        client.set(m, v)
        sent = midi.take()
        s.check(s.eq(sent, exp), "encoding", lambda: "%s: sent %s instead of %s" % (m.name, sent, exp))

        if m.response and not isinstance(m.response, list) and sent[0][0] == "SX" and isinstance(m.response, midi.SX):
            s.check(m.parse(mk(midi, sent[0])), "parsed", m.name)
            s.check(m.value == v, "round-trip", m.name)

        # Another value reported by the device in between
        if m.response and not isinstance(m.response, list) and s.flag("reported%d" % k):
            t = midi.snap(m.response)
            m.parse(mk(midi, expected(t, s.int("w%d" % k, 0, limit(t)))))


def program_change(s, n):
    """The shipped mapping for simple Program Change messages"""
    Client = s.obj("pyswitch.controller.client:Client")
    MAP = s.obj("pyswitch.clients.local.mappings.generic:MAPPING_SEND_PROGRAM_CHANGE")
    midi = Midi(s)
    client = Client(midi, {})
    maps = [MAP(), MAP()]
    for k in range(n):
        v = s.int("v%d" % k, 0, 127)
        client.set(maps[1 if s.flag("second%d" % k) else 0], v)
        sent = midi.take()
        s.check(s.eq(sent, [("PC", v)]), "encoding", lambda: "sent %s instead of program %s" % (sent, v))


def all_lens(templates):
    return all(t[0] != "SX" or len(t[2]) == 6 for t in templates)


def jobs(tier):
    n = 3 if tier == "quick" else 5
    lens = (6, 7, 8) if tier == "quick" else (6, 7, 8, 9, 10)
    lists = ["c", "cp", "nc", "ccn", "c-p"] if tier == "quick" else ["c", "cp", "nc", "ccn", "c-p", "nncp", "c-nn", "-p"]
    return [job(set_single, kind = k, n = n) for k in ("cc", "pc") + lens] + \
        [job(set_list, kinds = k, n = 2 if tier == "quick" else 3) for k in lists] + \
        [job(no_set), job(program_change, n = n)] + \
        [job(kemper, part = p, n = 2 if tier == "quick" else 3) for p in range(8)]
