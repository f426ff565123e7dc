"""Rig ID: two part (bank MSB control change + program change) values"""
from .common import *

BOUNDS = {
    "quick": "histories of 5 received messages, each CC 32 / any other CC / PC / SysEx / nothing, all values 0..127; 3 two-part parameters waiting at the same time",
    "thorough": "histories of 7 received messages, otherwise as quick; all shipped two-part parameters"
}


def history(s, n, client_kind, names):
    midi = Midi(s)
    if client_kind == "plain":
        client = s.obj("pyswitch.controller.client:Client")(midi, {})
    else:
        prot = s.obj("pyswitch.clients.kemper:KemperBidirectionalProtocol")(30)
        client = s.obj("pyswitch.controller.client:BidirectionalClient")(midi, {}, prot)

    fs = {
        "id": lambda: s.obj("pyswitch.clients.kemper:KemperMappings").RIG_ID(),
        "next": lambda: s.obj("pyswitch.clients.kemper.mappings.bank:MAPPING_NEXT_BANK")(),
        "prev": lambda: s.obj("pyswitch.clients.kemper.mappings.bank:MAPPING_PREVIOUS_BANK")(),
        "rig1": lambda: s.obj("pyswitch.clients.kemper.mappings.select:MAPPING_RIG_SELECT")(0),
        "rig5": lambda: s.obj("pyswitch.clients.kemper.mappings.select:MAPPING_RIG_SELECT")(4),
        "bank": lambda: s.obj("pyswitch.clients.kemper.mappings.select:MAPPING_BANK_SELECT")(),
    }
    maps = [fs[n]() for n in names]
    ls = [Listener() for m in maps]
    for m, l in zip(maps, ls):
        client.register(m, l)

    msb = None
    value = None
    count = 0
    for i in range(n):
        kind = s.choice("kind%d" % i, ["msb", "pc", "cc", "sx", None] if i < 3 else ["msb", "pc", "cc"])
        v = s.int("v%d" % i, 0, 127) if kind else 0
        if kind == "msb":
            msg = midi.CC(32, v)
            msb = v
        elif kind == "cc":
            c = s.int("c%d" % i, 0, 127)
            s.assume(c != 32)
            msg = midi.CC(c, v)
        elif kind == "sx":
            msg = midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 0, 0, 0, v])
        elif kind == "pc":
            msg = midi.PC(v)
            if msb is not None:
                value = msb * 128 + v
                msb = None
                count += 1
        else:
            msg = None
        client.receive(msg)

        for m, l in zip(maps, ls):
            s.check(l.changed == count, "notifications", lambda: "%s: %d instead of %d" % (m.name, l.changed, count))
            if value is None:
                s.check(m.value is None, "no-value-yet")
            else:
                s.check(m.value == value, "value", lambda: "%s instead of %s" % (m.value, value))
                s.check(l.values[-1] == value, "value-at-notification")
        s.observe("value", maps[0].value)
    s.check(len(midi.sent) == 0, "nothing-sent")


def jobs(tier):
    if tier == "quick":
        return [job(history, n = 5, client_kind = k, names = x) for k in ("plain", "bidirectional") for x in (("id",), ("id", "next", "rig1"), ("bank", "prev", "rig5"))]
    return [job(history, n = 7, client_kind = k, names = x) for k in ("plain", "bidirectional") for x in (("id",), ("next",), ("prev",), ("rig1",), ("bank",), ("id", "rig5"))] + \
        [job(history, n = 5, client_kind = "plain", names = ("id", "next", "prev", "rig1", "rig5", "bank"))]
