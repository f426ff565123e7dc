"""Addresses of the shipped Kemper parameters"""
from .common import *
from .kemper_table import TABLE

BOUNDS = {
    "quick": "all 110 shipped Kemper parameters (all slots / rigs / buttons), 3 creation orders, every ordered pair of parameters, any value, any received SysEx (function, instance, page, number symbolic, 8 data bytes) / CC / PC",
    "thorough": "as quick (the domain is exhausted)"
}


def create_all(s, order):
    fs = kemper_factories(s)
    idx = list(range(len(fs)))
    if order == "reverse":
        idx.reverse()
    elif order == "twice":
        idx = idx + idx
    ret = {}
    for i in idx:
        mod, name, fn, a = fs[i]
        ret[name + (str(a[0]) if a else "")] = fn(*a)
    return ret


def rows(part, parts):
    return [r for i, r in enumerate(TABLE) if i % parts == part]


def address(s, part, order):
    midi = Midi(s)
    client = s.obj("pyswitch.controller.client:Client")(midi, {})
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    maps = create_all(s, order)
    t = rows(part, 8)
    r = t[s.split(s.int("parameter", 0, len(t) - 1))]
    if r[0] not in maps:
        s.check(True, "gone")
        return
    check_row(s, midi, client, C, maps[r[0]], r)


def check_row(s, midi, client, C, m, r):
    fac, name, set, req, resp, typ, dep, cls = r
    man = (0, 0x20, 0x33)
    s.check(m.type == typ, "type", fac)
    s.check((m.depends.name if m.depends else None) == dep, "depends", fac)

    # set
    if set is None:
        s.check(not m.set, "not-settable", fac)
    else:
        v = s.int("v", 0, 127 if set[0] == "CC" else 16383)
        client.set(m, v)
        exp = ("CC", set[1], v) if set[0] == "CC" else ("SX", man, tuple(set[1:]) + (v // 128, v % 128))
        sent = midi.take()
        s.check(s.eq(sent, [exp]), "set-message", lambda: "%s sent %s" % (fac, sent))

    # request
    if req is None:
        s.check(not m.request, "not-requestable", fac)
    else:
        m.depends = None
        client.request(m, Listener())
        sent = midi.take()
        s.check(s.eq(sent, [("SX", man, tuple(req[1:]))]), "request-message", lambda: "%s sent %s" % (fac, sent))

    # response
    if resp is None:
        s.check(not m.response, "no-response", fac)
    elif isinstance(resp, list):
        a = s.int("msb", 0, 127)
        b = s.int("lsb", 0, 127)
        c = s.int("cc", 0, 127)
        x = s.int("noise", 0, 127)
        s.assume(c != 32)
        m.parse(midi.CC(32, a))
        s.check(not m.parse(midi.CC(c, x)), "foreign-cc", fac)
        s.check(m.parse(midi.PC(b)), "response", fac)
        s.check(m.value == 128 * a + b, "response-value", fac)
    elif resp[0] == "CC":
        c = s.int("cc", 0, 127)
        x = s.int("x", 0, 127)
        got = m.parse(midi.CC(c, x))
        s.check(s.eq(bool(got), c == resp[1]), "response", fac)
    elif len(resp) == 7:
        d = [s.int("d%d" % i, 0, 127) for i in range(8)]
        got = bool(m.parse(midi.SX(list(man), d)))
        own = s.eq(tuple(d[2:6]), tuple(resp[3:7]))
        s.check(own if got else s.Not(own), "response", lambda: "%s accepted %s" % (fac, d))


def distinct(s):
    """No received message is taken for several different parameters"""
    midi = Midi(s)
    client = s.obj("pyswitch.controller.client:Client")(midi, {})
    maps = create_all(s, "forward")
    ls = {}
    for r in TABLE:
        if r[0] in maps and r[4] and not isinstance(r[4], list) and len(r[4]) == 7:
            m = maps[r[0]]
            m.depends = None
            l = Listener()
            ls[r[0]] = (r[4], l)
            m.request = None
            client.register(m, l)
    d = [s.int("d%d" % i, 0, 127) for i in range(8)]
    client.receive(midi.SX([0, 0x20, 0x33], d))
    hit = [x for x in ls.values() if x[1].changed]
    s.check(len(set([x[0] for x in hit])) <= 1, "one-parameter", lambda: repr([x[0] for x in hit]))
    for a, l in ls.values():
        s.check(s.eq(tuple(d[2:6]), tuple(a[3:7])) if l.changed else s.Not(s.eq(tuple(d[2:6]), tuple(a[3:7]))), "address")


def pairs(s, part):
    """Creating any other parameter before does not influence a parameter"""
    midi = Midi(s)
    client = s.obj("pyswitch.controller.client:Client")(midi, {})
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    fs = {f[1] + (str(f[3][0]) if f[3] else ""): f for f in kemper_factories(s)}
    t = rows(part, 16)
    r = t[s.split(s.int("parameter", 0, len(t) - 1))]
    o = TABLE[s.split(s.int("other", 0, len(TABLE) - 1))]
    if r[0] not in fs or o[0] not in fs:
        s.check(True, "gone")
        return
    fs[o[0]][2](*fs[o[0]][3])
    check_row(s, midi, client, C, fs[r[0]][2](*fs[r[0]][3]), r)


def jobs(tier):
    ret = [job(address, part = p, order = o) for p in range(8) for o in ("forward", "reverse", "twice")] + [job(distinct)]
    ret += [job(pairs, part = p) for p in range(16)]
    return ret
