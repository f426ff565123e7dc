"""Bidirectional parameters: immediate feedback of set values, no requests, loss of connection"""
from .common import *

BOUNDS = {
    "quick": "2 bidirectional Kemper parameters (one settable) and 1 other parameter, 2 listeners, histories of 4 operations (set / request / response / connection lost), all values; each bidirectional Kemper parameter alone, histories of 3 operations; 6 parameters with up to 7 listeners at once",
    "thorough": "as quick with histories of 5 (4) operations"
}


class Prot:
    """Protocol stand-in with two bidirectional parameters"""
    def __init__(self, maps):
        self.maps = maps
    def init(self, midi, client): pass
    def is_bidirectional(self, mapping): return mapping in self.maps
    def feedback_value(self, mapping): return mapping in self.maps
    def update(self): pass
    def receive(self, m): return False
    def get_color(self): return (0, 0, 0)


def history(s, n, kemper):
    midi = Midi(s)
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    if kemper:
        K = s.obj("pyswitch.clients.kemper:KemperMappings")
        a = K.EFFECT_STATE(1)
        b = K.EFFECT_TYPE(3)
        prot = s.obj("pyswitch.clients.kemper:KemperBidirectionalProtocol")(30)
        resp = [lambda v: midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 0x33, 3, v // 128, v % 128]), lambda v: midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 0x35, 0, v // 128, v % 128])]
        set_a = lambda v: ("CC", 18, v)
        hi = 127
    else:
        a = generic_mapping(s, "nrpn", name = "A", request = True, n = 1)
        b = generic_mapping(s, "nrpn", name = "B", request = True, set = False, n = 2)
        prot = Prot([a, b])
        resp = [lambda v, k = k: midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, k, v // 128, v % 128]) for k in (1, 2)]
        set_a = lambda v: ("SX", (0, 0x20, 0x33), (2, 0x7f, 1, 0, 4, 1, v // 128, v % 128))
        hi = 16383
    o = generic_mapping(s, "nrpn", name = "O", request = True, n = 3)
    resp.append(lambda v: midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 3, v // 128, v % 128]))
    client = s.obj("pyswitch.controller.client:BidirectionalClient")(midi, {}, prot)

    maps = [a, b, o]
    ls = [Listener(), Listener()]
    for m in maps:
        client.register(m, ls[0])
    client.register(a, ls[1])
    listening = {0: [0, 1], 1: [0], 2: []}
    pend = False
    val = [None, None, None]
    ncha = [0, 0]
    nter = [0, 0]
    s.check(len(midi.take()) == 0, "registering-sends-nothing")

    for i in range(n):
        op = s.choice("op%d" % i, ["setA", "setO", "reqA", "reqO", "respA", "respB", "respO", "lost"])
        k = {"A": 0, "B": 1, "O": 2}.get(op[-1])
        if op.startswith("set"):
            v = s.int("v%d" % i, 0, hi if k == 0 else 16383)
            if k == 1:
                # not settable: no message
                try:
                    client.set(maps[1], v)
                except Exception:
                    s.check(False, "set-raises")
                s.check(len(midi.take()) == 0, "nothing-sent-without-set-message")
            else:
                client.set(maps[k], v)
                sent = midi.take()
                e = [set_a(v)] if k == 0 else [("SX", (0, 0x20, 0x33), (2, 0x7f, 1, 0, 4, 3, v // 128, v % 128))]
                s.check(s.eq(sent, e), "set-message", lambda: "sent %s" % repr(sent))
            if k in (0, 1):
                val[k] = v
                for l in listening[k]:
                    ncha[l] += 1
                    s.check(ls[l].log[-1][0] == "changed" and ls[l].log[-1][1] is maps[k], "feedback-notified")
                    s.check(ls[l].values[-1] == v, "feedback-value")
        elif op.startswith("req"):
            client.request(maps[k], ls[0])
            sent = midi.take()
            if k == 2 and not pend:
                s.check(s.eq(sent, [("SX", (0, 0x20, 0x33), (2, 0x7f, 0x41, 0, 4, 3))]), "request")
                pend = True
            else:
                s.check(len(sent) == 0, "bidirectional-not-requested", lambda: "sent %s" % repr(sent))
        elif op.startswith("resp"):
            v = s.int("v%d" % i, 0, 16383)
            client.receive(resp[k](v))
            s.check(len(midi.take()) == 0, "nothing-sent")
            who = listening[k] if k != 2 else ([0] if pend else [])
            if k != 2 or pend:
                val[k] = v
            if k == 2:
                pend = False
            for l in who:
                ncha[l] += 1
                s.check(ls[l].log[-1][0] == "changed" and ls[l].log[-1][1] is maps[k], "response-notified")
                s.check(ls[l].values[-1] == v, "response-value")
        else:
            client.notify_connection_lost()
            nter[0] += 2
            nter[1] += 1
            s.check(len(midi.take()) == 0, "nothing-sent")
        for l in range(2):
            s.check(ls[l].changed == ncha[l], "change-count", lambda: "%s: listener %d: %d instead of %d" % (op, l, ls[l].changed, ncha[l]))
            s.check(ls[l].terminated == nter[l], "loss-count", lambda: "%s: listener %d: %d instead of %d" % (op, l, ls[l].terminated, nter[l]))
        for j in range(3):
            if val[j] is None:
                s.check(maps[j].value is None, "no-value")
            else:
                s.check(maps[j].value == val[j], "value")


def shipped(s, n, part):
    """Every Kemper parameter the protocol handles"""
    midi = Midi(s)
    prot = s.obj("pyswitch.clients.kemper:KemperBidirectionalProtocol")(30)
    client = s.obj("pyswitch.controller.client:BidirectionalClient")(midi, {}, prot)
    fs = [x for i, x in enumerate(kemper_factories(s)) if i % 6 == part]
    f = fs[s.split(s.int("parameter", 0, len(fs) - 1))]
    m = f[2](*f[3])
    bi = prot.is_bidirectional(m)
    K = s.obj("pyswitch.clients.kemper:KemperMappings")
    expected = [K.RIG_NAME(), K.TUNER_MODE_STATE(), K.TUNER_NOTE(), K.TUNER_DEVIANCE()] + [K.EFFECT_STATE(i) for i in range(6)] + [K.EFFECT_TYPE(i) for i in range(6)]
    s.check(bool(bi) == (m in expected), "bidirectional-set", m.name)
    if not bi:
        s.check(not prot.feedback_value(m), "no-feedback")
        return
    l = Listener()
    client.register(m, l)
    cnt = 0
    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 100000))
        client.request(m, l)
        s.check(len(midi.take()) == 0, "never-requested", m.name)
        if m.set and s.flag("set%d" % i):
            v = s.int("v%d" % i, 0, 127)
            client.set(m, v)
            cnt += 1
            s.check(len(midi.take()) == 1, "sent")
            s.check(m.value == v, "value")
        else:
            d = list(m.response.data)
            v = s.int("v%d" % i, 0, 16383)
            client.receive(midi.SX([0, 0x20, 0x33], [0, 0] + d[2:6] + [v // 128, v % 128, 0] if m.type == 1 else [0, 0] + d[2:6] + [v // 128, v % 128]))
            cnt += 1
            if m.type == 0:
                s.check(m.value == v, "value")
        s.check(l.changed == cnt, "notified-every-time", m.name)
        s.check(l.terminated == 0, "not-terminated")


def lost_only_bidirectional(s):
    """Loss of connection in a session with the real protocol"""
    midi = Midi(s)
    prot = s.obj("pyswitch.clients.kemper:KemperBidirectionalProtocol")(30)
    client = s.obj("pyswitch.controller.client:BidirectionalClient")(midi, {}, prot)
    K = s.obj("pyswitch.clients.kemper:KemperMappings")
    a = K.EFFECT_STATE(0)
    r = K.RIG_ID()
    la, lr = Listener(), Listener()
    client.register(a, la)
    client.register(r, lr)
    s.world.ms = s.int("t0", 5001, 9000)
    client.update()
    s.check(len(midi.take()) == 1, "beacon")
    client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 0x7e, 0, 0x7f]))
    s.advance(s.int("t1", 0, 20000))
    client.update()
    lost = s.world.ms
    s.advance(s.int("t2", 0, 20000))
    client.update()
    s.check(lr.terminated == 0, "other-not-terminated")
    s.check(la.terminated <= 1, "at-most-once")
    v = s.int("v", 0, 16383)
    client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 0x32, 3, v // 128, v % 128]))
    s.check(la.changed == 1, "still-listening")
    s.check(la.values[-1] == v, "value")


def many(s, nl):
    """Many listeners"""
    midi = Midi(s)
    maps = [generic_mapping(s, "nrpn", name = "M%d" % i, request = True, n = i) for i in range(nl)]
    client = s.obj("pyswitch.controller.client:BidirectionalClient")(midi, {}, Prot(maps))
    ls = [Listener() for i in range(nl)]
    for l in ls:
        client.register(maps[0], l)
    own = [Listener() for i in range(nl)]
    for m, l in zip(maps, own):
        client.register(m, l)
    v = s.int("v", 0, 16383)
    client.set(maps[0], v)
    s.check(all(l.changed == 1 for l in ls + own[:1]), "all-notified")
    k = s.int("which", 0, nl - 1)
    w = s.int("w", 0, 16383)
    client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, k, w // 128, w % 128]))
    for i in range(nl):
        s.check(own[i].changed == s.ite(k == i, 1, 0) + (1 if i == 0 else 0), "own-notified")
    for l in ls:
        s.check(l.changed == s.ite(k == 0, 2, 1), "all-notified-again")
    client.notify_connection_lost()
    s.check(all(l.terminated == 1 for l in ls + own), "all-told")


def jobs(tier):
    n = 4 if tier == "quick" else 5
    return [job(history, n = n, kemper = k) for k in (True, False)] + [job(shipped, n = n - 1, part = p) for p in range(6)] + [job(lost_only_bidirectional), job(many, nl = 6)]
