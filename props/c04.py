"""Life cycle of parameter requests"""
from .common import *

BOUNDS = {
    "quick": "2 parameters, 2 listeners, histories of 4 operations (request / matching response / foreign message / nothing received), symbolic time 0..10 s before every operation, symbolic request life time 100..5000 ms; dependent parameters: histories of 5 operations; 1 parameter with 6 and 4 parameters with 2 listeners each waiting at once",
    "thorough": "as quick with histories of 5 operations"
}


def lifecycle(s, n, life_sym, first):
    Client = s.obj("pyswitch.controller.client:Client")
    midi = Midi(s)
    if life_sym:
        life = s.int("life", 100, 5000)
        client = Client(midi, {"maxRequestLifetimeMillis": life})
    else:
        life = 2000
        client = Client(midi, {})
    maps = [generic_mapping(s, "nrpn", name = "M0", request = True, n = 0), generic_mapping(s, "nrpn", name = "M1", request = True, n = 1)]
    ls = [Listener(), Listener()]
    s.world.ms = s.int("t_start", 0, 20000)

    # model: per mapping None or (time, [listener indices])
    out = [None, None]
    changed = [[0, 0], [0, 0]]        # [mapping][listener]
    term = [[0, 0], [0, 0]]

    ops = ["req00", "req01", "req10", "resp0", "resp1", "other", "none"]
    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 10000))
        op = first if i == 0 else s.choice("op%d" % i, ops)
        now = s.world.ms
        midi.take()
        if op.startswith("req"):
            mi, li = int(op[3]), int(op[4])
            client.request(maps[mi], ls[li])
            sent = midi.take()
            if out[mi] is None:
                s.check(s.eq(sent, [("SX", (0, 0x20, 0x33), (2, 0x7f, 0x41, 0, 4, mi))]), "request-sent-once", lambda: "sent %s" % repr(sent))
                out[mi] = (now, [li])
            else:
                s.check(len(sent) == 0, "no-duplicate-request", lambda: "sent %s" % repr(sent))
                if li not in out[mi][1]:
                    out[mi][1].append(li)
        else:
            v = 0
            if op == "none":
                msg = None
            elif op == "other":
                msg = midi.CC(s.int("c%d" % i, 0, 127), 3)
            else:
                v = s.int("v%d" % i, 0, 16383)
                msg = midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, int(op[4]), v // 128, v % 128])
            ret = client.receive(msg)
            s.check(len(midi.take()) == 0, "receiving-sends-nothing")
            # termination of requests which took too long
            gone = []
            for mi in range(2):
                if out[mi] is None:
                    continue
                t0, lis = out[mi]
                got = [sum(1 for (x, m) in ls[l].log if x == "terminated" and m is maps[mi]) - term[mi][l] for l in range(2)]
                if any(got):
                    s.check(now > t0 + life, "terminated-too-early")
                    for l in range(2):
                        s.check(got[l] == (1 if l in lis else 0), "terminated-exactly-once")
                        term[mi][l] += got[l]
                    out[mi] = None
                    gone.append(mi)
                else:
                    s.check(now * 2 <= 2 * t0 + 3 * life + 2, "terminated-too-late")
            # response
            if op.startswith("resp"):
                mi = int(op[4])
                if out[mi] is not None:
                    for l in out[mi][1]:
                        changed[mi][l] += 1
                        s.check(ls[l].log[-1][0] == "changed" and ls[l].log[-1][1] is maps[mi], "answer-delivered")
                        s.check(ls[l].values[-1] == v, "answer-value", lambda: "%s instead of %s" % (ls[l].values[-1], v))
                    s.check(maps[mi].value == v, "mapping-value")
                    out[mi] = None
                    s.check(ret, "consumed")
                else:
                    s.check(not ret, "not-consumed")
        for mi in range(2):
            for l in range(2):
                s.check(sum(1 for (x, m) in ls[l].log if x == "changed" and m is maps[mi]) == changed[mi][l], "notification-count", op)
                s.check(sum(1 for (x, m) in ls[l].log if x == "terminated" and m is maps[mi]) == term[mi][l], "termination-count", op)


def many(s, nm, nl, answered):
    """Many parameters and listeners waiting at once: answered all at once in any order, or terminated"""
    client = s.obj("pyswitch.controller.client:Client")(Midi(s), {"maxRequestLifetimeMillis": 1000})
    midi = client.midi
    maps = [generic_mapping(s, "nrpn", name = "M%d" % i, request = True, n = i) for i in range(nm)]
    ls = [[Listener() for l in range(nl)] for m in maps]
    s.world.ms = s.int("t_start", 1001, 20000)
    client.receive(None)
    asked = []
    for mi in range(nm):
        for l in range(nl):
            if nm == 1 or l < 2:
                if s.flag("ask%d_%d" % (mi, l)):
                    client.request(maps[mi], ls[mi][l])
                    asked.append((mi, l))
    s.check(len(midi.take()) == len(set(a[0] for a in asked)), "one-request-each")
    if answered:
        k = s.int("which", 0, nm - 1)
        v = s.int("v", 0, 16383)
        client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, k, v // 128, v % 128]))
        k = s.split(k)
    else:
        s.advance(s.int("dt", 1600, 5000))
        client.receive(None)
    for mi in range(nm):
        for l in range(nl):
            was = (mi, l) in asked
            c, t = ls[mi][l].changed, ls[mi][l].terminated
            if answered:
                s.check(c == (1 if was and mi == k else 0), "every-asker-answered")
                s.check(t == 0, "not-terminated")
            else:
                s.check(c == 0, "not-answered")
                s.check(t == (1 if was else 0), "every-asker-terminated")
    # afterwards everything which is not waiting any more is requested anew
    waiting = set(a[0] for a in asked if answered and a[0] != k)
    for mi in range(nm):
        client.request(maps[mi], ls[mi][0])
        s.check(len(midi.take()) == (0 if mi in waiting else 1), "requested-anew")


def unrequestable(s):
    """Parameters without request or response message are never requested"""
    Client = s.obj("pyswitch.controller.client:Client")
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    midi = Midi(s)
    client = Client(midi, {})
    a = generic_mapping(s, "cc", name = "A", request = False)
    b = C.get(name = "B", request = midi.SX([0, 0x20, 0x33], [2, 0x7f, 0x41, 0, 4, 1]))
    l = Listener()
    for m in (a, b):
        client.request(m, l)
        s.check(len(midi.take()) == 0, "nothing-sent")
    # no listener at all
    c = generic_mapping(s, "nrpn", name = "C", request = True)
    client.request(c)
    s.check(len(midi.take()) == 1, "sent")
    v = s.int("v", 0, 16383)
    client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, v // 128, v % 128]))
    s.check(c.value == v, "value")
    s.check(l.changed == 0, "not-notified")


def registered(s, n):
    """Parameters without request message are listened to forever"""
    Client = s.obj("pyswitch.controller.client:Client")
    midi = Midi(s)
    client = Client(midi, {})
    m = generic_mapping(s, "cc", name = "A", n = 3)
    ls = [Listener(), Listener()]
    regs = 0
    cnt = [0, 0]
    for i in range(n):
        op = s.choice("op%d" % i, ["reg0", "reg1", "msg", "none"])
        s.advance(s.int("dt%d" % i, 0, 10000))
        if op.startswith("reg"):
            client.register(m, ls[int(op[3])])
            regs |= 1 << int(op[3])
        else:
            v = s.int("v%d" % i, 0, 127)
            client.receive(midi.CC(23, v) if op == "msg" else None)
            for l in range(2):
                if op == "msg" and regs & (1 << l):
                    cnt[l] += 1
                    s.check(s.eq(ls[l].values[-1:], [v]), "value")
        for l in range(2):
            s.check(ls[l].changed == cnt[l], "notified")
            s.check(ls[l].terminated == 0, "never-terminated")
        s.check(len(midi.sent) == 0, "nothing-sent")


def dependent(s, n, nl):
    """A parameter depending on another one is requested exactly when the other one has a new value"""
    Client = s.obj("pyswitch.controller.client:Client")
    C = s.obj("pyswitch.controller.client:ClientParameterMapping")
    midi = Midi(s)
    client = Client(midi, {"maxRequestLifetimeMillis": 100000})
    dep = generic_mapping(s, "nrpn", name = "Dep", request = True, n = 1)
    man = [0x00, 0x20, 0x33]
    m = C.get(name = "M", request = midi.SX(man, [2, 0x7f, 0x41, 0, 4, 2]), response = midi.SX(man, [2, 0x7f, 1, 0, 4, 2]), depends = dep)
    ls = [Listener() for i in range(nl)]
    asked = []             # listeners which have asked for the parameter
    dep_out = False
    own_out = []           # listeners waiting for the outstanding own request
    last = None
    cnt = [0] * nl
    for i in range(n):
        op = s.choice("op%d" % i, ["req%d" % l for l in range(nl)] + ["dep", "own"]) if i else "req0"
        if op.startswith("req"):
            l = int(op[3])
            client.request(m, ls[l])
            sent = midi.take()
            if dep_out:
                s.check(len(sent) == 0, "no-duplicate-request")
            else:
                s.check(s.eq(sent, [("SX", tuple(man), (2, 0x7f, 0x41, 0, 4, 1))]), "dependency-requested", lambda: "sent %s" % repr(sent))
                dep_out = True
            if l not in asked:
                asked.append(l)
        elif op == "dep":
            v = s.int("v%d" % i, 0, 16383)
            client.receive(midi.SX(man, [0, 0, 1, 0, 4, 1, v // 128, v % 128]))
            sent = midi.take()
            if dep_out:
                dep_out = False
                changed = last is None or bool(last != v)
                last = v
                if changed:
                    if not own_out:
                        s.check(s.eq(sent, [("SX", tuple(man), (2, 0x7f, 0x41, 0, 4, 2))]), "requested-on-change", lambda: "sent %s" % repr(sent))
                    else:
                        s.check(len(sent) == 0, "no-duplicate-own-request")
                    own_out = list(asked)
                else:
                    s.check(len(sent) == 0, "not-requested-without-change")
            else:
                s.check(len(sent) == 0, "not-requested-unasked")
        else:
            v = s.int("v%d" % i, 0, 16383)
            client.receive(midi.SX(man, [0, 0, 1, 0, 4, 2, v // 128, v % 128]))
            for l in own_out:
                cnt[l] += 1
                s.check(ls[l].changed == cnt[l], "answer-delivered", "listener %d" % l)
                s.check(ls[l].values[-1] == v, "answer-value")
            own_out = []
        for l in range(nl):
            s.check(ls[l].changed == cnt[l], "notification-count")


def jobs(tier):
    n = 4 if tier == "quick" else 5
    ops = ["req00", "req01", "req10", "resp0", "other", "none"]
    ret = [job(lifecycle, n = n, life_sym = x, first = f) for x in ((True,) if tier == "quick" else (True, False)) for f in ("req00", "none")]
    ret += [job(unrequestable), job(registered, n = n)]
    ret += [job(many, nm = m, nl = l, answered = a) for m, l in ((1, 6), (4, 2)) for a in (True, False)]
    ret += [job(dependent, n = n + 1, nl = 1), job(dependent, n = n + 1, nl = 2)]
    return ret
