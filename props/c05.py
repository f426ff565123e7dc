"""Bidirectional communication session (connect, keep alive, loss, reconnect)"""
from .common import *

BOUNDS = {
    "quick": "sessions of 5 steps from power-on (each: wait 0..60 s, then update or receive a sensing / other SysEx / CC message, all bytes symbolic), all even and odd leases 2..255 s, tuner mode on/off, first use 0..20 s after power-on",
    "thorough": "as quick with 6 steps, additionally fixed leases of 30 s and 2 s"
}
OUTSIDE = "leases of 1 s or less and above 255 s"


class Lost:
    def __init__(self):
        self.n = 0

    def notify_connection_lost(self):
        self.n += 1


def session(s, n, start, lease_kind, tuner):
    midi = Midi(s)
    Colors = s.obj("pyswitch.colors:Colors")
    lease = {"sym": lambda: s.int("lease", 2, 255), "30": lambda: 30, "2": lambda: 2}[lease_kind]()
    s.world.ms = s.int("t_start", 0, 20000)
    p = s.obj("pyswitch.clients.kemper:KemperBidirectionalProtocol")(time_lease_seconds = lease, tuner_mode = tuner)
    lost = Lost()
    p.init(midi, lost)

    running = False
    was_running = False
    init_sent = False
    last_init = 0
    last_sense = s.world.ms
    last_beacon = 0
    n_lost = 0

    # The device may send more data after the address page of the sensing message
    rest = [s.int("rest0", 0, 127), s.int("rest1", 0, 127)] if tuner else []

    def beacon(init):
        return ("SX", (0, 0x20, 0x33), (2, 0x7f, 0x7e, 0, 0x40, 2, (1 if init else 0) | 2 | (32 if tuner else 0), lease // 2))

    s.check(s.eq(p.get_color(), Colors.RED), "initial-color")

    if start == "connected":
        # connect first
        s.world.ms = s.int("t_init", 20001, 30000)
        p.update()
        s.check(s.eq(midi.take(), [beacon(True)]), "first-beacon")
        last_init = s.world.ms
        s.advance(s.int("t_answer", 0, 4000))
        s.check(p.receive(midi.SX([0, 0x20, 0x33], [0, 0, 0x7e, 0, 0x7f] + rest)), "sense-consumed")
        running = was_running = init_sent = True
        last_sense = last_beacon = s.world.ms

    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 60000))
        now = s.world.ms
        op = s.choice("op%d" % i, ["update", "sense", "sysex", "cc"] if i == 0 else ["update", "sense", "sysex"] if i < 3 else ["update", "sense"])
        if op == "update":
            p.update()
            sent = midi.take()
            if not running:
                if now > last_init + 5000:
                    s.check(s.eq(sent, [beacon(True)]), "init-beacon", lambda: "sent %s" % repr(sent))
                    last_init = now
                    init_sent = True
                    if was_running:
                        n_lost += 1
                else:
                    s.check(len(sent) == 0, "no-beacon-too-early", lambda: "sent %s" % repr(sent))
            else:
                if now > last_sense + 1500:
                    running = False
                    last_sense = now
                    s.check(len(sent) == 0, "nothing-sent-on-loss")
                elif now > last_beacon + lease * 500:
                    s.check(s.eq(sent, [beacon(False)]), "keep-alive", lambda: "sent %s" % repr(sent))
                    last_beacon = now
                else:
                    s.check(len(sent) == 0, "no-keep-alive-yet", lambda: "sent %s" % repr(sent))
        else:
            if op == "cc":
                msg = midi.CC(s.int("c%d" % i, 0, 127), s.int("v%d" % i, 0, 127))
                is_sense = False
            elif op == "sense":
                msg = midi.SX([0, 0x20, 0x33], [s.int("p%d" % i, 0, 127), s.int("q%d" % i, 0, 127), 0x7e, 0, 0x7f] + rest)
                is_sense = True
            else:
                man = [0, s.int("man%d" % i, 0, 127), 0x33]
                d = [s.int("d%d_%d" % (i, j), 0, 127) for j in range(3)]
                msg = midi.SX(man, [0, 0] + d + [1, 2])
                is_sense = s.And(man[1] == 0x20, d[0] == 0x7e, d[1] == 0, d[2] == 0x7f)
                s.assume(s.Not(is_sense))
                is_sense = False
            ret = p.receive(msg)
            sent = midi.take()
            if is_sense and was_running and not running:
                # Connected again: the current state of the device is requested
                s.check(s.eq(sent, [beacon(True)]), "reconnected", lambda: "sent %s" % repr(sent))
            else:
                s.check(len(sent) == 0, "receive-sends-nothing", lambda: "sent %s" % repr(sent))
            if is_sense and init_sent:
                s.check(ret, "sense-consumed")
                if not running:
                    running = True
                    was_running = True
                    last_beacon = now
                last_sense = now
            else:
                s.check(not ret, "not-consumed")
        s.check(s.eq(p.get_color(), Colors.GREEN if running else Colors.RED), "state-color")
        s.check(lost.n == n_lost, "connection-lost-notifications", lambda: "%d instead of %d" % (lost.n, n_lost))


def jobs(tier):
    if tier == "quick":
        return [job(session, n = 5, start = st, lease_kind = "sym", tuner = True) for st in ("off", "connected")] + \
            [job(session, n = 3, start = st, lease_kind = "30", tuner = False) for st in ("off", "connected")]
    return [job(session, n = 6, start = st, lease_kind = l, tuner = t) for st in ("off", "connected") for l, t in (("sym", True), ("30", True), ("2", False))]
