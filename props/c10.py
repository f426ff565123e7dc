"""Push button modes"""
from .common import *

BOUNDS = {
    "quick": "histories of 6 steps (press, release, wait 0..2000 ms, feedback of any state, user-visible time symbolic), all 8 modes, hold times 1..1500 ms and default; 2 actions sharing one switch; end to end with a real parameter callback (any 14 bit on/off values)",
    "thorough": "histories of 9 steps"
}

MODES = ("ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE")


class Model:
    """Specified behaviour of the modes: push()/release() return the list of states reported to the functionality"""
    def __init__(self, mode, hold):
        self.mode = mode
        self.hold = hold
        self.state = False
        self.start = None

    def goto(self, v):
        if self.state == v:
            return []
        self.state = v
        return [v]

    def push(self, now):
        m = self.mode
        if m in ("ENABLE", "MOMENTARY"):
            return self.goto(True)
        if m in ("DISABLE", "MOMENTARY_INVERSE"):
            return self.goto(False)
        if m == "LATCH":
            return self.goto(not self.state)
        if m == "HOLD_MOMENTARY":
            self.start = now
            return self.goto(not self.state)
        if m == "ONE_SHOT":
            self.state = True
            return [True]
        return []

    def release(self, now):
        m = self.mode
        if m == "MOMENTARY":
            return self.goto(False)
        if m == "MOMENTARY_INVERSE":
            return self.goto(True)
        if m == "HOLD_MOMENTARY":
            if now > self.start + self.hold:
                return self.goto(not self.state)
        if m == "ONE_SHOT":
            self.state = False
        return []


def recorder(s, log):
    Callback = s.obj("pyswitch.controller.callbacks:Callback")

    class Rec(Callback):
        def state_changed_by_user(self):
            log.append(self.action.state)

        def update_displays(self):
            self.shown = self.action.state

    return Rec()


def modes(s, mode, n, default_time = False):
    """State machine of one action, through a real switch"""
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    s.world.ms = s.int("t0", 0, 10000)
    hold = 600 if default_time else s.int("hold", 1, 1500)
    log = []
    cb = recorder(s, log)
    cfg = {"mode": getattr(PB, mode), "callback": cb}
    if mode == "HOLD_MOMENTARY" and default_time:
        del cfg["mode"]           # it is the default
    if not default_time:
        cfg["holdTimeMillis"] = hold
    a = PB(cfg)
    hw = SwitchModel()
    appl = controller(s, [{"assignment": {"model": hw}, "actions": [a]}])
    sw = appl.inputs[0]
    m = Model(mode, hold)

    for i in range(n):
        if i > 0:
            s.advance(s.int("dt%d" % i, 0, 2000))
        del log[:]
        exp = []
        op = s.choice("op%d" % i, ["switch", "feedback", "reset"] if i in (1, 2) else ["switch", "feedback"])
        if op == "switch":
            hw.pushed = not hw.pushed
            sw.process()
            before = m.state
            exp = m.push(s.world.ms) if hw.pushed else m.release(s.world.ms)
            if before != m.state:
                s.check(cb.shown == m.state, "displays-updated")
        elif op == "feedback":
            v = s.flag("fb%d" % i)
            a.feedback_state(v)
            m.state = v
        else:
            a.reset()
            m.state = False
        s.observe("log", list(log))
        s.check(log == exp, "functionality-triggered", lambda: "%s instead of %s" % (log, exp))
        s.check(a.state == m.state, "state", lambda: "%s instead of %s" % (a.state, m.state))


def two(s, m1, m2, n):
    """Several actions on one switch do not influence each other"""
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    s.world.ms = s.int("t0", 0, 10000)
    h = [s.int("hold1", 1, 1500), s.int("hold2", 1, 1500)]
    logs = [[], []]
    acts = [PB({"mode": getattr(PB, m), "callback": recorder(s, logs[j]), "holdTimeMillis": h[j]}) for j, m in enumerate((m1, m2))]
    ms = [Model(m1, h[0]), Model(m2, h[1])]
    hw = SwitchModel()
    sw = controller(s, [{"assignment": {"model": hw}, "actions": acts}]).inputs[0]
    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 2000))
        if i == 2 and s.flag("fb"):
            acts[0].feedback_state(True)
            ms[0].state = True
        for j in range(2):
            del logs[j][:]
        hw.pushed = not hw.pushed
        sw.process()
        for j in range(2):
            exp = ms[j].push(s.world.ms) if hw.pushed else ms[j].release(s.world.ms)
            s.check(logs[j] == exp, "functionality-triggered", lambda: "action %d: %s instead of %s" % (j, logs[j], exp))
            s.check(acts[j].state == ms[j].state, "state")


def parameter(s, mode, n):
    """With a real parameter: messages sent for presses, answers update the state"""
    PB = s.obj("pyswitch.controller.actions:PushButtonAction")
    BC = s.obj("pyswitch.controller.callbacks:BinaryParameterCallback")
    on, off = s.int("on", 0, 16383), s.int("off", 0, 16383)
    s.assume(on != off)
    s.world.ms = 5000
    hold = s.int("hold", 1, 1500)
    mp = generic_mapping(s, "nrpn")
    a = PB({"mode": getattr(PB, mode), "callback": BC(mp, value_enable = on, value_disable = off, comparison_mode = BC.EQUAL), "holdTimeMillis": hold})
    hw = SwitchModel()
    appl = controller(s, [{"assignment": {"model": hw}, "actions": [a]}], protocol = Protocol())
    midi = appl.test_midi
    sw = appl.inputs[0]
    m = Model(mode, hold)
    last = None               # last known value of the parameter
    for i in range(n):
        s.advance(s.int("dt%d" % i, 0, 2000))
        if i in (1, 2) and s.flag("rcv%d" % i):
            v = s.int("val%d" % i, 0, 16383)
            appl.client.receive(midi.SX([0, 0x20, 0x33], [0, 0, 1, 0, 4, 0, v >> 7, v & 127]))
            if last is None or v != last:
                m.state = bool(v == on)
                last = v
            s.check(a.state == m.state, "state-from-device")
        midi.take()
        hw.pushed = not hw.pushed
        sw.process()
        exp = m.push(s.world.ms) if hw.pushed else m.release(s.world.ms)
        want = []
        for st in exp:
            v = on if st else off
            want.append(("SX", (0, 0x20, 0x33), (2, 0x7f, 0x01, 0, 4, 0, v >> 7, v & 127)))
            if last is None or v != last:
                last = v
        got = midi.take()
        s.check(s.eq(got, want), "messages-sent", lambda: "%s instead of %s" % (got, want))
        s.check(a.state == m.state, "state")


def jobs(tier):
    n = 6 if tier == "quick" else 9
    ret = [job(modes, mode = m, n = n) for m in MODES]
    ret.append(job(modes, mode = "HOLD_MOMENTARY", n = n, default_time = True))
    for a, b in (("HOLD_MOMENTARY", "HOLD_MOMENTARY"), ("LATCH", "MOMENTARY_INVERSE"), ("ONE_SHOT", "MOMENTARY"), ("ENABLE", "DISABLE")):
        ret.append(job(two, m1 = a, m2 = b, n = n))
    for m in MODES:
        ret.append(job(parameter, mode = m, n = 4 if tier == "quick" else 6))
    return ret
