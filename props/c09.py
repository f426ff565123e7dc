"""Foot switch processing: press, release, hold, hold repeat, override"""
from .common import *

BOUNDS = {
    "quick": "histories of 7 polls (switch state and elapsed time 0..2000 ms symbolic per poll), hold times 1..1500 ms, with/without hold actions and hold repeat; 5 polls with enable states changing per poll; 5 polls with an override action of arbitrary answers",
    "thorough": "histories of 9 polls, 7 polls with changing enable states, 6 with override; 16 s range"
}
OUTSIDE = "override action being set or removed while the switch is held"


def rec_action(s, log, name, cb):
    Action = s.obj("pyswitch.controller.actions:Action")

    class Rec(Action):
        def push(self):
            log.append(name + "+")

        def release(self):
            log.append(name + "-")

    return Rec({"enableCallback": cb})


class Override:
    def __init__(self, s, log):
        self.s = s
        self.log = log
        self.n = 0
        self.answers = []

    def ans(self):
        self.n += 1
        v = self.s.flag("override%d" % self.n)
        self.answers.append(v)
        return v

    def push(self):
        self.log.append("O+")
        return self.ans()

    def release(self):
        self.log.append("O-")
        return self.ans()


def switch(s, n, hold, repeat, dyn = False, override = False, default_time = False, dmax = 2000):
    log = []
    cbs = {k: EnableCallback() for k in ("a", "b", "h", "i")}
    normal = [rec_action(s, log, "a", cbs["a"]), rec_action(s, log, "b", cbs["b"])]
    hold_actions = [rec_action(s, log, "h", cbs["h"]), rec_action(s, log, "i", cbs["i"])] if hold else []

    hold_time = 600 if default_time else s.int("hold", 1, 1500)
    s.world.ms = s.int("t0", 0, 5000)
    hw = SwitchModel()
    cfg = {
        "assignment": {"model": hw, "pixels": [0]},
        "actions": [normal[0], [normal[1]]] if dyn else normal
    }
    if hold:
        cfg["actionsHold"] = hold_actions
    if not default_time:
        cfg["holdTimeMillis"] = hold_time
    if repeat:
        cfg["holdRepeat"] = True

    appl = controller(s, [cfg])
    sw = appl.inputs[0]
    ov = None
    if override:
        ov = Override(s, log)
        sw.override_action = ov

    together = dyn and hold and s.flag("together")     # all hold actions are enabled and disabled together
    pressed = False             # Switch is down (as seen by the last poll)
    active = False              # The press is running and nothing final happened yet
    fired = False               # Hold actions have been run during this press
    start = None                # Time of press / last hold

    def enabled(names, seq):
        ret = []
        for k in names:
            if cbs[k].state:
                ret += [k + x for x in seq]
        return ret

    for i in range(n):
        if i > 0:
            s.advance(s.int("dt%d" % i, 0, dmax))
        hw.pushed = s.flag("down%d" % i)
        if dyn:
            for k in ("a", "h"):
                cbs[k].state = s.flag("en%d%s" % (i, k)) if i in (0, 2, 3) else cbs[k].state
            if together:
                cbs["i"].state = cbs["h"].state
        del log[:]
        if ov:
            ov.answers = []
        sw.process()
        s.observe("log", list(log))

        now = s.world.ms
        exp = []
        if hw.pushed and not pressed:
            go = True
            if ov:
                exp.append("O+")
                go = ov.answers[0] if ov.answers else False
            if go:
                if hold:
                    active, fired, start = True, False, now
                else:
                    exp += enabled("ab", "+")
        elif hw.pushed:
            if active and now > start + hold_time and (repeat or not fired):
                exp += enabled("hi", "+-")
                fired = True
                start = now
        elif pressed:
            go = True
            if ov:
                exp.append("O-")
                go = ov.answers[0] if ov.answers else False
            if go:
                if not hold:
                    exp += enabled("ab", "-")
                elif active:
                    if now > start + hold_time and (repeat or not fired):
                        exp += enabled("hi", "+-")
                    elif not fired:
                        exp += enabled("ab", "+-")
            active = False
        pressed = hw.pushed
        s.check(log == exp, "actions", lambda: "poll %d: ran %s, expected %s" % (i, log, exp))


def jobs(tier):
    q = tier == "quick"
    n = 7 if q else 9
    m = 5 if q else 7
    o = 5 if q else 6
    ret = [
        job(switch, n = n, hold = False, repeat = False),
        job(switch, n = n, hold = True, repeat = False),
        job(switch, n = n, hold = True, repeat = True),
        job(switch, n = 5, hold = True, repeat = False, default_time = True),
    ]
    for h, r in ((False, False), (True, False), (True, True)):
        ret.append(job(switch, n = m, hold = h, repeat = r, dyn = True))
        ret.append(job(switch, n = o, hold = h, repeat = r, override = True))
    return ret
