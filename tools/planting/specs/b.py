BUG("manufacturer-prefix", "C02", [("controller/client.py", "            if midi_message.manufacturer_id != response.manufacturer_id:\n                return None\n            \n            # Check if the message", "            if midi_message.manufacturer_id[:2] != response.manufacturer_id[:2]:\n                return None\n            \n            # Check if the message")],
 "A system exclusive message of a manufacturer with the same first two ID bytes", "A message of another manufacturer is taken as the value", """
a = app()
m = mapping("x", request = SX(K, [0, 0, 0x41, 0, 4, 5]), response = SX(K, [0, 0, 1, 0, 4, 5]))
l = Listener()
a.client.request(m, l)
a.client.receive(SX([0, 0x20, 0x34], [0, 0, 1, 0, 4, 5, 0, 7]))
equal((m.value, l.log), (None, []))
""")
BUG("loss-known-only", "C06", [("controller/client.py", "            if self.protocol.is_bidirectional(r.mapping):\n                r.notify_terminated()\n", "            if r.mapping.value and self.protocol.is_bidirectional(r.mapping):\n                r.notify_terminated()\n")],
 "The connection is lost while a parameter has the value 0", "The loss is not reported for parameters having the value 0", """
from pyswitch.clients.kemper import KemperBidirectionalProtocol, KemperMappings
a = app(protocol = KemperBidirectionalProtocol(30))
m = KemperMappings.EFFECT_STATE(0)
l = Listener()
a.client.register(m, l)
a.client.receive(nrpn(0x32, 3, 0))
a.client.notify_connection_lost()
equal(l.log, [0, "terminated"])
""")
ACT = """
class Act:
    enabled = True
    def __init__(self, n, log):
        self.n, self.log = n, log
    def init(self, appl, switch): pass
    def update_displays(self): pass
    def push(self): self.log.append(self.n + "+")
    def release(self): self.log.append(self.n + "-")
def rig(**kw):
    log = []
    h = Switch()
    i = dict({"assignment": {"model": h}, "actions": [Act("a", log)], "actionsHold": [Act("h", log)]}, **kw)
    return app([i]), h, log
def go(a, h, p):
    h.pushed = p
    a.inputs[0].process()
"""
BUG("hold-at-release", "C09", [("controller/inputs.py", "                        if self.__check_hold():\n                            return\n\n                        if self.__hold_was_active", "                        if not self.__hold_repeat and self.__check_hold():\n                            return\n\n                        if self.__hold_was_active")],
 "Hold repeat, with the hold time exceeded exactly between the last poll and the release", "The normal actions run although the hold time has been exceeded", ACT + """
a, h, log = rig(holdRepeat = True)
go(a, h, True)
clock.ms += 601
go(a, h, False)
equal(log, ["h+", "h-"])
""")
BUG("hold-momentary-off", "C10", [("controller/actions/__init__.py", "            if self.__period.exceeded:\n                # Momentary if the period exceeded\n                self.state = not self.state\n", "            if self.__period.exceeded:\n                # Momentary if the period exceeded\n                self.state = False\n")],
 "Hold momentary mode: held long when switching off", "A long press starting in on state does not return to on", """
from pyswitch.controller.actions import PushButtonAction
class A(PushButtonAction):
    log = []
    def set(self, s): self.log.append(s)
a = switches(A({"mode": PushButtonAction.HOLD_MOMENTARY, "holdTimeMillis": 600}))
a.update()
click(a)
press(a); clock.ms += 700; release(a)
equal(A.log, [True, False, True])
""")
BUG("one-shot-release", "C10", [("controller/actions/__init__.py", "            self.__state = False    # Triggers that set() is called by the state property in the next line\n", "")],
 "One shot mode: pressed twice with the state reported as on by the device in between", "The functionality is not triggered on the second press", """
from pyswitch.controller.actions import PushButtonAction
class A(PushButtonAction):
    log = []
    def set(self, s): self.log.append(s)
x = A({"mode": PushButtonAction.ONE_SHOT})
a = switches(x)
click(a); x.feedback_state(True); click(a)
equal(A.log, [True, True])
""")
BUG("cal-min-factor", "C13", [("controller/actions/AnalogAction.py", "                        self.__cal_min = value\n                        self.__cal_factor = 65536 / (self.__cal_max - self.__cal_min)\n", "                        self.__cal_min = value\n                        self.__cal_factor = max(self.__cal_factor, 65536 / (self.__cal_max - self.__cal_min)) if self.__cal_min < 1024 and hasattr(self, \"_AnalogAction__cal_factor\") else 65536 / (self.__cal_max - self.__cal_min)\n")],
 "Auto calibration with a new minimum below 1024 after a maximum has been seen", "The factor is not recalculated for the extended range", """
from pyswitch.controller.actions.AnalogAction import AnalogAction
p = Pot()
x = AnalogAction(mapping("v", set = CC(7, 0)), auto_calibrate = True, num_steps = 128)
a = app([{"assignment": {"model": p}, "actions": [x]}])
for v in (20000, 60000, 0, 30000):
    clock.ms += 100
    p.value = v
    a.inputs[0].process()
    last = a.midi.take()
equal(last, [("CC", 7, 64)])
""")
BUG("analog-frame-loss", "C13", [("controller/actions/AnalogAction.py", "            if self.__last_value != v:\n", "            if abs(self.__last_value - v) > 1 or v in (0, self.__max_value) and self.__last_value != v:\n")],
 "The pedal moves by exactly one value", "A change of one is not sent", """
from pyswitch.controller.actions.AnalogAction import AnalogAction
p = Pot()
x = AnalogAction(mapping("v", set = CC(7, 0)))
a = app([{"assignment": {"model": p}, "actions": [x]}])
for v in (20480, 20480 + 512):
    clock.ms += 100
    p.value = v
    a.inputs[0].process()
equal([m[2] for m in a.midi.take()], [40, 41])
""")
BUG("preselect-from-last", "C14", [("controller/actions/EncoderAction.py", "        elif self.__preselect and not self.__preselect_active:\n", "        elif self.__preselect and not self.__preselect_active and self._last_value == -1:\n")],
 "Preselect encoder: the device reports a new value between two preselections", "The second preselection starts with an outdated value", """
from pyswitch.controller.actions.EncoderAction import EncoderAction
from pyswitch.clients.local.actions.encoder_button import ENCODER_BUTTON
b = ENCODER_BUTTON()
e = Encoder()
m = mapping("v", set = CC(7, 0), response = CC(7, 0), request = CC(8, 0))
x = EncoderAction(m, accept_action = b)
a = switches(b, extra = [{"assignment": {"model": e}, "actions": [x]}])
a.update()
a.client.receive(CC(7, 50))
def turn(n):
    e.position += n
    a.inputs[1].process()
turn(0); turn(2)
equal(click(a), [("CC", 7, 52)])
a.client.request(m); a.client.receive(CC(7, 90))
turn(1)
equal(click(a), [("CC", 7, 91)])
""")
BUG("repeat-first", "C15", [("clients/local/actions/param_change.py", "        self.__pushed = True\n        if self.__repeat_period:\n            self.__repeat_period.reset()\n", "        if self.__repeat_period and self.__pushed:\n            self.__repeat_period.reset()\n        self.__pushed = True\n")],
 "A press longer than one repeat interval after the last one", "The first repetition happens immediately", """
from pyswitch.clients.local.actions.param_change import PARAMETER_UP_DOWN
m = mapping("v", set = CC(7, 0), response = CC(7, 0), request = CC(8, 0))
a = switches(PARAMETER_UP_DOWN(m, 3, repeat_interval_millis = 200))
a.update(); a.client.receive(CC(7, 50)); a.midi.take()
clock.ms += 1000
press(a)
clock.ms += 50
a.update()
equal([x for x in a.midi.take() if x[1] == 7], [])
""")
BUG("preview-interval", "C16", [("controller/preview.py", "            else:\n                self.__period.interval = timeout_millis                \n", "            elif timeout_millis > self.__period.interval:\n                self.__period.interval = timeout_millis                \n")],
 "Two previews on one label, the second one with a shorter timeout", "The second preview stays too long", """
from pyswitch.controller.preview import ValuePreview
l = Label()
p = ValuePreview.get(l)
p.preview("a", timeout_millis = 1500); p.preview("b", timeout_millis = 500)
clock.ms += 501
p.update()
equal(l.override_text, None)
""")
