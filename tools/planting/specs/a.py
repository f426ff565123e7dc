BUG("set-stale-msb", "C01", [("controller/client.py", "            data[6] = int(floor(value / 128))\n", "            if value >= 128 or len(midi_message.data) < 8:\n                data[6] = int(floor(value / 128))\n")],
 "An NRPN parameter set first to a value above 127 and then to one below 128", "The upper 7 bits of the last large value are sent with the next small value", """
from adafruit_midi.system_exclusive import SystemExclusive
a = app()
m = mapping("x", set = SX(K, [0, 0, 1, 0, 4, 5]))
for v in (3, 16383, 128, 127, 0, 300, 44):
    a.client.set(m, v)
    equal(a.midi.take(), [("SX", K, [0, 0, 1, 0, 4, 5, v // 128, v % 128])], v)
""")
BUG("function-ignored", "C02", [("controller/client.py", "if midi_message.data[2:6] != response.data[2:6]:", "if midi_message.data[3:6] != response.data[3:6]:")],
 "A system exclusive message with another function code but the address of a requested parameter", "A foreign message (e.g. a request, or a string message of the same address) is taken as the value", """
a = app()
m = mapping("x", request = SX(K, [0, 0, 0x41, 0, 4, 5]), response = SX(K, [0, 0, 1, 0, 4, 5]))
l = Listener()
a.client.request(m, l)
a.client.receive(nrpn(4, 5, 77, f = 3))
equal((m.value, l.log), (None, []))
a.client.receive(nrpn(4, 5, 78))
equal((m.value, l.log), (78, [78]))
""")
BUG("first-bank-wins", "C03", [("controller/client.py", "        if value_1 != None:\n            self.__value_1 = value_1\n", "        if value_1 != None:\n            if self.__value_1 is None:\n                self.__value_1 = value_1\n")],
 "Two bank parts before the program change", "The rig ID uses an outdated bank part", """
from pyswitch.clients.kemper import KemperMappings
a = app()
m = KemperMappings.RIG_ID()
a.client.register(m, Listener())
a.client.receive(CC(32, 1)); a.client.receive(CC(32, 3)); a.client.receive(PC(5))
equal(m.value, 3 * 128 + 5)
""")
BUG("asking-extends", "C04", [("controller/client.py", "            # Existing request: Add listener\n            if listener:\n                req.add_listener(listener)\n", "            # Existing request: Add listener\n            if listener:\n                if req.add_listener(listener) and req.lifetime:\n                    req.lifetime.reset()\n")],
 "A second listener asking for a pending parameter late in its lifetime", "The request does not expire in time", """
a = app(config = {"maxRequestLifetimeMillis": 2000})
m = mapping("x", request = SX(K, [0, 0, 0x41, 0, 4, 5]), response = SX(K, [0, 0, 1, 0, 4, 5]))
l, k = Listener(), Listener()
a.client.receive(None)
a.client.request(m, l)
clock.ms += 1900
a.client.request(m, k)
clock.ms += 1150
a.client.receive(None)
equal((l.log, k.log), (["terminated"], ["terminated"]))
""")
BUG("duplicate-dependency", "C04", [("controller/client.py", "        def parameter_changed(self, mapping):\n            if mapping.value != self.__last_value:\n                self.__last_value = mapping.value\n\n", "        def parameter_changed(self, mapping):\n            if mapping.value and mapping.value != self.__last_value:\n                self.__last_value = mapping.value\n\n")],
 "The parameter another one depends on changes to 0", "The dependent parameter is not requested when the other one changes to 0", """
a = app()
d = mapping("d", request = SX(K, [0, 0, 0x41, 0, 4, 6]), response = SX(K, [0, 0, 1, 0, 4, 6]))
m = mapping("x", request = SX(K, [0, 0, 0x41, 0, 4, 5]), response = SX(K, [0, 0, 1, 0, 4, 5]), depends = d)
l = Listener()
for v in (5, 0):
    a.client.request(m, l)
    equal(a.midi.take(), [("SX", K, [0, 0, 0x41, 0, 4, 6])])
    a.client.receive(nrpn(4, 6, v))
    equal(a.midi.take(), [("SX", K, [0, 0, 0x41, 0, 4, 5])], v)
    a.client.receive(nrpn(4, 5, 9))
equal(l.log, [9, 9])
""")
BUG("keepalive-late", "C05", [("clients/kemper/__init__.py", "        if self.state != self._STATE_RUNNING:\n            self.resend_period.reset()\n            \n", "        if self.state != self._STATE_RUNNING:\n            if not self.__has_been_running:\n                self.resend_period.reset()\n            \n")],
 "Connection lost and re-established", "After reconnecting a keep-alive beacon is sent immediately instead of after half the lease", """
from pyswitch.clients.kemper import KemperBidirectionalProtocol
a = app(protocol = KemperBidirectionalProtocol(30))
sense = SX(K, [0, 0, 0x7e, 0, 0x7f, 0, 0])
clock.ms += 6000
a.client.update(); equal(len(a.midi.take()), 1, "init")
a.client.receive(sense)
clock.ms += 1600
a.client.update(); equal(len(a.midi.take()), 0, "lost")
clock.ms += 20000
a.client.update(); equal(len(a.midi.take()), 1, "init again")
a.client.receive(sense)
clock.ms += 10
a.client.update(); equal(len(a.midi.take()), 0, "connected")
""")
BUG("lost-once", "C05", [("clients/kemper/__init__.py", "                    self.__client.notify_connection_lost()                    \n", "                    self.__client.notify_connection_lost()                    \n                    self.init_period.interval = 10000\n")],
 "A connection lost and a second init beacon", "After a loss, init beacons are sent every 10 s only", """
from pyswitch.clients.kemper import KemperBidirectionalProtocol
a = app(protocol = KemperBidirectionalProtocol(30))
clock.ms += 6000
a.client.update(); equal(len(a.midi.take()), 1, "init")
a.client.receive(SX(K, [0, 0, 0x7e, 0, 0x7f, 0, 0]))
clock.ms += 1600
a.client.update(); equal(len(a.midi.take()), 0, "lost")
for i in range(3):
    clock.ms += 5001
    a.client.update(); equal(len(a.midi.take()), 1, "init again")
""")
BUG("no-echo-if-equal", "C06", [("controller/client.py", "            req.mapping.value = value\n            req.notify_listeners()\n", "            if req.mapping.value != value:\n                req.mapping.value = value\n                req.notify_listeners()\n")],
 "A bidirectional parameter set to the value it has already", "No feedback for setting the value again", """
from pyswitch.clients.kemper import KemperBidirectionalProtocol, KemperMappings
a = app(protocol = KemperBidirectionalProtocol(30))
m = KemperMappings.EFFECT_STATE(0)
l = Listener()
a.client.register(m, l)
a.client.set(m, 1); a.client.set(m, 1)
equal(l.log, [1, 1])
""")
BUG("loss-removes", "C06", [("controller/client.py", "            if self.protocol.is_bidirectional(r.mapping):\n                r.notify_terminated()\n", "            if self.protocol.is_bidirectional(r.mapping):\n                r.terminate()\n")],
 "A value received after a lost connection", "Listeners of bidirectional parameters get no values any more after the connection was lost", """
from pyswitch.clients.kemper import KemperBidirectionalProtocol, KemperMappings
a = app(protocol = KemperBidirectionalProtocol(30))
m = KemperMappings.EFFECT_STATE(0)
l = Listener()
a.client.register(m, l)
a.client.notify_connection_lost()
a.client.receive(nrpn(0x32, 3, 1))
equal(l.log, ["terminated", 1])
""")
BUG("routing-break", "C07", [("controller/midi.py", "            if r.source in self.__external_sources:\n                continue\n\n            msg = r.source.receive()\n\n            if msg:\n", "            if r.source in self.__external_sources:\n                break\n\n            msg = r.source.receive()\n\n            if msg:\n")],
 "A port routed both externally and to the application, listed before another port routed to the application", "Messages of the second port never reach the application", """
from pyswitch.controller.midi import MidiController, MidiRouting
A = MidiRouting.APPLICATION
p, q = Midi(), Midi()
c = MidiController([MidiRouting(p, q), MidiRouting(p, A), MidiRouting(q, A)])
m = CC(1, 2)
q.queue.append(m)
equal([c.receive() is m, c.receive()], [True, None])
""")
BUG("slot-type-address", "C08", [("clients/kemper/__init__.py", "        const(0x3d),   # Slot REV\n\n        const(0x3c),   # Slot DLY\n        const(0x3d)    # Slot REV\n    )    \n", "        const(0x3d),   # Slot REV\n\n        const(0x3c),   # Slot DLY\n        const(0x3e)    # Slot REV\n    )    \n")],
 "The reverb slot without spillover", "The effect state of the slot is requested from a wrong address page", """
from pyswitch.clients.kemper import KemperMappings, KemperEffectSlot
a = app()
a.client.request(KemperMappings.EFFECT_STATE(KemperEffectSlot.EFFECT_SLOT_ID_REV_NO_SPILL), Listener())
a.client.request(KemperMappings.EFFECT_TYPE(KemperEffectSlot.EFFECT_SLOT_ID_REV_NO_SPILL), Listener())
equal([m[2][4] for m in a.midi.take()], [0x3d, 0x3d])
""")
ACT = """
class Act:
    enabled = True
    def __init__(self, n, log):
        self.n, self.log = n, log
    def init(self, appl, switch): pass
    def update_displays(self): pass
    def push(self): self.log.append(self.n + "+")
    def release(self): self.log.append(self.n + "-")
def rig(**kw):
    log = []
    h = Switch()
    i = dict({"assignment": {"model": h}, "actions": [Act("a", log)], "actionsHold": [Act("h", log)]}, **kw)
    return app([i]), h, log
def go(a, h, p):
    h.pushed = p
    a.inputs[0].process()
"""
BUG("override-hold", "C09", [("controller/inputs.py", "        if self.override_action:\n            if not self.override_action.push():\n                return\n\n        # Process all push actions assigned to the switch     \n        if self.__actions_hold:        \n            self.__period_hold.reset()\n            self.__hold_active = True\n            return\n", "        # Process all push actions assigned to the switch     \n        if self.__actions_hold:        \n            self.__period_hold.reset()\n            self.__hold_active = True\n\n        if self.override_action:\n            if not self.override_action.push():\n                return\n\n        if self.__actions_hold:        \n            return\n")],
 "A switch with hold actions held while an override action suppresses its actions", "The hold actions run although they are overridden", ACT + """
a, h, log = rig()
class O:
    def push(self): return False
    def release(self): return False
a.inputs[0].override_action = O()
go(a, h, True)
clock.ms += 700
go(a, h, True); go(a, h, False)
equal(log, [])
""")
BUG("hold-repeat-once", "C09", [("controller/inputs.py", "            if self.__hold_repeat:\n                self.__hold_was_active = True\n", "            if self.__hold_repeat and not self.__hold_was_active:\n                self.__hold_was_active = True\n")],
 "Hold repeat, held for more than two hold times", "The hold actions are repeated once only", ACT + """
a, h, log = rig(holdRepeat = True)
go(a, h, True)
for i in range(4):
    clock.ms += 601
    go(a, h, True)
go(a, h, False)
equal(log, ["h+", "h-"] * 4)
""")
BUG("hold-momentary-reset", "C10", [("controller/actions/__init__.py", "            self.__period.reset()\n            self.state = not self.state\n\n        elif mode == self.ONE_SHOT:", "            self.state = not self.state\n            if self.state:\n                self.__period.reset()\n\n        elif mode == self.ONE_SHOT:")],
 "Hold momentary mode: switched off by a short press some time after it has been switched on", "A short press to switch off switches on again on release", """
from pyswitch.controller.actions import PushButtonAction
class A(PushButtonAction):
    log = []
    def set(self, s): self.log.append(s)
a = switches(A({"mode": PushButtonAction.HOLD_MOMENTARY, "holdTimeMillis": 600}))
for i in range(4):
    press(a); clock.ms += 50; release(a); clock.ms += 3000
equal(A.log, [True, False, True, False])
""")
BUG("middle-colour", "C11", [("controller/actions/__init__.py", "tmp[segment] = color[floor(len(color) / 2)]", "tmp[segment] = color[len(segments) if len(segments) < len(color) else floor(len(color) / 2)]")],
 "A list of four or more colours on an action having one LED of several", "Not the middle colour is shown", """
from pyswitch.controller.actions import Action
x = Action({"useSwitchLeds": True})
a = switches([x, Action({"useSwitchLeds": True}), Action({"useSwitchLeds": True})], leds = 3)
c = [(i, i, i) for i in range(1, 7)]
x.switch_color = tuple(c)
equal(a.inputs[0].colors[0], c[3])
""")
BUG("led-skip", "C12", [("controller/inputs.py", "            pixel = self.pixels[i]\n", "            pixel = self.pixels[i]\n            if brightnesses[i] == self.__brightnesses[i] and self.__appl.led_driver.leds[pixel] is not None and len(self.pixels) > 1:\n                continue\n")],
 "A new colour with unchanged brightness on a switch with several LEDs", "The LED keeps its old colour", """
a = switches([], leds = 3)
s = a.inputs[0]
s.color = (100, 50, 10); s.brightness = 0.5
s.colors = [(10, 20, 30), (40, 50, 60), (70, 80, 90)]; s.brightnesses = [0.5, 0.5, 1]
equal(a.led_driver.leds[:3], [(5, 10, 15), (20, 25, 30), (70, 80, 90)])
""")
