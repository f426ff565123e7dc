PG = """
from pyswitch.clients.local.actions.pager import PagerAction
from pyswitch.clients.local.actions.custom import CUSTOM_MESSAGE
from pyswitch.controller.callbacks import Callback
class En(Callback):
    on = True
    def enabled(self, a): return self.on
"""
BUG("first-request-only", "C02", [("controller/client.py", "        for request in self.__requests:\n            if request.parse(midi_message):\n                parsed = True\n", "        for request in self.__requests:\n            if request.parse(midi_message):\n                parsed = True\n                if request.lifetime:\n                    do_cleanup = True\n                    break\n")],
 "Two parameters with the same address requested at the same time", "Only the one requested first receives the answer", """
from pyswitch.controller.client import ClientParameterMapping
mk = lambda n: ClientParameterMapping.get(n, request = SX([0, 0x20, 0x33], [2, 0x7f, 0x41, 0, 9, 9]), response = SX([0, 0x20, 0x33], [2, 0x7f, 1, 0, 9, 9]))
m, k = mk("one"), mk("two")
a = app(protocol = Bidirectional(False))
a.client.request(m, Listener())
a.client.request(k, Listener())
a.client.receive(nrpn(9, 9, 300))
equal((m.value, k.value), (300, 300))
""")
BUG("hold-disabled-page", "C09", [("controller/inputs.py", "        if self.__actions_hold:        \n            self.__period_hold.reset()", "        if [a for a in self.__actions_hold if a.enabled]:        \n            self.__period_hold.reset()")],
 "The hold actions get enabled (or disabled) between press and release of the switch, or are all on another page", "The actions run twice or not at all", PG + """
e = En()
hw = Switch()
a = app([{"assignment": {"model": hw, "pixels": [0]}, "actions": [CUSTOM_MESSAGE([1], message_release = [3])], "actionsHold": [CUSTOM_MESSAGE([2], enable_callback = e)]}])
e.on = False
hw.pushed = True
a.inputs[0].process()
e.on = True
hw.pushed = False
a.inputs[0].process()
equal(a.midi.take(), [("RAW", [1]), ("RAW", [3])])
""")
BUG("updown-page-return", "C25", [("clients/local/actions/param_change.py", "    def reset(self):\n        self.__last_value = -1", "    def reset(self):\n        if not hasattr(self, \"action\"):\n            self.__last_value = -1")],
 "Returning to a page with a parameter up/down switch whose value did not change meanwhile", "The label still shows the other page", PG + """
from pyswitch.clients.local.actions.param_change import PARAMETER_UP_DOWN
l = Label()
p = PagerAction(pages = [{"id": 1}, {"id": 2}])
m = mapping("x", set = CC(20, 0), response = CC(20, 0))
up = PARAMETER_UP_DOWN(m, 5, display = l, id = 1, enable_callback = p.enable_callback)
other = CUSTOM_MESSAGE([1], text = "other", id = 2, enable_callback = p.enable_callback, display = l)
a = switches([p], [up, other], protocol = Bidirectional())
m.value = 127
a.update()
equal(l.text, "100%")
click(a, 0)
a.update()
equal(l.text, "other")
click(a, 0)
a.update()
equal(l.text, "100%")
""")
BUG("updown-zero-colour", "C15", [("clients/local/actions/param_change.py", "            if self.action.label.back_color:", "            if self.action.label.back_color and dim_factor > 0:")],
 "The parameter arrives at the end of its range where the switch is dark", "The label keeps its former colour", """
from pyswitch.clients.local.actions.param_change import PARAMETER_UP_DOWN
l = Label()
m = mapping("x", set = CC(20, 0), response = CC(20, 0))
a = switches(PARAMETER_UP_DOWN(m, -60, display = l, color = (200, 100, 50)), protocol = Bidirectional())
a.client.receive(CC(20, 100))
a.update()
a.client.receive(CC(20, 127))
a.update()
equal(tuple(l.back_color), (0, 0, 0))
""")
BUG("led-unchanged-brightness", "C12", [("controller/inputs.py", "        if len(brightnesses) != len(self.pixels):", "        if len(self.pixels) > 3 and list(brightnesses) == self.brightnesses:\n            return\n\n        if len(brightnesses) != len(self.pixels):")],
 "A switch with more than three LEDs changing its colour but not its brightness", "The LEDs keep the old colour", """
hw = Switch()
a = app([{"assignment": {"model": hw, "pixels": [0, 1, 2, 3]}, "actions": []}])
s = a.inputs[0]
s.color = (100, 50, 20)
s.brightness = 0.5
equal([tuple(x) for x in a.led_driver.leds], [(50, 25, 10)] * 4)
""")
BUG("calibrated-no-threshold", "C13", [("controller/actions/AnalogAction.py", "if self.__min_raw_value is not None and value < self.__min_raw_value:", "if self.__min_raw_value is not None and not self.__calibrate and value < self.__min_raw_value:")],
 "A calibrated pedal near (but not at) its lowest position", "It does not reach a stable zero", """
from pyswitch.controller.actions.AnalogAction import AnalogAction
m = mapping("x", set = CC(20, 0), response = CC(20, 0))
hw = Pot()
a = app([{"assignment": {"model": hw}, "actions": [AnalogAction(m, auto_calibrate = True)]}])
for v in (1000, 61000, 1600):
    clock.ms += 1000
    hw.value = v
    a.inputs[0].process()
equal(a.midi.take()[-1][2], 0)
""")
