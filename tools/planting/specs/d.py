exec(open(os.path.dirname(spec) + "/c.py").read().split("BUG(")[0])
BUG("rig-off-after-preselect", "C19", [("clients/kemper/actions/rig_select.py", "        elif self.__rig != None:\n            self.__sent_rig_mapping = MAPPING_RIG_SELECT(self.__rig - 1)\n", "        elif self.__rig != None and (not state or not self.__rig_off_auto or not \"preselectedBank\" in self.__appl.shared):\n            self.__sent_rig_mapping = MAPPING_RIG_SELECT(self.__rig - 1)\n        elif self.__rig_off != None:\n            self.__sent_rig_mapping = MAPPING_RIG_SELECT(self.__rig_off - 1)\n")],
 "A preselected bank while the rig of the switch is selected, with automatic off rig", "The off rig is selected in the preselected bank", """
from pyswitch.clients.kemper.actions.rig_select import RIG_SELECT
from pyswitch.clients.kemper.actions.bank_up_down import BANK_UP
a = switches(RIG_SELECT(rig = 1, rig_off = "auto"), BANK_UP(preselect = True))
rig_id(a, 13); rig_id(a, 10)
equal(press(a, 1), [("CC", 47, 3)])
equal(press(a, 0), [("CC", 50, 1)])
""")
BUG("effect-text-type", "C21", [("controller/callbacks/effect_enable.py", "        if self.__current_kpp_type == self.mapping_fxtype.value:\n", "        if self.__current_kpp_type and self.get_effect_category(self.__current_kpp_type) == self.__effect_category:\n")],
 "Extended type names: another type of the same family is loaded into the slot", "The old name stays on the display", """
from pyswitch.clients.kemper.actions.effect_state_extended_names import EFFECT_STATE_EXT
l = Label()
a = switches(EFFECT_STATE_EXT(slot_id = 0, display = l))
a.update()
a.client.receive(nrpn(0x32, 0, 1)); t1 = l.text
a.update()
a.client.receive(nrpn(0x32, 0, 2)); t2 = l.text
equal(t1 != t2, True, t1)
""")
BUG("boost-fixed", "C23", [("clients/kemper/actions/rig_volume_boost.py", "            value_disable = NRPN_VALUE(0.5) if not remember_off_value else \"auto\",", "            value_disable = NRPN_VALUE(0.5) if not remember_off_value or mode == PushButtonAction.MOMENTARY else \"auto\",")],
 "Rig volume boost in momentary mode", "0 dB instead of the former volume is restored", """
from pyswitch.clients.kemper.actions.rig_volume_boost import RIG_VOLUME_BOOST
from pyswitch.controller.actions import PushButtonAction
a = switches(RIG_VOLUME_BOOST(0.75, mode = PushButtonAction.MOMENTARY))
a.update()
a.client.receive(nrpn(4, 1, 5000))
press(a)
v = [m[2][6:] for m in release(a) if len(m[2]) > 6]
equal(v, [[5000 >> 7, 5000 & 127]])
""")
BUG("rig-wrap-bank", "C17", [("clients/kemper/actions/rig_up_down.py", "        if next_bank != curr_bank:\n", "        if next_bank != curr_bank and (next_bank > 0 or not self.__direction_up):\n")],
 "The last of all rigs is selected", "The bank message is missing when wrapping around, or sent without need", """
from pyswitch.clients.kemper.actions.rig_up_down import RIG_UP, RIG_DOWN
a = switches(RIG_UP(keep_bank = False), RIG_DOWN(keep_bank = False))
a.update()
rig_id(a, 623)
equal(press(a), [("CC", 54, 1)]); release(a)
rig_id(a, 0)
equal(press(a), [("CC", 51, 1)]); release(a)
rig_id(a, 624)
equal(press(a), [("CC", 47, 0), ("CC", 50, 1)]); release(a)
rig_id(a, 0)
equal(press(a, 1), [("CC", 47, 124), ("CC", 54, 1)])
""")
BUG("rotate-colors", "C24", [("clients/local/actions/rotate.py", "        if self.__display_colors and self.__display_colors_pos >= len(self.__display_colors):\n", "        if self.__display_colors and self.__display_colors_pos >= len(self.__led_colors or self.__display_colors):\n")],
 "More display colours than LED colours", "The last display colours are never shown", """
from pyswitch.clients.local.actions.rotate import ROTATING_MESSAGES
l = Label()
a = switches(ROTATING_MESSAGES(messages = [[1]], led_colors = [(1, 1, 1), (2, 2, 2)], display_colors = [(1, 0, 0), (2, 0, 0), (3, 0, 0)], display = l))
got = []
for i in range(4):
    click(a)
    got.append(l.back_color[0])
equal(got, [2, 3, 1, 2])
""")
BUG("pager-skip", "C25", [("clients/local/actions/pager.py", "            while self.current_page_index >= len(self.pages):\n                self.current_page_index = 0\n", "            while self.current_page_index >= len(self.pages):\n                self.current_page_index -= max(2, len(self.pages) - 1)\n")],
 "Rotating pages by more than one round with three or more pages", "After the first round, the first page is left out", """
from pyswitch.clients.local.actions.pager import PagerAction
p = PagerAction([{"id": 1}, {"id": 2}, {"id": 3}])
a = switches(p)
got = []
for i in range(6):
    click(a)
    got.append(p.current_page_id)
equal(got, [2, 3, 1, 2, 3, 1])
""")
BUG("bank-max-ignored", "C18", [("clients/kemper/actions/bank_up_down.py", "        while (value >= _num_banks):\n            value -= _num_banks\n", "        while (value >= _num_banks):\n            value -= _num_banks if bank < _num_banks else NUM_BANKS\n")],
 "Bank up with limited number of banks while a higher bank is current", "A negative or wrong bank is preselected", """
from pyswitch.clients.kemper.actions.bank_up_down import BANK_UP
a = switches(BANK_UP(preselect = True, max_bank = 7))
a.update()
rig_id(a, 50)
equal(press(a), [("CC", 47, 4)])
""")
BUG("pc-channel", "C02", [("controller/client.py", "            if not isinstance(response, ProgramChange):\n                return None\n            \n            return midi_message.patch\n", "            if not isinstance(response, ProgramChange):\n                return None\n            \n            return midi_message.patch or self.value\n")],
 "Program number 0 received after another one", "The program number 0 is not taken", """
a = app()
m = mapping("p", response = PC(0))
l = Listener()
a.client.register(m, l)
for v in (5, 0):
    a.client.receive(PC(v))
equal(l.log, [5, 0])
""")
BUG("string-first", "C02", [("controller/client.py", "for c in list(midi_message.data[6:-1]))", "for c in list(midi_message.data[6:-1]) if c < 0x7f)")],
 "A text containing character 127", "Characters are lost", """
from pyswitch.controller.client import ClientParameterMapping
a = app()
m = mapping("p", request = SX(K, [0, 0, 0x43, 0, 0, 1]), response = SX(K, [0, 0, 3, 0, 0, 1]), type = ClientParameterMapping.PARAMETER_TYPE_STRING)
a.client.request(m, Listener())
a.client.receive(SX(K, [0, 0, 3, 0, 0, 1, 65, 127, 66, 0]))
equal(m.value, "A" + chr(127) + "B")
""")
BUG("loss-feedback", "C06", [("controller/client.py", "            req.mapping.value = value\n            req.notify_listeners()\n", "            req.mapping.value = value\n            if len(req.listeners) > 1 and not value:\n                req.notify_terminated()\n            else:\n                req.notify_listeners()\n")],
 "A bidirectional parameter with several listeners set to 0", "The listeners are told that the request was terminated instead of the new value", """
from pyswitch.clients.kemper import KemperBidirectionalProtocol, KemperMappings
a = app(protocol = KemperBidirectionalProtocol(30))
m = KemperMappings.EFFECT_STATE(0)
l, k = Listener(), Listener()
a.client.register(m, l); a.client.register(m, k)
a.client.set(m, 1); a.client.set(m, 0)
equal((l.log, k.log), ([1, 0], [1, 0]))
""")
BUG("analog-window", "C13", [("controller/actions/AnalogAction.py", "                    if value > self.__cal_max:\n                        self.__cal_max = value\n                        self.__cal_factor", "                    if value > self.__cal_max and (value - self.__cal_max > 64 or self.__last_value < 127 or self.__transfer_function):\n                        self.__cal_max = value\n                        self.__cal_factor")],
 "Auto calibration: the maximum is extended by a small amount while the pedal is at the end", "The largest position seen does not extend the range", """
from pyswitch.controller.actions.AnalogAction import AnalogAction
p = Pot()
x = AnalogAction(mapping("v", set = SX(K, [0, 0, 1, 0, 4, 1])), auto_calibrate = True, num_steps = 65536)
a = app([{"assignment": {"model": p}, "actions": [x]}])
got = []
for v in (0, 30000, 30060, 30000):
    clock.ms += 100
    p.value = v
    a.inputs[0].process()
    got = a.midi.take()
equal([m[2][6] * 128 + m[2][7] for m in got], [16351])
""")
BUG("hold-reset", "C09", [("controller/inputs.py", "                        if self.__hold_was_active:\n                            self.__hold_active = False\n                            self.__hold_was_active = False\n                            return\n\n", "                        if self.__hold_was_active and self.__period_hold.passed < self.__period_hold.interval:\n                            return\n\n")],
 "Hold repeat: released exactly when the interval has just passed", "The normal actions run in addition", """
class Act:
    enabled = True
    def __init__(self, n): self.n = n
    def init(self, appl, switch): pass
    def update_displays(self): pass
    def push(self): log.append(self.n + "+")
    def release(self): log.append(self.n + "-")
log = []
h = Switch()
a = app([{"assignment": {"model": h}, "actions": [Act("a")], "actionsHold": [Act("h")], "holdRepeat": True}])
h.pushed = True; a.inputs[0].process()
clock.ms += 601; a.inputs[0].process()
clock.ms += 600
h.pushed = False; a.inputs[0].process()
equal(log, ["h+", "h-"])
""")
