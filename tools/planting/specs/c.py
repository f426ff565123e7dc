PB = """
from pyswitch.controller.actions import PushButtonAction
log = []
class Cb:
    def init(self, appl, listener = None): pass
    def update_displays(self): pass
    def update(self): pass
    def reset(self): pass
    def state_changed_by_user(self): log.append(self.action.state)
def A(mode):
    return PushButtonAction({"mode": mode, "holdTimeMillis": 600, "callback": Cb()})
"""
BUG("hold-momentary-off", "C10", [("controller/actions/__init__.py", "            if self.__period.exceeded:\n                # Momentary if the period exceeded\n                self.state = not self.state\n", "            if self.__period.exceeded:\n                # Momentary if the period exceeded\n                self.state = False\n")],
 "Hold momentary mode: held long when switching off", "A long press starting in on state does not return to on", PB + """
a = switches(A(PushButtonAction.HOLD_MOMENTARY))
click(a)
press(a); clock.ms += 700; release(a)
equal(log, [True, False, True])
""")
BUG("one-shot-feedback", "C10", [("controller/actions/__init__.py", "            self.__state = False    # Triggers that set() is called by the state property in the next line\n", "")],
 "One shot mode: pressed with the state reported as on by the device before", "The functionality is not triggered", PB + """
x = A(PushButtonAction.ONE_SHOT)
a = switches(x)
click(a); x.feedback_state(True); click(a)
equal(log, [True, True])
""")
BUG("analog-tail", "C13", [("controller/actions/AnalogAction.py", "                if self.__cal_max == self.__cal_min or (self.__cal_max - self.__cal_min) < self.__cal_min_window:\n                    return\n", "                if self.__cal_max == self.__cal_min or (self.__cal_max - self.__cal_min) < self.__cal_min_window or value == self.__cal_max and self.__last_value == -1:\n                    return\n")],
 "Auto calibration: the minimum window is reached exactly with a new maximum", "The maximum is not sent", """
from pyswitch.controller.actions.AnalogAction import AnalogAction
p = Pot()
x = AnalogAction(mapping("v", set = CC(7, 0)), auto_calibrate = True)
a = app([{"assignment": {"model": p}, "actions": [x]}])
for v in (2000, 40000):
    clock.ms += 100
    p.value = v
    a.inputs[0].process()
equal(a.midi.take(), [("CC", 7, 127)])
""")
BUG("rig-wrap-bank", "C17", [("clients/kemper/actions/rig_up_down.py", "        if next_bank != curr_bank:\n", "        if abs(next_bank - curr_bank) == 1:\n")],
 "The last or the first of all rigs is selected", "The bank message is missing when wrapping around", """
from pyswitch.clients.kemper.actions.rig_up_down import RIG_UP, RIG_DOWN
a = switches(RIG_UP(), RIG_DOWN())
rig_id(a, 624)
equal(press(a)[0][:2], ("CC", 47)); release(a)
rig_id(a, 0)
equal(press(a, 1)[0], ("CC", 47, 124))
""")
BUG("rig-down-keep", "C17", [("clients/kemper/actions/rig_up_down.py", "                if curr_rig > 0:\n                    return curr_rig_id - 1", "                if curr_rig_id % NUM_BANKS > 0:\n                    return curr_rig_id - 1")],
 "Rig down with keep bank on the first rig of a bank other than each 25th", "The bank is left", """
from pyswitch.clients.kemper.actions.rig_up_down import RIG_DOWN
a = switches(RIG_DOWN(keep_bank = True))
rig_id(a, 35)
equal(press(a), [])
""")
BUG("bank-wrap-low", "C18", [("clients/kemper/actions/bank_up_down.py", "        while (value < 0):\n            value += _num_banks\n", "        if value < 0:\n            value = NUM_BANKS - 1\n")],
 "Bank down with preselection and limited number of banks in the first bank", "A bank beyond the configured number is preselected or a wrong one", """
from pyswitch.clients.kemper.actions.bank_up_down import BANK_DOWN
a = switches(BANK_DOWN(preselect = True, max_bank = 7))
rig_id(a, 2)
equal(press(a), [("CC", 47, 6)])
""")
BUG("bank-blink-other", "C18", [("clients/kemper/actions/bank_up_down.py", """self.__appl.shared["preselectCallback"] == self: 
            self.action.switch_brightness""", """self.__appl.shared["preselectBlinkState"] is not None: 
            self.action.switch_brightness""")],
 "Two bank switches with preselection, one of them pressed, display update of the other one", "The other switch blinks, too", """
from pyswitch.clients.kemper.actions.bank_up_down import BANK_UP, BANK_DOWN
a = switches(BANK_UP(preselect = True), BANK_DOWN(preselect = True))
a.update()
rig_id(a, 2)
b = a.inputs[1].brightness
click(a, 0)
for i in range(2):
    clock.ms += 401
    a.update()
    a.inputs[1].actions[0].update_displays()
    equal(a.inputs[1].brightness, b, i)
""")
BUG("auto-exclude-state", "C19", [("clients/kemper/actions/rig_select.py", "remember_rig = (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and", "remember_rig = (not self.__auto_exclude_rigs or curr_rig not in self.__auto_exclude_rigs) and")],
 "Automatic off rig with excluded rigs", "The wrong rigs are excluded", """
from pyswitch.clients.kemper.actions.rig_select import RIG_SELECT
a = switches(RIG_SELECT(rig = 1, rig_off = "auto", auto_exclude_rigs = (3,)))
for r in (3, 2, 0):
    rig_id(a, r)
equal(press(a), [("CC", 53, 1)])
""")
BUG("rig-off-after-preselect", "C19", [("clients/kemper/actions/rig_select.py", "        if state and self.__rig_off != None and not \"preselectedBank\" in self.__appl.shared:           \n", "        if state and self.__rig_off != None:           \n")],
 "A preselected bank while the rig of the switch is selected, with off rig", "The off rig is selected in the preselected bank", """
from pyswitch.clients.kemper.actions.rig_select import RIG_SELECT
from pyswitch.clients.kemper.actions.bank_up_down import BANK_UP
a = switches(RIG_SELECT(rig = 1, rig_off = 4), BANK_UP(preselect = True))
rig_id(a, 10)
equal(press(a, 1), [("CC", 47, 3)])
equal(press(a, 0), [("CC", 50, 1)])
""")
BUG("preselect-stays", "C20", [("clients/kemper/actions/bank_select.py", "        if self.__preselect and ( \"preselectedBank\" in self.__appl.shared or curr_bank != self.__bank - 1 ):", "        if self.__preselect and curr_bank != self.__bank - 1:")],
 "Preselecting another bank, then the bank of the current rig again", "The first preselection stays", """
from pyswitch.clients.kemper.actions.bank_select import BANK_SELECT
a = switches(BANK_SELECT(bank = 2, preselect = True), BANK_SELECT(bank = 3, preselect = True))
rig_id(a, 5)
click(a, 1); click(a, 0)
equal(a.shared.get("preselectedBank"), 1)
""")
BUG("effect-text-type", "C21", [("controller/callbacks/effect_enable.py", "        if self.__current_kpp_type == self.mapping_fxtype.value:\n", "        if self.__current_kpp_type and self.get_effect_category(self.__current_kpp_type) == self.__effect_category:\n")],
 "Extended type names: another type of the same family is loaded into the slot", "The old name stays on the display", """
from pyswitch.clients.kemper.actions.effect_state_extended_names import EFFECT_STATE_EXT
l = Label()
a = switches(EFFECT_STATE_EXT(slot_id = 0, display = l))
a.update()
a.client.receive(nrpn(0x32, 0, 1)); t1 = l.text
a.update()
a.client.receive(nrpn(0x32, 0, 2)); t2 = l.text
equal(t1 != t2, True, t1)
""")
BUG("delay-gap", "C21", [("clients/kemper/actions/effect_state.py", "        elif 145 <= kpp_effect_type <= 166:\n", "        elif 145 <= kpp_effect_type <= 152 or 161 <= kpp_effect_type < 166:\n")],
 "The type 166 (quad harmonic delay) in a slot", "It is shown as empty and off", """
from pyswitch.clients.kemper.actions.effect_state import EFFECT_STATE
l = Label()
a = switches(EFFECT_STATE(slot_id = 0, display = l))
a.update()
a.client.receive(nrpn(0x32, 0, 166))
equal(l.text, "Delay")
""")
BUG("restore-zero", "C22", [("controller/callbacks/__init__.py", "        if state == True or not self.__update_value_disabled or value == None:\n", "        if state == True or not self.__update_value_disabled or not value:\n")],
 "An off value to be restored which is 0, after another one", "The value restored is not the last one seen", """
from pyswitch.clients.local.actions.binary_switch import BINARY_SWITCH
m = mapping("v", set = CC(7, 0), response = CC(7, 0), request = CC(8, 0))
from pyswitch.controller.actions import PushButtonAction
a = switches(BINARY_SWITCH(m, mode = PushButtonAction.LATCH, value_on = 100, value_off = "auto"))
a.update()
for v in (50, 0):
    a.client.receive(CC(7, v)); a.update()
press(a); release(a)
equal(("CC", 7, 0) in press(a), True)
""")
BUG("boost-fixed", "C23", [("clients/kemper/actions/rig_volume_boost.py", "            value_disable = NRPN_VALUE(0.5) if not remember_off_value else \"auto\",", "            value_disable = NRPN_VALUE(0.5) if not remember_off_value or mode == PushButtonAction.MOMENTARY else \"auto\",")],
 "Rig volume boost in momentary mode", "0 dB instead of the former volume is restored", """
from pyswitch.clients.kemper.actions.rig_volume_boost import RIG_VOLUME_BOOST
from pyswitch.controller.actions import PushButtonAction
a = switches(RIG_VOLUME_BOOST(0.75, mode = PushButtonAction.MOMENTARY))
a.update()
a.client.receive(nrpn(4, 1, 5000))
press(a)
v = [m[2][6:] for m in release(a) if len(m[2]) > 6]
equal(v, [[5000 >> 7, 5000 & 127]])
""")
BUG("looper-stop-mode", "C23", [("clients/kemper/actions/looper.py", "            mapping = MAPPING_LOOPER_ERASE(),\n            text = text,\n            color = color,\n        ),\n        \"mode\": PushButtonAction.MOMENTARY,", "            mapping = MAPPING_LOOPER_ERASE(),\n            text = text,\n            color = color,\n        ),\n        \"mode\": PushButtonAction.ONE_SHOT,")],
 "Releasing the looper erase switch", "The release message is not sent", """
from pyswitch.clients.kemper.actions.looper import LOOPER_ERASE
a = switches(LOOPER_ERASE())
equal(len(click(a)), 2)
""")
BUG("rotate-colors", "C24", [("clients/local/actions/rotate.py", "        if self.__display_colors and self.__display_colors_pos >= len(self.__display_colors):\n", "        if self.__display_colors and self.__display_colors_pos >= len(self.__led_colors):\n")],
 "More display colours than LED colours", "The last display colours are never shown", """
from pyswitch.clients.local.actions.rotate import ROTATE_MESSAGES
l = Label()
a = switches(ROTATE_MESSAGES(messages = [[1]], led_colors = [(1, 1, 1), (2, 2, 2)], display_colors = [(1, 0, 0), (2, 0, 0), (3, 0, 0)], display = l))
got = []
for i in range(4):
    click(a)
    got.append(l.back_color[0])
equal(got, [2, 3, 1, 2])
""")
BUG("proxy-no-reset", "C25", [("clients/local/actions/pager_direct.py", "        self.__pager.appl.reset_actions()\n", "        if self.__pager.current_page_index > 0:\n            self.__pager.appl.reset_actions()\n")],
 "The first page selected by a page select switch", "The actions of the page are not shown again", """
from pyswitch.clients.local.actions.pager import PagerAction
from pyswitch.clients.local.actions.binary_switch import BINARY_SWITCH
m = mapping("v", set = CC(7, 0), response = CC(7, 0), request = CC(8, 0))
n = mapping("w", set = CC(9, 0), response = CC(9, 0), request = CC(10, 0))
p = PagerAction([{"id": 1}, {"id": 2}], select_page = 2)
a = switches(p, p.proxy(1), [BINARY_SWITCH(m, id = 1, enable_callback = p.enable_callback, color = (90, 0, 0)), BINARY_SWITCH(n, id = 2, enable_callback = p.enable_callback, color = (0, 90, 0))])
a.update()
got = []
for i in (0, 1, 0, 1):
    click(a, i)
    a.update()
    got.append(a.inputs[2].color)
equal(got, [(0, 90, 0), (90, 0, 0)] * 2)
""")
