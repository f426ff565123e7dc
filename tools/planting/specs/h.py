PG = """
from pyswitch.clients.local.actions.pager import PagerAction
from pyswitch.clients.local.actions.custom import CUSTOM_MESSAGE
"""
KM = """
from pyswitch.clients.kemper.actions.rig_select import *
from pyswitch.clients.kemper.actions.bank_select import *
from pyswitch.clients.kemper.actions.bank_up_down import *
from pyswitch.clients.kemper import *
"""
BUG("pager-other-page", "C25", [("clients/local/actions/pager.py", "        if not self.enabled:\n            return\n        \n        page_current", "        page_current")],
 "A pager on a page of another pager sharing a label, whose page is selected by a further switch while it is not visible", "Its page name is shown on the other page", PG + """
l = Label()
outer = PagerAction(pages = [{"id": 1, "text": "A"}, {"id": 2, "text": "B"}])
inner = PagerAction(pages = [{"id": 1, "text": "i1"}, {"id": 2, "text": "i2"}], id = 1, enable_callback = outer.enable_callback)
inner.label = l
other = CUSTOM_MESSAGE([1], text = "other", id = 2, enable_callback = outer.enable_callback, display = l)
sel = inner.proxy(page_id = 2, use_leds = False)
a = switches([outer], [inner, other], [sel])
a.update()
click(a, 0)
a.update()
click(a, 2)
a.update()
equal(l.text, "other")
""")
BUG("rig-off-held", "C19", [("clients/kemper/actions/rig_select.py", "        if self.__mapping.value != self.__current_value:\n            self.__current_value = self.__mapping.value\n", "        if self.__mapping.value != self.__current_value and self.__sent_rig_mapping == None:\n            self.__current_value = self.__mapping.value\n")],
 "The rig is changed by someone else while the switch is held", "The switch returns to an older rig later", KM + """
a = switches(RIG_SELECT(rig = 2, rig_off = "auto"))
rig_id(a, 3)
a.update()
press(a)
rig_id(a, 2)
rig_id(a, 1)
release(a)
equal(click(a)[0], ("CC", 52, 1))
""")
BUG("blink-own-bank", "C20", [("clients/kemper/actions/rig_select.py", "            if self.__last_blink_state != bs:\n                self", "            if self.__last_blink_state != bs and (self.__bank == None or self.__bank == curr_bank_of(self.__appl)):\n                self"),
  ("clients/kemper/actions/rig_select.py", "# Callback implementation for Rig Select", "def curr_bank_of(appl):\n    return appl.shared[\"preselectedBank\"] + 1\n\n\n# Callback implementation for Rig Select")],
 "Preselecting another bank than the one of a rig select switch", "This switch does not blink", KM + """
a = switches(BANK_SELECT(bank = 9, preselect = True), RIG_SELECT(rig = 2, bank = 4))
rig_id(a, 3)
click(a)
got = set()
for i in range(6):
    clock.ms += 450
    a.update()
    got.add(a.inputs[1].brightness)
equal(len(got), 2)
""")
BUG("morph-hidden-page", "C32", [("clients/kemper/actions/rig_select_and_morph_state.py", "self.__action_rig_select.callback.state and self.__action_rig_select.enabled", "self.__action_rig_select.callback.state")],
 "A rig select switch with morph state on a page which is not visible", "Its morph colour is shown on the other page", """
from pyswitch.clients.kemper.actions.rig_select_and_morph_state import *
from pyswitch.clients.local.actions.custom import CUSTOM_MESSAGE
from pyswitch.controller.callbacks import Callback
class En(Callback):
    on = True
    def enabled(self, a): return self.on
x, y = En(), En()
y.on = False
acts = RIG_SELECT_AND_MORPH_STATE(2, enable_callback = x) + [CUSTOM_MESSAGE([1], color = (8, 8, 8), enable_callback = y)]
a = switches(acts, leds = 3, protocol = Bidirectional(True))
a.update()
rig_id(a, 1)
a.update()
x.on, y.on = False, True
a.update()
equal([tuple(c) for c in a.inputs[0].colors], [(8, 8, 8)] * 3)
""")
BUG("converter-empty", "C31", [("controller/callbacks/parameter_display.py", "            if (conv != None):", "            if (conv):")],
 "A conversion returning an empty text", "The raw value is shown instead", """
from pyswitch.controller.callbacks.parameter_display import ParameterDisplayCallback
m = mapping("p")
l = Label()
c = ParameterDisplayCallback(m, lambda v: "" if v == 0 else "on")
m.value = 5
c.update_label(l)
equal(l.text, "on")
m.value = 0
c.update_label(l)
equal(l.text, "")
""")
BUG("fixed-black", "C32", [("clients/kemper/actions/morph.py", "    if cb.fix_color:", "    if cb.fix_color and any(cb.fix_color):")],
 "Black as fixed colour of a morph switch", "It shows the morph colour", """
from pyswitch.clients.kemper.actions.morph import *
a = switches(MORPH_BUTTON(color = (0, 0, 0)), protocol = Bidirectional(True))
a.update()
equal(tuple(a.inputs[0].color), (0, 0, 0))
""")
BUG("bank-blink-level", "C18", [("clients/kemper/actions/bank_up_down.py", "            self.__led_brightness_off = get_option(appl.config, \"ledBrightnessOff\", 0.02)", "            self.__led_brightness_off = get_option(appl.config, \"ledBrightnessOn\", 0.3)")],
 "A preselecting bank switch with full brightness", "It does not blink", KM + """
a = switches(BANK_UP(preselect = True, led_brightness = "on"))
rig_id(a, 3)
click(a)
got = set()
for i in range(6):
    clock.ms += 450
    a.update()
    got.add(a.inputs[0].brightness)
equal(len(got), 2)
""")
BUG("rig-name-again", "C20", [("clients/kemper/__init__.py", "        else:\n            self.__preselect_initialized = None\n", "        elif self.__show_name and not self.__mapping_name.value:\n            self.__preselect_initialized = None\n")],
 "The same bank is preselected again after a rig of it has been selected", "The rig label does not show it the second time", KM + """
a = switches(BANK_SELECT(bank = 9, preselect = True), RIG_SELECT(rig = 2))
l = Label()
c = KemperRigNameCallback(show_name = False, show_rig_id = True)
class L:
    def parameter_changed(self, m): c.update_label(l)
    request_terminated = parameter_changed
c.init(a, L())
rig_id(a, 3)
for i in range(2):
    click(a, 0)
    c.update()
    equal(l.text, "Bank 9")
    click(a, 1)
    rig_id(a, 41)
    c.update()
    equal(l.text, "9-2")
    rig_id(a, 3)
    c.update()
""")
BUG("preselect-owner", "C20", [("clients/kemper/actions/bank_select.py", "            self.__appl.shared[\"preselectCallback\"] = self\n", "            self.__appl.shared.setdefault(\"preselectCallback\", self)\n")],
 "Preselecting a bank by a bank select switch after bank up", "Both let it blink, which cancels out", KM + """
a = switches(BANK_UP(preselect = True), BANK_SELECT(bank = 9, preselect = True), RIG_SELECT(rig = 2))
rig_id(a, 3)
click(a, 0)
a.update()
click(a, 1)
got = set()
for i in range(6):
    clock.ms += 450
    a.update()
    got.add(a.inputs[2].brightness)
equal(len(got), 2)
""")
