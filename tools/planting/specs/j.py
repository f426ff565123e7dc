EN = """
from pyswitch.controller.callbacks import Callback
class En(Callback):
    on = True
    def enabled(self, a): return self.on
def press(a): hw(a).pushed = True; a.inputs[0].process()
def release(a): hw(a).pushed = False; a.inputs[0].process()
H = Switch()
def hw(a): return H
def start(act): return app([{"assignment": {"model": H, "pixels": [0]}, "actions": [act]}], protocol = Bidirectional(False))
"""
BUG("updown-lost-release", "C17", [("clients/kemper/actions/rig_up_down.py", "        self.__sent_rig_mapping = MAPPING_RIG_SELECT(next_rig)\n", "        if self.__sent_rig_mapping:\n            return\n        self.__sent_rig_mapping = MAPPING_RIG_SELECT(next_rig)\n")],
 "The page is changed while a rig up/down switch is held, so it never sees the release", "The next press does nothing", EN + """
from pyswitch.clients.kemper.actions.rig_up_down import RIG_UP
e = En()
a = start(RIG_UP(enable_callback = e))
rig_id(a, 10)
a.midi.take()
press(a)
equal(a.midi.take(), [("CC", 51, 1)])
e.on = False
release(a)
e.on = True
rig_id(a, 11)
a.midi.take()
press(a)
equal(a.midi.take()[-1:], [("CC", 52, 1)])
""")
BUG("bank-select-lost-release", "C20", [("clients/kemper/actions/bank_select.py", "            self.__sent_rig_mapping = MAPPING_RIG_SELECT(curr_rig)\n", "            if not self.__sent_rig_mapping:\n                self.__sent_rig_mapping = MAPPING_RIG_SELECT(curr_rig)\n")],
 "The page is changed while a bank select switch is held, then it is pressed again with another rig", "The rig of the first press is selected", EN + """
from pyswitch.clients.kemper.actions.bank_select import BANK_SELECT
e = En()
a = start(BANK_SELECT(bank = 5, enable_callback = e))
rig_id(a, 10)
a.midi.take()
press(a)
equal(a.midi.take(), [("CC", 47, 4), ("CC", 50, 1)])
e.on = False
release(a)
e.on = True
rig_id(a, 13)
a.midi.take()
press(a)
equal(a.midi.take(), [("CC", 47, 4), ("CC", 53, 1)])
""")
BUG("morph-ignored-later", "C32", [("clients/kemper/actions/morph.py", "        if self.__set_internal_state and value != None and value != self.__last_value:\n            self.__last_value = value\n", "        if self.__set_internal_state and value != None and value != self.__last_value:\n            if not self.ignore_next_value:\n                self.__last_value = value\n")],
 "A page change after choosing a rig with an initial morph value", "The first value reported after the rig change is taken as morph state later", """
from pyswitch.clients.kemper.actions.rig_select_and_morph_state import RIG_SELECT_AND_MORPH_STATE
a = app([{"assignment": {"model": Switch(), "pixels": [0, 1, 2]}, "actions": RIG_SELECT_AND_MORPH_STATE(3, color = (1, 1, 1))}], protocol = Bidirectional(False))
a.update()
rig_id(a, 0)
a.update()
rig_id(a, 2)
a.update()
a.client.receive(nrpn(0, 0x0b, 9000))
a.update()
equal(tuple(a.inputs[0].colors[2]), (255, 0, 0))
a.reset_actions()
a.update()
a.client.receive(nrpn(0, 0x0b, 9000))
a.update()
equal(tuple(a.inputs[0].colors[2]), (255, 0, 0))
""")
