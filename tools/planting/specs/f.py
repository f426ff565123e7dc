BUG("tuner-limit", "C26", [("ui/elements.py", "if value >= self.__calibration_low and value <= self.__calibration_high:", "if value >= self.__calibration_low and value < self.__calibration_high:")],
 "A deviance exactly at the upper calibration limit", "It is shown as out of tune, at the lower limit as in tune", """
from pyswitch.ui.elements import *
from pyswitch.ui.ui import DisplayBounds
a = app(protocol = Bidirectional(True))
n, d = mapping("n", response = CC(1, 0)), mapping("d", response = CC(2, 0))
t = TunerDisplay(mapping_note = n, mapping_deviance = d, bounds = DisplayBounds(0, 0, 100, 100), layout = {"font": "/f"}, calibration_low = 8000, calibration_high = 8400)
class U:
    splash = Group()
    font_loader = type("F", (), {"get": lambda self, p: p})()
t.init(U(), a)
got = []
for v in (7999, 8000, 8400, 8401):
    d.value = v
    t.parameter_changed(d)
    got.append(t.deviance.in_tune)
equal(got, [False, True, True, False])
""")
BUG("encoder-accept-zero", "C14", [("controller/actions/EncoderAction.py", "        if self._last_value == -1:\n            return\n", "        if self._last_value == -1 or (self._last_value == 0 and self.__min_value == 0 and self._get_value() == 1):\n            return\n")],
 "Turning an encoder down from 1 to 0", "The value 0 is not sent", """
from pyswitch.controller.actions.EncoderAction import EncoderAction
m = mapping("e", set = CC(7, 0), response = CC(7, 0))
e = Encoder()
a = app([{"assignment": {"model": e}, "actions": [EncoderAction(mapping = m)]}], protocol = Bidirectional(True))
m.value = 2
a.inputs[0].process()
e.position = -1; a.inputs[0].process()
e.position = -2; a.inputs[0].process()
equal(a.midi.take(), [("CC", 7, 1), ("CC", 7, 0)])
""")
BUG("wrap-after-show", "C28", [("ui/elements.py", "        if self.__label:\n            self.__label.text = self.__wrap_text(text_str)\n", "        if self.__label:\n            self.__label.text = self.__wrap_text(text_str) if text_str != self.override_text or len(text_str) > 24 else text_str\n")],
 "A preview text on a label with wrapping", "Preview texts are not wrapped", """
import pyswitch.ui.elements as E
from pyswitch.ui.ui import DisplayBounds
E.wrap_text_to_pixels = lambda t, w, f: t.split(" ")
l = E.DisplayLabel(layout = {"font": "/f", "maxTextWidth": 40}, bounds = DisplayBounds(0, 0, 100, 40))
class U:
    splash = Group()
    font_loader = type("F", (), {"get": lambda self, p: p})()
l.init(U(), app())
l.override_text = "Vol 1"
l.update_label()
equal(U.splash.content[0].content[0].text, "Vol\\n1")
""")
BUG("lowmem-override", "C28", [("ui/elements.py", "        if self.__layout.text == text_str:\n            return\n", "        if self.__layout.text == text_str and not self.override_text:\n            return\n        if self.override_text and text_str != self.override_text and self.callback:\n            return\n")],
 "An action sets the text of a label with a callback while a preview is shown", "The label keeps the preview", """
import pyswitch.ui.elements as E
class CB:
    def update_label(self, l): l.text = "cb"
l = E.DisplayLabel(layout = {"font": "/f"}, callback = CB())
l.override_text = "o"
l.update_label()
l.text = "new"
equal(l.text, "new")
""")
