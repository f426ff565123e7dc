From b4d1aae521ebfaeae60e72b8fd3b8b08619f0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 01/30] fix: ignore truncated numeric SysEx responses instead
 of decoding address bytes as value

---
 content/lib/pyswitch/controller/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 7db96cc..281da2e 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -95,6 +95,10 @@ class ClientParameterMapping:
                 # Take as string
                 return ''.join(chr(int(c)) for c in list(midi_message.data[6:-1]))
             else:
+                # Ignore truncated messages which do not contain a value
+                if len(midi_message.data) < 8:
+                    return None
+                
                 # Decode 14-bit value to int
                 return midi_message.data[-2] * 128 + midi_message.data[-1]
 
-- 
2.43.0


From 037275cc025f6e1abae3d628a14ba3100206a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 02/30] fix: notify all listeners of a dependent parameter, not
 only the first one

---
 content/lib/pyswitch/controller/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 281da2e..c8e0d3b 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -241,17 +241,22 @@ class Client: #(ClientRequestListener):
 
     # Listener for dependency mappings
     class _DependencyListener:
-        def __init__(self, client, orig_mapping, listener = None):
+        def __init__(self, client, orig_mapping):
             self.__client = client
             self.__orig_mapping = orig_mapping
             self.__last_value = None
-            self.__listener = listener
+            self.__listeners = []
+
+        def add_listener(self, listener):
+            if not listener in self.__listeners:
+                self.__listeners.append(listener)
 
         def parameter_changed(self, mapping):
             if mapping.value != self.__last_value:
                 self.__last_value = mapping.value
 
-                self.__client._register_mapping(self.__orig_mapping, self.__listener, True)           
+                for listener in self.__listeners:
+                    self.__client._register_mapping(self.__orig_mapping, listener, True)           
         
         def request_terminated(self, mapping):
             pass
@@ -321,7 +326,9 @@ class Client: #(ClientRequestListener):
         
         if mapping.depends:
             if not mapping in self.__dependencies:
-                self.__dependencies[mapping] = self._DependencyListener(self, mapping, listener)
+                self.__dependencies[mapping] = self._DependencyListener(self, mapping)
+
+            self.__dependencies[mapping].add_listener(listener)
 
             # Register the dependency rather than the mapping itself
             self._register_mapping(mapping.depends, self.__dependencies[mapping], True)
-- 
2.43.0


From decc98b8a5cfad767b3eb0df7a4035766c7f91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 03/30] fix: deliver messages of a MIDI source routed
 externally and to the application to both targets

---
 content/lib/pyswitch/controller/midi.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/midi.py b/content/lib/pyswitch/controller/midi.py
index 9a36f32..5115478 100755
--- a/content/lib/pyswitch/controller/midi.py
+++ b/content/lib/pyswitch/controller/midi.py
@@ -61,6 +61,11 @@ class MidiController:
         self.__routings_to_appl = [x for x in routings if x.target == MidiRouting.APPLICATION]
         self.__routings_external = [x for x in routings if x.source != MidiRouting.APPLICATION and x.target != MidiRouting.APPLICATION]
 
+        # Messages read by the external routings which are waiting for being passed to the application, too
+        self.__appl_sources = [x.source for x in self.__routings_to_appl]
+        self.__external_sources = [x.source for x in self.__routings_external]
+        self.__appl_messages = []
+
     def send(self, midi_message):
         # Send to all routings which have APPLICATION as source
         for r in self.__routings_from_appl:    
@@ -68,10 +73,18 @@ class MidiController:
 
     def receive(self):
         # Process routings without APPLICATION involved 
-        self.__process_external_routings()
+        if not self.__appl_messages:
+            self.__process_external_routings()
+
+        # Messages of sources which are routed externally as well as to APPLICATION
+        if self.__appl_messages:
+            return self.__appl_messages.pop(0)
 
         # Process routings targeting APPLICATION
         for r in self.__routings_to_appl:
+            if r.source in self.__external_sources:
+                continue
+
             msg = r.source.receive()
 
             if msg:
@@ -92,8 +105,13 @@ class MidiController:
             if r.source in sources:
                 continue
 
+            msg = r.source.receive()
+
             sources.append(r.source)
-            results.append(r.source.receive())
+            results.append(msg)
+
+            if msg and r.source in self.__appl_sources:
+                self.__appl_messages.append(msg)
             
         # Distribute messages
         for r in routings:
-- 
2.43.0


From 53fe8c3d3b354a40eb71199974f32fda95ae7eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 04/30] fix: do not carry a pending hold over from an ended
 press to the next one

---
 content/lib/pyswitch/controller/inputs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 60ae017..3e41507 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -106,6 +106,10 @@ class SwitchController:
                 else:
                     release()
 
+                # The press is over in any case: Never let it trigger hold actions on the next one
+                self.__hold_active = False
+                self.__hold_was_active = False
+
             return
         else:
             if self.__hold_active and self.__check_hold():
-- 
2.43.0


From 8ee23e23aa70f64b172ddfb00e134de614bc236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 05/30] fix: do not lose encoder steps at position -1

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f80231b..e62a544 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -47,7 +47,7 @@ class EncoderAction(Updateable):
         self.__max_value = max_value
         self.__step_width = step_width
 
-        self.__last_pos = -1
+        self.__last_pos = None
         self._last_value = -1
         self.__convert_value = convert_value
 
@@ -114,7 +114,7 @@ class EncoderAction(Updateable):
         position = int(position * self.__step_width)
 
         # Initialize
-        if self.__last_pos == -1:
+        if self.__last_pos == None:
             self.__last_pos = position
 
         # Reset preview if the reset mapping had a value change
-- 
2.43.0


From 913efcec5b3ac4b85c7d47625319726d1887589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:50 +0000
Subject: [PATCH 06/30] fix: set the encoder value if the client changed the
 parameter since the last turn

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index e62a544..ab63582 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -150,8 +150,8 @@ class EncoderAction(Updateable):
         if v > self.__max_value:
             v = self.__max_value
 
-        # If changed, set or preview the value
-        if self._last_value != v:
+        # If changed, set or preview the value (the parameter might have been changed by the client since the last turn)
+        if self._last_value != v or (not self.__preselect and self._get_value() != v):
             self._last_value = v
             
             if not self.__preselect:
-- 
2.43.0


From 89b367f3d23c0bc4d3fb00cd9106473b20b20a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 07/30] fix: do not apply encoder movements which happened
 while the action was disabled

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++++
 content/lib/pyswitch/controller/inputs.py                | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index ab63582..45a7b2f 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -108,6 +108,10 @@ class EncoderAction(Updateable):
     def _set_value(self, value):
         self._mapping.value = value
 
+    # Called instead of process() while the action is disabled: The movement must not be applied when enabled again
+    def skip(self, position):
+        self.__last_pos = int(position * self.__step_width)
+
     # Process the current encoder position
     def process(self, position):
         # Scale by step width
diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 3e41507..79f1abc 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -284,6 +284,8 @@ class ContinuousController:
 
         for action in self.actions:
             if not action.enabled:
+                if hasattr(action, "skip"):
+                    action.skip(value)
                 continue
 
             action.process(value)
-- 
2.43.0


From c6d737b9f4d99e649c04aa8312580aa2dba26e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 08/30] fix: start preselecting with an encoder from the
 current parameter value

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index 45a7b2f..69516ae 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -136,6 +136,9 @@ class EncoderAction(Updateable):
         # No value yet
         if self._get_value() == None:
             self._set_value(0)
+        elif self.__preselect and not self.__preselect_active:
+            # A new preselection starts from the current value
+            self._last_value = self._get_value()
             
         # Get the delta value
         add_value = position - self.__last_pos
-- 
2.43.0


From fc196ee9ff4c50e3e812393141dfa5b4b1896326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 09/30] fix: do not crash on auto calibrating pedals without
 minimum window

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index eba6f24..fe3e78e 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -95,7 +95,7 @@ class AnalogAction(Updateable):
                         self.__cal_factor = 65536 / (self.__cal_max - self.__cal_min)
 
                 # If the calibration window is too small, we dont send anything
-                if (self.__cal_max - self.__cal_min) < self.__cal_min_window:
+                if self.__cal_max == self.__cal_min or (self.__cal_max - self.__cal_min) < self.__cal_min_window:
                     return
                 
                 # Scale the input value up
-- 
2.43.0


From d95bc8fd299e0f7dd10edf5d067859c7d5675bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:01 +0000
Subject: [PATCH 10/30] fix: support dim_factor "on" for bank up and down

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 3f89a38..d890e40 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -121,7 +121,7 @@ class KemperBankChangeCallback(Callback):
 
         if self.__dim_factor_p == "off":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOff", 0.2)
-        elif self.__display_mode == "on":
+        elif self.__dim_factor_p == "on":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOn", 1)
         else:
             self.__dim_factor = self.__dim_factor_p
-- 
2.43.0


From dde363e63d39929117b7b369b895c0301f654a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:19 +0000
Subject: [PATCH 11/30] fix: always remember the current rig and bank with
 rig_off and bank_off "auto"

---
 content/lib/pyswitch/clients/kemper/actions/rig_select.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 47c9984..0fac6ad 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -236,10 +236,11 @@ class _KemperRigSelectCallback(Callback):
             self.__current_value = self.__mapping.value
 
             # Auto rig off: If we are not on the "on" rig, set the current rig as "off" rig
-            if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and curr_rig != self.__rig - 1:
+            remember_rig = (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and not self.state
+            if remember_rig:
                 self.__rig_off = curr_rig + 1
                 
-            if self.__bank_off_auto and curr_bank != self.__bank - 1:
+            if self.__bank_off_auto and (remember_rig or curr_bank != self.__bank - 1):
                 self.__bank_off = curr_bank + 1
 
         is_current = self.state
-- 
2.43.0


From eb788acb401285b6f674ae01570b4b7d21eceddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:39 +0000
Subject: [PATCH 12/30] fix: show the off bank as target of rig select switches
 which only toggle the bank

---
 content/lib/pyswitch/clients/kemper/actions/rig_select.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 0fac6ad..93a23b5 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -266,6 +266,8 @@ class _KemperRigSelectCallback(Callback):
                     if self.__bank != None:
                         if is_current and self.__rig_off != None and self.__bank_off != None:
                             self.action.label.text = self.__get_text(self.__bank_off - 1, self.__rig_off - 1)
+                        elif is_current and self.__bank_off != None:
+                            self.action.label.text = self.__get_text(self.__bank_off - 1, curr_rig)
                         elif self.__rig != None:
                             self.action.label.text = self.__get_text(self.__bank - 1, self.__rig - 1)
                         else:
-- 
2.43.0


From 156d1eabc17587b12c1022b536f22518bd620b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 13/30] fix: do not crash when the bank encoder is turned
 before the rig ID is known

---
 .../lib/pyswitch/clients/kemper/actions/bank_select_encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 92c2daf..65dcabc 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -62,6 +62,9 @@ class _BankSelectEncoderAction(EncoderAction):
         self._appl.shared["preselectedBank"] = self._last_value
 
     def _get_value(self):
+        if self._mapping.value == None:
+            return None
+        
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-- 
2.43.0


From ed34676ff74dba97377ef25c39596550610170fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 14/30] fix: keep the current rig when preselecting banks with
 the encoder

---
 .../pyswitch/clients/kemper/actions/bank_select_encoder.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 65dcabc..013d3b7 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -68,7 +68,10 @@ class _BankSelectEncoderAction(EncoderAction):
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-        self._mapping.value = value * NUM_RIGS_PER_BANK
+        # Keep the current rig (this is also used by other actions)
+        rig = self._mapping.value % NUM_RIGS_PER_BANK if self._mapping.value != None else 0
+
+        self._mapping.value = value * NUM_RIGS_PER_BANK + rig
 
 
 def _convert_value(value):
-- 
2.43.0


From bcd32544abb64893679e0c529a4d842136eb2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 15/30] fix: effect type 137 (Dual Chromatic) belongs to the
 dual effects, not to empty slots

---
 content/lib/pyswitch/clients/kemper/actions/effect_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_state.py b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
index 8052702..384f589 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_state.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
@@ -224,9 +224,9 @@ class KemperEffectEnableCallback(EffectEnableCallback):
         elif 129 <= kpp_effect_type <= 132:
             return self.CATEGORY_PITCH
 
-        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 138-140) ---
-        # 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
-        elif 138 <= kpp_effect_type <= 140:
+        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 137-140) ---
+        # 137=Dual Chromatic, 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
+        elif 137 <= kpp_effect_type <= 140:
             return self.CATEGORY_DUAL
 
         # --- Delay (MSB=1, decoded 145-166) ---
-- 
2.43.0


From 972d39f2562782a98c3232a8e12cb0a3cdf44756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:30 +0000
Subject: [PATCH 16/30] fix: show empty effect slots as off, and show the state
 when a slot gets filled

---
 .../lib/pyswitch/controller/callbacks/effect_enable.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 2eba1e8..4e6378e 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -33,10 +33,14 @@ class EffectEnableCallback(BinaryParameterCallback):
         self.__current_kpp_type = None
 
     def update_displays(self):
+        was_empty = (self.__effect_category == self.CATEGORY_NONE)
         self.__effect_category = self.get_effect_category(self.mapping_fxtype.value) if self.mapping_fxtype.value != None else self.CATEGORY_NONE
         
         if self.__effect_category == self.CATEGORY_NONE:
             self.action.feedback_state(False)
+        elif was_empty:
+            # The state might have been received before the type: Show it now
+            self.evaluate_value(self.mapping.value)
 
         if self.__current_kpp_type == self.mapping_fxtype.value:
             super().update_displays()
@@ -50,6 +54,10 @@ class EffectEnableCallback(BinaryParameterCallback):
 
         super().update_displays()
 
+    # Empty slots are always off, regardless of the value
+    def evaluate_value(self, value):
+        super().evaluate_value(value if self.__effect_category != self.CATEGORY_NONE else None)
+
     # Must return the effect category for a mapping value
     def get_effect_category(self, kpp_effect_type):
         pass                                           # pragma: no cover
-- 
2.43.0


From 22fd93dea39f55d3465856eb7b91cfa10190ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:48 +0000
Subject: [PATCH 17/30] fix: apply the text color option of fixed text displays
 to the label

---
 content/lib/pyswitch/ui/elements.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 08dfdc6..384e4ab 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -177,6 +177,15 @@ class DisplayLabel(DisplayElement):
         if self.__label:
             self.__label.color = text_color
 
+    # Alias for text_color
+    @property
+    def color(self):
+        return self.text_color
+
+    @color.setter
+    def color(self, color):
+        self.text_color = color
+
     @property
     def text(self):
         return self.__layout.text
-- 
2.43.0


From 70c0ca00f770d90cc22140365ab17b9fb7105618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:45 +0000
Subject: [PATCH 18/30] fix: support direct page selection for the page ID 0

---
 content/lib/pyswitch/clients/local/actions/pager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 5548c56..847b01f 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -55,7 +55,7 @@ class PagerAction(Callback, Action):
 
         self.current_page_index = -1
         self.current_page_id = None
-        self.__select_page_index = self._get_page_index(select_page) if select_page else None
+        self.__select_page_index = self._get_page_index(select_page) if select_page is not None else None
 
         self.enable_callback = PagerAction._EnableCallback(self)
 
-- 
2.43.0


From 2cef5bd9b8ec33eed100ef85c17f8b6a127d6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:26 +0000
Subject: [PATCH 19/30] fix: update pagers which are enabled or disabled by
 other pagers, and let them request their mappings

---
 content/lib/pyswitch/clients/local/actions/pager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 847b01f..c385d47 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -95,10 +95,16 @@ class PagerAction(Callback, Action):
     # Must be called before usage
     def init(self, appl, switch):
         Action.init(self, appl, switch)
+        Callback.init(self, appl, self._CallbackListener(self))
 
         self.current_page_index = 0
         self.current_page_id = self.pages[self.current_page_index]["id"] if len(self.pages) > 0 else None
 
+    # Called regularly: Requests the mappings, and updates the displays when the enabled state changes
+    def update(self):
+        Callback.update(self)
+        Action.update(self)
+
     # Called when the switch is pushed down
     def push(self):
         if not len(self.pages):
-- 
2.43.0


From 95bb5bcf1268d89f87fa1680f8ee6b059df58eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:57 +0000
Subject: [PATCH 20/30] fix: render LEDs and displays again when actions are
 reset, also for plain actions and pagers

---
 content/lib/pyswitch/clients/local/actions/pager.py | 4 ++++
 content/lib/pyswitch/controller/actions/__init__.py | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index c385d47..87f08f7 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -105,6 +105,10 @@ class PagerAction(Callback, Action):
         Callback.update(self)
         Action.update(self)
 
+    # Reset the action
+    def reset(self):
+        Action.reset(self)
+
     # Called when the switch is pushed down
     def push(self):
         if not len(self.pages):
diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index e3c91db..63bfaad 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -146,11 +146,13 @@ class Action(Updateable):
         if self.callback:
             self.callback.update_displays()
     
-    # Reset the action
+    # Reset the action (also renders LEDs and displays again)
     def reset(self):
         if self.callback:
             self.callback.reset()
 
+        self.update_displays()
+
     # Returns the switch LED segments to use
     def __get_led_segments(self):
         if not self.switch.pixels or not self.uses_switch_leds or not self.enabled:
@@ -309,7 +311,6 @@ class PushButtonAction(Action):
 
     # Reset the action: Set False state without sending anything
     def reset(self):
-        super().reset()
         self.__state = False
-        self.update_displays()
+        super().reset()
 
-- 
2.43.0


From 5814f9c2cfab0505b48ae119e649ee7393c96441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:06 +0000
Subject: [PATCH 21/30] fix: tuner display ignored a first deviance of exactly
 8192 (colours of note and marker stayed)

---
 content/lib/pyswitch/ui/elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 384e4ab..8b207a5 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -377,7 +377,7 @@ class TunerDisplay(DisplayElement):
             self.add(self.deviance)
 
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
 
     # We need access to the client, so we store appl here
     def init(self, ui, appl):
@@ -395,7 +395,7 @@ class TunerDisplay(DisplayElement):
     # Reset the display
     def reset(self):
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
         
         if self.label_note:
             self.label_note.text = "-"
-- 
2.43.0


From c42a9d90fba9c849a3021e8c12b79ca4135bfe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:03 +0000
Subject: [PATCH 22/30] fix: a switch pressed while tuner mode ended made the
 next tuner mode end at once

---
 content/lib/pyswitch/clients/kemper/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6737b30..a2ad631 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -228,7 +228,9 @@ class TunerDisplayCallback(Callback):
                         input.color = Colors.WHITE
                         input.brightness = 0
         else:
-            # Tuner off
+            # Tuner off (forget presses done in tuner mode, which may not be released yet)
+            self.__pushed_before = False
+
             for input in self.__appl.inputs:
                 if hasattr(input, "pixels"):
                     input.override_action = None
-- 
2.43.0


From 2b2540deb12f16904eda3ed03f3e2a3b4a9b5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:50 +0000
Subject: [PATCH 23/30] fix: strobe tuner LEDs stayed dark (or bright) when
 tuner mode was entered again at the same strobe position

---
 content/lib/pyswitch/controller/strobe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/strobe.py b/content/lib/pyswitch/controller/strobe.py
index 093250a..b91fd17 100755
--- a/content/lib/pyswitch/controller/strobe.py
+++ b/content/lib/pyswitch/controller/strobe.py
@@ -71,6 +71,9 @@ class StrobeController:
                 # Tuner on
                 self.__enabled = True
                 self.__period.reset()
+
+                # The LEDs may have been changed by others in the meantime
+                self.__current_strobe_brightnesses = [None for s in self.__switches]
             else:
                 # Tuner off
                 self.__enabled = False
-- 
2.43.0


From d8c88bfe26ca2916572152b87e2195a593e0994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:53 +0000
Subject: [PATCH 24/30] fix: tempo display (text and LEDs) was not redrawn when
 its page was selected again

---
 .../lib/pyswitch/clients/kemper/actions/tempo.py   | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tempo.py b/content/lib/pyswitch/clients/kemper/actions/tempo.py
index 1cb6e39..d6678e0 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tempo.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tempo.py
@@ -98,6 +98,14 @@ class _KemperShowTempoCallback(Callback):
         self.__current_value = None
         self.__last_bpm = None
         self.__last_rig = None
+        self.__update_text = False
+
+    # Redraw LEDs and text with the next update (for example after a page change)
+    def reset(self):
+        super().reset()
+
+        self.__current_value = None
+        self.__update_text = True
 
     def push(self):
         pass
@@ -127,10 +135,14 @@ class _KemperShowTempoCallback(Callback):
         # Text to show
         text = None
         if self.__bpm_mapping and self.__bpm_mapping.value != None:
-            if self.__bpm_mapping.value != self.__last_bpm:
+            bpm_changed = self.__bpm_mapping.value != self.__last_bpm
+            if bpm_changed or self.__update_text:
+                self.__update_text = False
+
                 bpm = convert_bpm(self.__bpm_mapping.value)
                 text = self._text.replace('{bpm}', bpm)
 
+            if bpm_changed:
                 # Show in preview display? Dont do this for the first value that comes in.
                 if self.__preview and self.__last_bpm != None and self.__rig_id_mapping.value == self.__last_rig:
                     self.__preview.preview(
-- 
2.43.0


From dd3f441ebf7a5afa06e1b9e848d1f7040d6967cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:21 +0000
Subject: [PATCH 25/30] fix: encoder button used to accept for one encoder and
 cancel for another did the same for both

---
 .../lib/pyswitch/clients/local/actions/encoder_button.py  | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/encoder_button.py b/content/lib/pyswitch/clients/local/actions/encoder_button.py
index 29cf1ca..9eac6fd 100755
--- a/content/lib/pyswitch/clients/local/actions/encoder_button.py
+++ b/content/lib/pyswitch/clients/local/actions/encoder_button.py
@@ -22,16 +22,14 @@ class _EncoderButtonCallback(Callback):
         super().__init__()
         
         self.__encoders = []
-        self.__cancel_mode = False
 
     # cancel_mode tells us what to trigger later on, accept() or cancel().
     def register_encoder(self, encoder, cancel_mode):
-        self.__encoders.append(encoder)
-        self.__cancel_mode = cancel_mode
+        self.__encoders.append((encoder, cancel_mode))
 
     def push(self):
-        for encoder in self.__encoders:
-            if self.__cancel_mode:
+        for encoder, cancel_mode in self.__encoders:
+            if cancel_mode:
                 encoder.cancel()
             else:
                 encoder.accept()
-- 
2.43.0


From a2ae89971af09e4e065822c3addb23e68f3bcb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:15 +0000
Subject: [PATCH 26/30] fix: parameter up/down repeated forever when the switch
 was released while its action was disabled or overridden

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 2654a69..1d390e8 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -100,6 +100,10 @@ class _ParameterChangeCallback(Callback):
         if self.__preview:
             self.__preview.update()
 
+        # The release is not delivered if the action has been disabled (or the switch overridden) in the meantime
+        if self.__pushed and not (self.action.enabled and getattr(self.action.switch, "pushed", True)):
+            self.__pushed = False
+
         if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
             self.push()
 
-- 
2.43.0


From 5592a27b61f3b542ad57df9a0cda3523142d91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:56 +0000
Subject: [PATCH 27/30] fix: emulator lost MIDI messages which did not fit into
 the remaining input buffer

---
 web/htdocs/python/wrappers/wrap_adafruit_midi.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/wrappers/wrap_adafruit_midi.py b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
index d5c6a66..c52b1c3 100644
--- a/web/htdocs/python/wrappers/wrap_adafruit_midi.py
+++ b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
@@ -5,15 +5,16 @@ class WrapMidiInput:
         if not "midiWrapper" in externalRefs.to_py() or not externalRefs.midiWrapper:
             return None
         
-        cnt = 0
         buf = []
         while len(externalRefs.midiWrapper.messageQueue) > 0:
-            m = externalRefs.midiWrapper.messageQueue.pop(0)
-            msg = list(m)
+            msg = list(externalRefs.midiWrapper.messageQueue[0])
 
-            if cnt + len(msg) > num_bytes:
+            # Messages which do not fit into the buffer anymore stay in the queue for the next call
+            if buf and len(buf) + len(msg) > num_bytes:
                 return buf
             
+            externalRefs.midiWrapper.messageQueue.pop(0)
+
             self._monitor(msg)
             buf += msg
 
-- 
2.43.0


From a8c7a0738fdd3c18aeba2f5d80e6510b2cfe7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 28/30] fix: after a short interruption of the connection the
 current state of the Profiler was not requested again

---
 content/lib/pyswitch/clients/kemper/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index a2ad631..0f1e11c 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -693,6 +693,11 @@ class KemperBidirectionalProtocol: #(BidirectionalProtocol):
             if self.debug:                     # pragma: no cover
                self.__print("Connection established")
 
+            # After an interruption within the lease time, the device senses again on its own, so 
+            # request the current state
+            if self.__has_been_running:
+                self.__send_beacon(init = True)
+
             self.__has_been_running = True
             self.state = self._STATE_RUNNING
 
-- 
2.43.0


From a1a8148f1bb91de0c506ceaf7a8a815793269d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:55 +0000
Subject: [PATCH 29/30] fix: effect slot labels kept the text of another page
 as long as the effect type was not known

---
 content/lib/pyswitch/controller/callbacks/effect_enable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 4e6378e..015cc6f 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -30,7 +30,7 @@ class EffectEnableCallback(BinaryParameterCallback):
     def reset(self):
         super().reset()
         
-        self.__current_kpp_type = None
+        self.__current_kpp_type = self       # Just some value which will never occur as an effect type ;)
 
     def update_displays(self):
         was_empty = (self.__effect_category == self.CATEGORY_NONE)
-- 
2.43.0


From de9a4ccc10c5b40cbf8ac951b7ed7a1cbf302327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:55 +0000
Subject: [PATCH 30/30] fix: tempo labels kept the text of another page as long
 as the tempo was not known

---
 content/lib/pyswitch/clients/kemper/actions/tempo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tempo.py b/content/lib/pyswitch/clients/kemper/actions/tempo.py
index d6678e0..8b79860 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tempo.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tempo.py
@@ -160,3 +160,6 @@ class _KemperShowTempoCallback(Callback):
 
             if text:
                 self.action.label.text = text
+            elif self.__update_text:
+                # Tempo not known (yet): Do not leave the text of another action
+                self.action.label.text = ""
-- 
2.43.0

