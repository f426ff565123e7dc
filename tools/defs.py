"""Definitions of all properties (source of properties.jsonl and MANIFEST.json)"""

PROPS = []
NOT_APPLICABLE = []
LIB = "content/lib/pyswitch/"


def make(id, title, statement, over, text, why, files, mech, state = (), observe = ()):
    assert len(title) <= 80, title
    p = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [f if f.startswith(("web", "content", "examples")) else LIB + f for f in files],
            "mechanism": [{"name": n, "where": w if w.startswith(("web", "content", "examples")) else LIB + w} for n, w in mech]
        }
    }
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        p["anchors"]["observe_at"] = list(observe)
    return p


def P(*a, **k):
    PROPS.append(make(*a, **k))


def NA(reason, *a, **k):
    NOT_APPLICABLE.append({"prop": make(*a, **k), "reason": reason})


P("C01", "Setting a parameter sends exactly its message with the value encoded",
  "Setting a parameter to a value sends exactly the message(s) the parameter defines for setting, in their order, with that value encoded (control change and program change: the value itself; NRPN system exclusive: upper 7 bits, then lower 7 bits) and all address bytes unchanged, no matter which values have been set before. Feeding an NRPN set message back in as a response is recognised and yields exactly the value which was set. A parameter without set message sends nothing.",
  ["inputs", "histories", "configurations"],
  "for every shipped or user defined parameter, every 14 bit NRPN value and every 7 bit CC/PC value, and every sequence of sets",
  "Tests set a handful of values (0, 1, 16383, ...) on a few parameters; a wrong carry between the two 7 bit halves, an address byte clobbered by a former set or a parameter specific slip shows only for other values, parameters or sequences.",
  ["controller/client.py", "clients/kemper/__init__.py", "clients/kemper/mappings/"],
  [("value encoding", "controller/client.py ClientParameterMapping.set_value"), ("sending", "controller/client.py Client.set")])

P("C02", "A received message changes exactly the parameters it is addressed to",
  "A received MIDI message is taken as the value of a parameter if and only if it has the kind of the parameter's response message and the same control number (control change) or the same manufacturer, function, instance, page and number (system exclusive; the two leading product and device bytes are ignored, and numeric values need at least the two value bytes). The value taken is the control value, the program number, the 14 bit number in the last two bytes or, for text parameters, the characters between the address and the last byte. All other parameters keep their values and nobody else is notified.",
  ["inputs", "histories", "configurations"],
  "for every received message (any kind, any bytes, any length including truncated ones), every response address and type, and every sequence of messages",
  "Tests use a few hand written messages; the compared byte range, ignored bytes, truncated messages and cross talk between parameters quantify over all byte values and lengths.",
  ["controller/client.py"],
  [("matching and decoding", "controller/client.py ClientParameterMapping.parse_against"), ("dispatch", "controller/client.py Client.receive")])

P("C03", "The rig ID always combines the latest bank part with its program change",
  "Parameters received in two parts (control change 32, then program change) take the value 128 * control value + program number exactly when a program change arrives after at least one control change 32 since the last complete value, using the latest control value; all listeners are notified exactly then. Any other message in between changes nothing, a program change alone is ignored, and several waiting two-part parameters do not influence each other.",
  ["histories", "inputs"],
  "for every history of control changes, program changes and other messages with all values",
  "Tests send single well formed pairs; repeated, lost or interleaved parts and all value combinations are not reachable by examples.",
  ["controller/client.py", "clients/kemper/__init__.py"],
  [("two part parser", "controller/client.py ClientTwoPartParameterMapping.parse"), ("delayed notification", "controller/client.py ClientRequest.parse")])

P("C04", "Parameter requests: one outstanding, every asker answered or terminated once",
  "While a requested parameter is unanswered its request message is sent only once, no matter how many listeners ask for it; the next matching answer notifies each asking listener exactly once and ends the request, and asking again sends a new one. Every unanswered request is terminated, telling each of its listeners exactly once, only after the configured lifetime has passed and at the latest with the first reception after one and a half lifetimes. A parameter depending on another one is requested exactly when the other one has been received with a new value, on behalf of all listeners which asked for it.",
  ["histories", "inputs", "schedules"],
  "for every history of requests, answers, foreign messages and elapsed times, any lifetime, several parameters and listeners",
  "Tests script single request/answer exchanges with fixed times; duplicates, leaks and lost notifications need particular interleavings of requests, answers and time.",
  ["controller/client.py", "misc.py"],
  [("request registry", "controller/client.py Client._register_mapping"), ("termination", "controller/client.py Client.receive"), ("dependencies", "controller/client.py Client.request")],
  state = [("requests", "outstanding requests with their listeners")])

P("C05", "Bidirectional session: connect, keep alive, detect loss, reconnect",
  "While offline, an init beacon (with the configured tuner flag and lease) is sent on update if and only if more than 5 s have passed since the last one; a sensing message of the device received after the first init beacon makes the session connected, nothing else does. While connected, a keep-alive beacon is sent on update if and only if more than half of the lease has passed since the last one (or since connecting), and an update more than 1.5 s after the last sensing message takes the session offline. Each init beacon sent while offline after a session had been connected reports the connection as lost exactly once, a sensing message which connects the session again is answered by one more init beacon (the state may have changed meanwhile), and the shown state (green/red) always tells connected/offline.",
  ["histories", "schedules", "inputs", "configurations"],
  "for every lease, tuner mode, history of updates, sensing messages and other messages at arbitrary times",
  "Tests step through single transitions with chosen times; boundaries, wrong resets and rare orders (sensing right before the timeout, loss during keep-alive) need all times and orders.",
  ["clients/kemper/__init__.py", "misc.py"],
  [("state machine", "clients/kemper/__init__.py KemperBidirectionalProtocol.update"), ("sensing", "clients/kemper/__init__.py KemperBidirectionalProtocol.receive")],
  state = [("state", "offline or running"), ("periods", "time of last beacon / sensing")])

P("C06", "Bidirectional parameters: immediate feedback, no requests, loss reported",
  "For parameters handled by the bidirectional protocol (rig name, tuner state/note/deviance, type and state of the six effect slots A, B, C, D, X, MOD) no request is ever sent; setting one sends its message and immediately notifies all its listeners with the set value, and each received value notifies every listener again, without ever expiring. Other parameters get no such feedback and are still requested. A lost connection is reported once to each listener of bidirectional parameters and to nobody else, and those listeners keep receiving later values.",
  ["histories", "inputs"],
  "for every history of sets, requests, received values and connection losses over bidirectional and other parameters",
  "Tests cover single sets and losses; stale feedback, lost registrations after a loss and requests slipping through need histories.",
  ["controller/client.py", "clients/kemper/__init__.py"],
  [("feedback", "controller/client.py BidirectionalClient.set"), ("registration", "controller/client.py BidirectionalClient.register"), ("loss", "controller/client.py BidirectionalClient.notify_connection_lost")])

P("C07", "MIDI routing delivers every message to each routed target exactly once",
  "Every MIDI message read from a port is passed on unchanged exactly once, in order of arrival, to each port it is routed to (except unsupported message types, which are not forwarded between ports) and, if routed to the application, to the application, one message per poll; this also holds if a port is routed to other ports and to the application at once. Messages sent by the application go exactly once to each port routed from the application. Nothing is read from or sent to ports without a corresponding route.",
  ["configurations", "histories", "schedules"],
  "for every set of routes between the application and the ports, every sequence of messages per port and every interleaving of polls and application messages",
  "Tests check five fixed route sets; combinations (merge, distribute, through plus application) and message orders are not sampled.",
  ["controller/midi.py"],
  [("routing", "controller/midi.py MidiController.receive"), ("forwarding", "controller/midi.py MidiController.send")])

P("C08", "Shipped Kemper parameters use their documented addresses, without aliasing",
  "Every parameter shipped for the Kemper client is set, requested and recognised under its documented address (control number or NRPN page and number, the same in set, request and response), for every effect slot, rig and button number. This does not depend on which other parameters have been used before, and no received message is taken for two parameters with different addresses.",
  ["configurations", "inputs"],
  "for every shipped parameter, every order of use, every value and every received message",
  "Tests look at single parameters in isolation; the parameters are shared singletons found by name, so clashes need combinations, and address typos need the slot/parameter which nobody tests.",
  ["clients/kemper/__init__.py", "clients/kemper/mappings/", "controller/client.py"],
  [("parameter factories", "clients/kemper/__init__.py KemperMappings"), ("singleton registry", "controller/client.py ClientParameterMapping.get")])

P("C09", "A switch runs the right actions for presses, releases and holds",
  "Without hold actions, pressing a switch pushes and releasing it releases each of its enabled actions once, in order; nothing happens while its position does not change. With hold actions, the normal actions run (push and release together) on release if the hold time has not been exceeded, otherwise the hold actions run instead, once when the hold time is exceeded or, with hold repeat, each time it is exceeded again. An override action is asked first on every press and release and suppresses the regular actions unless it answers with true; no press influences a later one.",
  ["histories", "schedules", "configurations"],
  "for every sequence of switch positions at arbitrary poll times, any hold time, enabled states and override answers",
  "Tests script single presses with chosen times; a hold exceeded exactly between two polls, on release, or across presses with changing enabled states needs arbitrary histories.",
  ["controller/inputs.py", "misc.py"],
  [("press, release, hold", "controller/inputs.py FootSwitchController.process"), ("hold time", "misc.py PeriodCounter")])

P("C10", "Push button modes switch the state exactly as documented",
  "On press and release each push button mode changes the state as documented: enable on, disable off, latch toggles, momentary on while pressed, inverse momentary off while pressed, hold momentary toggles on press and again on release if held longer than the hold time, one shot triggers on every press. The functionality is triggered exactly once per change of the state (one shot: on every press) with the new state, never by feedback of the device, and several actions on one switch do not influence each other. With a parameter behind it, each change sends the on or off value of the parameter.",
  ["histories", "schedules", "inputs"],
  "for every history of presses, releases, device feedback and resets at arbitrary times, all modes, hold times and on/off values",
  "Tests play short fixed scripts per mode; device feedback between press and release, hold time boundaries and combined actions need histories.",
  ["controller/actions/__init__.py", "controller/callbacks/__init__.py"],
  [("mode state machine", "controller/actions/__init__.py PushButtonAction"), ("on/off values", "controller/callbacks/__init__.py BinaryParameterCallback.state_changed_by_user")],
  state = [("state", "logical state of the button")])

P("C11", "The LEDs of a switch are shared among its enabled actions",
  "The LEDs of a switch are distributed, in order, among those of its actions (normal and hold) which are enabled and use LEDs: a single one gets all, with more LEDs than actions the first one gets the surplus, with fewer LEDs the last actions get none; no LED is used by two actions, none stays unused, LEDs of other switches are never touched. The distribution follows enabling and disabling of actions immediately. A list of colours is shown one per LED if the number fits the LEDs of the action, else its middle colour is shown on all of them.",
  ["configurations", "histories", "inputs"],
  "for every number of LEDs and actions, every combination of LED use and enabled states and its changes, all colours",
  "Tests look at a few numbers of LEDs and actions; off-by-one errors and stale distributions show only for particular counts and changes of enabled states.",
  ["controller/actions/__init__.py", "controller/inputs.py"],
  [("distribution", "controller/actions/__init__.py Action._get_led_segment"), ("colours", "controller/inputs.py FootSwitchController.colors")])

P("C12", "Every LED shows its colour scaled by its brightness",
  "After any sequence of setting colours and brightness values of a switch (single values or lists), each of its LEDs shows each colour channel multiplied by the brightness which was in effect when the brightness was last set, rounded down, so always inside of 0..255. LEDs of other switches are not touched, and colour and brightness can be read back as set. Dimming a colour or a list of colours scales all channels by the factor.",
  ["histories", "inputs", "configurations"],
  "for every sequence of colour and brightness changes, every colour and brightness, any LED numbers of the switch",
  "Tests check fixed colours with brightness 0, 0.5, 1; wrong channels, orders or stale values depend on colours and sequences.",
  ["controller/inputs.py", "colors.py"],
  [("LED output", "controller/inputs.py FootSwitchController.brightnesses"), ("dimming", "colors.py dim_color")])

P("C13", "Expression pedals send the pedal position, without jitter",
  "For every pedal position the value sent lies within half a step of the linear position, inside of the value range, rising monotonically with the position from 0 (positions below the threshold) to the maximum; only changes are sent, and moving within a step sends nothing. At most one value is sent per frame interval, and the current position is sent with the first poll after the interval has passed if the action is enabled. With auto calibration, nothing is sent until the minimum range has been seen, and from then on the smallest and largest position ever seen give the ends of the value range.",
  ["inputs", "histories", "schedules", "configurations"],
  "for every pair or sequence of raw positions 0..65535 at arbitrary poll times, several ranges, step numbers and frame rates",
  "Tests use about ten positions; monotony, range and jitter properties quantify over all pairs of positions and rounding errors hide at step boundaries.",
  ["controller/actions/AnalogAction.py", "misc.py"],
  [("transfer function", "controller/actions/AnalogAction.py AnalogAction"), ("calibration", "controller/actions/AnalogAction.py"), ("frame rate", "misc.py PeriodCounter")])

P("C14", "Turning an encoder moves the parameter from its current value by the turn",
  "Turning an encoder sends the current value of the parameter plus step width times the turned positions (rounded towards zero for fractional steps) limited to the value range, whatever values the device reported in between, and no turn which changes the value is lost. Movement while the action is disabled and received values send nothing. With accept/cancel buttons, turning only preselects a value starting at the current one and sends nothing; accepting sends the preselected value exactly once, cancelling (or a change of the reset parameter) discards it.",
  ["histories", "inputs", "configurations"],
  "for every history of turns, received values, enabling, accepting and cancelling, all values, ranges and several step widths",
  "Tests turn encoders by small amounts in one direction; lost turns at particular positions, values reported by the device in between and leftover preselections need histories.",
  ["controller/actions/EncoderAction.py", "clients/local/actions/encoder_button.py"],
  [("value change", "controller/actions/EncoderAction.py EncoderAction.process"), ("accept and cancel", "clients/local/actions/encoder_button.py")],
  state = [("last position", "encoder position of the last evaluation"), ("preselected value", "value waiting for acceptance")])

P("C15", "Up/down buttons step the parameter within its range, repeating while held",
  "Pressing an up/down button sets the current value of the parameter plus the offset, limited to the value range; while it is held, this repeats with the first update after each repeat interval, and never after it was released (even if the button had been disabled or overridden in the meantime) or without repeat interval. Nothing is sent as long as the value is unknown. The display shows the value as percentage of the range (rounded to the nearest) and the LED brightness and label colour are proportional to the value for up and to the remaining range for down.",
  ["histories", "schedules", "inputs", "configurations"],
  "for every history of presses, releases and received values at arbitrary times, any offset, several intervals and ranges, all values",
  "Tests check a few values and one repeat; clamping, repeats after release and wrong start values need arbitrary values, offsets and timing.",
  ["clients/local/actions/param_change.py"],
  [("stepping and repeat", "clients/local/actions/param_change.py"), ("display", "clients/local/actions/param_change.py")])

P("C16", "Value previews show up at once, time out, and give the label back",
  "A preview replaces the text of its label at once and hides its normal content until the timeout has passed (first update after it), it is reset, or - if it is to stay - only until it is reset; after that the label shows its normal text again, including changes made meanwhile. When one participant starts a preview all others who used that label before are cancelled, and nobody else. Blinking alternates between text and blink colour with each exceeded interval and always ends in the original colour; parameter previews show the value as percentage, rounded to the nearest.",
  ["histories", "schedules", "inputs"],
  "for every history of previews by several participants, resets, updates and label changes at arbitrary times, all intervals and values",
  "Tests check one participant at a time; overlapping previews, resets while waiting for the timeout and blink phases need histories.",
  ["controller/preview.py", "ui/elements.py"],
  [("preview handling", "controller/preview.py ValuePreview"), ("text override", "ui/elements.py DisplayLabel")])

P("C17", "Rig up/down selects the neighbouring rig and shows where it leads",
  "Pressing a rig up or rig down switch requests exactly the rig one after or before the last rig reported by the device: with the keep bank option it stays inside of the bank and does nothing at its ends, else it wraps around over all 625 rigs and sends the bank message only if the bank changes. Nothing is sent as long as the current rig is unknown. The display shows the target or the current rig in the text and bank colour configured.",
  ["histories", "inputs", "configurations"],
  "for every current rig and history of reported rigs and presses, all display options, custom colours and texts",
  "Tests press at a few rigs only; wrap-around at the ends, bank crossings and stale current rigs depend on the rig number and the history.",
  ["clients/kemper/actions/rig_up_down.py", "clients/kemper/mappings/select.py", "clients/kemper/__init__.py"],
  [("target rig", "clients/kemper/actions/rig_up_down.py"), ("rig messages", "clients/kemper/mappings/select.py")],
  state = [("current rig", "last rig reported by the device")])

P("C18", "Bank up/down selects or preselects the neighbouring bank and shows it",
  "Without preselection, pressing a bank up or bank down switch sends exactly the bank message of its direction. With preselection it requests the bank after or before the preselected bank (or, if none is preselected, the current one), wrapping around at the configured number of banks, and the LEDs blink until a rig has been selected. LED colours, brightness, texts and label colours follow the bank shown as configured, and neighbouring switches are left alone.",
  ["histories", "inputs", "configurations", "schedules"],
  "for every current rig, bank limit, display option and history of presses and rig selections",
  "Tests sample a few banks and options; wrap-around, repeated preselection and the end of a preselection depend on histories.",
  ["clients/kemper/actions/bank_up_down.py", "clients/kemper/mappings/bank.py", "clients/kemper/__init__.py"],
  [("target bank and display", "clients/kemper/actions/bank_up_down.py")],
  state = [("preselected bank", "bank waiting for a rig selection")])

P("C19", "Rig select switches request their rig and toggle back to the remembered one",
  "Pressing a rig select switch sends exactly the messages of its rig in its own or the current (or preselected) bank. If that rig is selected already and no bank is preselected, it switches to the rig or bank configured for the off state instead (if any), which for the automatic setting is the one selected last before. LEDs and label are bright exactly while the rig of the switch is selected, and show current or target rig as configured.",
  ["histories", "inputs", "configurations"],
  "for every history of reported rigs and presses, all combinations of rig, bank, off rig, off bank and display options",
  "Tests run fixed scripts with a few rigs; remembered rigs after several changes and combinations of options need histories over all rigs.",
  ["clients/kemper/actions/rig_select.py", "clients/kemper/mappings/select.py"],
  [("selection and toggling", "clients/kemper/actions/rig_select.py")],
  state = [("remembered rig", "rig and bank selected before the switch was used")])

P("C20", "Preselected banks are shown, blink, and end with the next rig selection",
  "Preselecting a bank by a bank select switch or an encoder keeps the current rig, sends exactly the request for this bank and is shown on the rig label and by blinking LEDs of all rig select switches, which then address rigs of the preselected bank. The preselection ends when a rig is selected, after which all displays follow the current rig again. Nothing crashes when banks are preselected before the first rig is known.",
  ["histories", "inputs", "schedules"],
  "for every history of reported rigs, bank select presses, encoder turns and updates at arbitrary times",
  "Preselection involves several actions sharing state over time; tests cover single steps, not interleavings of turns, presses and reported rigs.",
  ["clients/kemper/actions/bank_select.py", "clients/kemper/actions/rig_select.py", "clients/kemper/actions/bank_select_encoder.py", "clients/kemper/actions/bank_up_down.py", "clients/kemper/__init__.py", "clients/kemper/mappings/bank.py"],
  [("preselection", "clients/kemper/mappings/bank.py"), ("rig name label", "clients/kemper/__init__.py")],
  state = [("preselected bank", "bank waiting for a rig selection")])

P("C21", "Effect slot switches show name, colour and state of the effect in the slot",
  "The switch of an effect slot shows the name and colour of the family (or, for the variant with extended names, the name of the type) of the effect type last reported for the slot as documented by Kemper, and nothing else for types without effect. It is shown as on exactly if the slot is filled and the last state reported or set is on, in whatever order types and states come in, and pressing it sends the opposite state. Effect buttons toggle with every press and are off again after a rig change.",
  ["inputs", "histories", "configurations"],
  "for every 14 bit effect type, every slot, every history of reported types and states, presses, releases and connection losses",
  "Tests check one type after the other without state changes in between; the order of type and state messages and unassigned type numbers need all values and histories.",
  ["clients/kemper/actions/effect_state.py", "clients/kemper/actions/effect_state_extended_names.py", "clients/kemper/actions/effect_button.py", "controller/callbacks/effect_enable.py"],
  [("effect families", "clients/kemper/actions/effect_state.py KemperEffectEnableCallback"), ("state of the slot", "controller/callbacks/effect_enable.py EffectEnableCallback")],
  state = [("effect type", "type last reported for the slot"), ("effect state", "state last reported or set")])

P("C22", "On/off parameters show the last value and send or restore the right one",
  "A switch for an on/off parameter is on exactly if the last new value reported by the device or set by the user compares to the reference value as configured (equal, greater, less, or equal; or never changed by values). Switching it on sends the on value, switching it off sends the off value or, if it is to be restored, the last value seen in off state (nothing as long as none is known), to the separate parameter for switching off if there is one. Colour, brightness and text follow the state as configured, and are always those of the off state for parameters without feedback unless the internal state is to be shown.",
  ["histories", "inputs", "configurations"],
  "for every history of received values and presses, all comparison modes, on, off and reference values, and display options",
  "Tests use one history per comparison mode with two or three values; boundary values, restored values after several changes, and option combinations are not reachable by examples.",
  ["controller/callbacks/__init__.py"],
  [("comparison", "controller/callbacks/__init__.py BinaryParameterCallback.evaluate_value"), ("values sent", "controller/callbacks/__init__.py BinaryParameterCallback.state_changed_by_user"), ("display", "controller/callbacks/__init__.py BinaryParameterCallback.update_displays")],
  state = [("restored value", "last value received in off state")])

P("C23", "Shipped on/off actions send exactly their documented messages",
  "Every shipped looper, fixed effect, tap tempo, tuner mode, morph button, rig volume boost and generic on/off switch sends exactly its own message with the on value when it switches its function on and with the off value when it switches it off, in its documented push button mode, and nothing at any other time. The rig volume boost sets the configured volume and goes back to the last volume below it (or to 0 dB). Morph displays never send anything; texts and colours are the documented or the configured ones.",
  ["histories", "schedules", "inputs", "configurations"],
  "for every history of presses and releases at arbitrary times, reported values, boost volumes, on/off values, colours and modes",
  "Tests check how the actions are constructed; which messages they send depends on mode, hold times and the values reported before.",
  ["clients/kemper/actions/looper.py", "clients/kemper/actions/fixed_fx.py", "clients/kemper/actions/tempo.py", "clients/kemper/actions/tuner.py", "clients/kemper/actions/morph.py", "clients/kemper/actions/rig_volume_boost.py", "clients/local/actions/binary_switch.py"],
  [("looper", "clients/kemper/actions/looper.py"), ("fixed effects", "clients/kemper/actions/fixed_fx.py"), ("rig volume boost", "clients/kemper/actions/rig_volume_boost.py")])

P("C24", "Custom, rotating and keyboard switches send their raw data in rotation",
  "A custom message switch sends exactly its configured bytes on press and, if configured, the release bytes on release; a rotating switch sends the current entry of each of its lists and moves on to the next one with each release, every list (messages, release messages, colours, texts) rotating on its own. Boomerang switches alternate between their two program changes on channel 16. Keyboard switches send their key codes one by one on each press (nothing without USB host), fixed texts are shown in the configured colours and send nothing.",
  ["inputs", "histories", "configurations"],
  "for all message bytes, key codes, colours, combinations of list lengths and histories of presses and releases",
  "Tests use a few fixed lists of equal lengths; wrap-around of lists with different lengths and all byte values are not covered.",
  ["clients/local/actions/custom.py", "clients/local/actions/rotate.py", "clients/local/actions/hid.py", "clients/local/actions/fixed_text.py", "clients/boomerang/actions/boomerang.py"],
  [("rotation", "clients/local/actions/rotate.py"), ("program changes", "clients/boomerang/actions/boomerang.py"), ("key codes", "clients/local/actions/hid.py")])

P("C25", "Paging: exactly the actions of the selected page are active and shown",
  "After any sequence of page changes, switches, encoders and pedals run exactly their actions belonging to the selected page; changing pages itself sends nothing. The pager rotates through its pages in order (starting with the first one) or selects its configured page, page select switches select theirs; pager, page select switches and label always show colour, brightness and text of the selected page. Several pagers, also nested ones, do not influence each other, and after the next update all LEDs and labels show the actions of the selected page, also when several pages share them.",
  ["histories", "configurations", "inputs"],
  "for every history of presses on pager, page select and function switches, updates in between or not, page IDs, colours, numbers of pages",
  "Tests run a single pager through a fixed sequence; nesting, quick page changes within an update interval and combinations with encoders need histories.",
  ["clients/local/actions/pager.py", "clients/local/actions/pager_direct.py", "controller/actions/__init__.py", "controller/controller.py"],
  [("page selection", "clients/local/actions/pager.py"), ("page select switch", "clients/local/actions/pager_direct.py"), ("re-rendering", "controller/controller.py reset_actions")],
  state = [("selected page", "page ID selected last")])

P("C26", "Tuner display follows note and deviance; tuner mode swaps display and switches",
  "While the device is in tuner mode the tuner is shown instead of the labels, and all switches leave it with one press (running their own actions too only if configured); exactly one message turning the tuner off is sent. The tuner shows the name of the last note and a marker right of the middle for sharp and left of it for flat, moving monotonically with the deviance and staying inside of the display; note and marker have the in-tune colour exactly if the deviance is within the calibration limits. After tuner mode ends, labels and LEDs are shown as before.",
  ["histories", "inputs", "configurations"],
  "for every note and deviance value in any order, any zoom and calibration, and every history of tuner states, presses, releases and updates",
  "Tests check a handful of deviances and a single change of the tuner mode; repeated mode changes with switches held and all 16384 deviances cannot be sampled.",
  ["ui/elements.py", "clients/kemper/__init__.py", "controller/inputs.py", "ui/UiController.py"],
  [("tuner display", "ui/elements.py TunerDisplay"), ("mode changes", "clients/kemper/__init__.py TunerDisplayCallback"), ("switch override", "controller/inputs.py SwitchController")],
  state = [("tuner mode", "reported by the device"), ("override", "action shown on all switches while the tuner is active")])

P("C27", "Strobe tuner LEDs rotate with the deviance and stay dark otherwise",
  "In tuner mode the LEDs of the switches (in display order of the switches) show a highlight rotating in the direction and with the speed given by the last deviance: faster the more the string is out of tune, standing still in the middle, in the opposite direction for flat than for sharp. It is updated at most as often as the configured frame rate allows, and after tuner mode the LEDs show the switches again, also when tuner mode is entered and left repeatedly.",
  ["histories", "schedules", "inputs", "configurations"],
  "for every sequence of deviances received at arbitrary times, orders of the switches, frame rates, dim factors and histories of tuner mode changes",
  "The strobe position accumulates over time: errors need specific sequences of deviances, intervals and mode changes which tests do not build.",
  ["controller/strobe.py", "clients/kemper/__init__.py"],
  [("strobe position and LEDs", "controller/strobe.py")])

P("C28", "Labels show the right text in readable colours, wrapped as configured",
  "A label always shows the text set last (or the override text, or the low memory warning as long as memory is low), wrapped to its width only if configured, in its text colour or, without one, in black on bright and white on dark backgrounds. The background always has the colour set last and fills the area of the label inside its stroke. All this holds for changes before and after the label is shown for the first time; adding or removing backgrounds later is refused.",
  ["histories", "inputs", "configurations"],
  "for all colours, positions, sizes and histories of text, colour, override and memory state changes before and after the label is shown",
  "Tests check some colours and single changes; the order of changes around showing the label and all 16 million background colours are out of reach.",
  ["ui/elements.py", "ui/ui.py", "ui/UiController.py"],
  [("label", "ui/elements.py DisplayLabel")],
  state = [("text and colours", "set last"), ("override text", "shown instead of the text while set")])

P("C29", "Layout areas tile the display and exactly the chosen elements are shown",
  "Cutting an area at any side yields a part and a rest which exactly tile the original (which shrinks to the rest only if removal is requested), and split containers divide their area among their children in order, without gaps or overlaps, also nested and when children are added. Exactly one root element is shown, initialised once before, and only shown elements are updated. The connection dot is in the upper right corner and is green exactly while the device is connected.",
  ["inputs", "histories", "configurations"],
  "for all areas, amounts, nestings and numbers of children, and every sequence of display choices and connection states",
  "Tests use fixed sizes; rounding and order errors show for other sizes, and repeated display switching needs histories.",
  ["ui/ui.py", "ui/elements.py", "ui/UiController.py"],
  [("areas", "ui/ui.py DisplayBounds"), ("split containers", "ui/DisplaySplitContainer.py"), ("display switching", "ui/UiController.py")])

P("C30", "The processing loop neither loses messages nor neglects switches or updates",
  "Every received MIDI message is processed exactly once and in order, and all switches are evaluated before each message and between updates, of which every one runs exactly once per update interval. A device sending without pause never blocks the loop, as at most the configured number of messages is processed in a row. At start up the display is shown, waiting messages are dropped unless configured otherwise, and memory below the limit is reported; statistics do not change any of this and are put out in their interval.",
  ["schedules", "inputs", "configurations"],
  "for every number and content of waiting messages, limits, update intervals and points in time of the loop runs",
  "Loss, starvation and order errors only show for specific queue lengths, limits and timing, which tests fix.",
  ["controller/controller.py", "misc.py", "controller/measure.py"],
  [("loop", "controller/controller.py tick"), ("start up", "controller/controller.py init")],
  state = [("queue", "messages waiting at the MIDI interface"), ("period", "time since the last updates")])

P("C31", "Tempo, rig name and parameter displays show what the device reported last",
  "The tempo display lights its LEDs exactly during the reported beat pulses and shows the tempo in BPM (rounded to the nearest number) in its text and colour; in tuner mode everything stays as it is. A change of the tempo is previewed for the configured time, but neither the first tempo nor the one of a new rig. Labels for parameters, tempo and rig names show the last reported value (converted if configured, with rig and bank number if requested), the default text as long as there is none, and are up to date again when their page is selected; displays send nothing but requests.",
  ["histories", "inputs", "schedules", "configurations"],
  "for every history of reported pulses, tempos, rigs, names, tuner states, page changes and lost requests",
  "Tests show single values; changes of rigs and pages in between and the rounding of all 16384 tempo values need histories and all inputs.",
  ["clients/kemper/actions/tempo.py", "clients/kemper/callbacks/tempo_bpm.py", "controller/callbacks/parameter_display.py", "clients/kemper/__init__.py"],
  [("tempo display", "clients/kemper/actions/tempo.py SHOW_TEMPO"), ("parameter labels", "controller/callbacks/parameter_display.py"), ("rig name", "clients/kemper/__init__.py KemperRigNameCallback")],
  state = [("tempo and pulse", "reported last"), ("rig", "rig of the last shown tempo")])

P("C32", "Morph displays blend the colours in proportion to the shared morph state",
  "Morph buttons and displays show the colour between the unmorphed and the morphed colour in proportion to the morph state (exact at both ends), or their fixed colour. There is one morph state: a changed value reported by the device sets it, morph buttons toggle it, choosing another rig or bank resets it, and pressing the switch of the current rig again toggles it (or sets it while held) if configured; displays send nothing. The morph LED of a rig select switch is only used while its rig is selected, and the first value reported right after choosing the rig does not change it.",
  ["histories", "inputs", "configurations"],
  "for every morph value, several colour pairs, every history of morph button presses, rig and bank switches, received rigs and morph values",
  "Tests check some colours and single presses; resets and toggles which depend on what was pressed or reported before need histories, rounding needs all 16384 values.",
  ["clients/kemper/actions/morph.py", "clients/kemper/actions/rig_select_and_morph_state.py", "clients/kemper/actions/rig_select.py"],
  [("colours and state", "clients/kemper/actions/morph.py KemperMorphCallback"), ("rig select", "clients/kemper/actions/rig_select.py"), ("display on rig switches", "clients/kemper/actions/rig_select_and_morph_state.py")],
  state = [("morph state", "shared state shown by all morph displays"), ("last report", "last value reported by the device")])

P("C33", "Encoder previews show the value in device units, and buttons do their role",
  "Turning the encoders for transposition, tempo and gain shows the value which is set (or, with an accept button, preselected) in the unit of the device: transposition as half steps limited to the range of the device, tempo in BPM, gain with one decimal. A preview disappears after the configured time; a preselection stays and blinks until it is accepted, cancelled or another encoder using the same display is turned, which discards it. A button accepts exactly the encoders it is the accept button of, and cancels those it is the cancel button of, even if it has both roles.",
  ["histories", "inputs", "schedules", "configurations"],
  "for every parameter value and turn, every history of turns, accepting, cancelling and waiting on two encoders sharing a display, all assignments of buttons",
  "Tests use one encoder with own buttons and a few values; shared displays and buttons, timing and the rounding of all values need histories and all inputs.",
  ["clients/kemper/actions/rig_transpose.py", "clients/kemper/actions/tempo_bpm.py", "clients/kemper/actions/amp.py", "controller/preview.py", "clients/local/actions/encoder_button.py", "clients/kemper/callbacks/convert_volume.py"],
  [("preview", "controller/preview.py ValuePreview"), ("buttons", "clients/local/actions/encoder_button.py"), ("encoders", "controller/actions/EncoderAction.py")],
  state = [("preselection", "value waiting for acceptance"), ("preview", "text shown instead of the normal one")])

P("C34", "No message or operation crashes the firmware with any shipped configuration",
  "With the default configuration and every example configuration, the firmware starts and keeps running: whatever MIDI messages are received and whatever switches, pedals and wheels are operated, no error is raised, all messages sent are well formed and all colours and display contents are valid. This also holds with all debug output enabled.",
  ["configurations", "inputs", "histories"],
  "for every shipped configuration, every message content of every kind, every input and history of them within the bounds",
  "Tests never run the shipped configurations as a whole; a crash needs a certain message value, or a configuration and an operation nobody tried together.",
  ["content/lib/pyswitch/process.py", "content/inputs.py", "content/display.py", "content/communication.py", "examples", "controller/controller.py", "clients/kemper/actions", "clients/local/actions"],
  [("startup", "content/lib/pyswitch/process.py (whole firmware start)"), ("loop", "controller/controller.py Controller.tick"), ("configurations", "content/*.py and examples/*/*/*/*.py")],
  state = [("firmware", "everything: client parameters, pages, previews, LEDs, labels")])

P("C35", "Device definitions map switches, LEDs, pedals, ports and display correctly",
  "On each supported device a switch is seen as pressed exactly if its own pin is low, its actions are run once per change, and its colour lights exactly its own three LEDs. Pedals and the wheel report the values of their pins, messages pass the USB and serial ports unchanged with the configured channels and unknown events are not sent, and the display is driven with the configured geometry. At boot the USB drive is only available if switch 1 is held; otherwise the memory is writable for the device.",
  ["inputs", "histories", "configurations"],
  "for every combination of levels of all pins, every value of pedals and wheel, every history of level changes, all LEDs and colours, all messages",
  "No test touches the device definitions, drivers or boot code; a wrong pin or pixel needs all combinations to be told from a right one.",
  ["hardware/devices/pa_midicaptain.py", "hardware/devices/pa_midicaptain_10.py", "hardware/devices/pa_midicaptain_mini_6.py", "hardware/devices/pa_midicaptain_nano_4.py", "hardware/adafruit/AdafruitSwitch.py", "hardware/adafruit/AdafruitPotentiometer.py", "hardware/adafruit/AdafruitEncoder.py", "hardware/adafruit/AdafruitUsbMidiDevice.py", "hardware/adafruit/AdafruitDinMidiDevice.py", "content/boot.py"],
  [("switches", "hardware/devices/*.py and hardware/adafruit/AdafruitSwitch.py"), ("leds", "controller/inputs.py and device pixels"), ("boot", "content/boot.py")])

P("C37", "Default configuration controls the Profiler, LEDs and screen show its state",
  "With the shipped default configuration connected to a Profiler, tapping, holding and turning the inputs changes exactly the documented thing at the device: the rig, the effect slots, the tuner, the tempo or the gain, whatever was operated before and however late the device answers. After any history of operations at the controller and at the device, the LEDs and the screen show the state of the device: rig and bank, slot types and states, rig name, tuner. This is also so after the connection has been interrupted for some seconds.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "for every rig and gain value, every history of the given length of operations at the controller, changes at the device and interruptions, with prompt and late answers",
  "The tests check single actions against mocked mappings and messages; nothing runs the shipped configuration against a device which answers, so wrong interplay of actions, protocol and display is not seen.",
  ["content/inputs.py", "content/display.py", "content/communication.py", "content/config.py", "clients/kemper/__init__.py", "controller/controller.py", "controller/client.py"],
  [("closed loop", "controller/controller.py tick"), ("session", "clients/kemper/__init__.py KemperBidirectionalProtocol"), ("configuration", "content/inputs.py Inputs")])

P("C36", "Emulator delivers MIDI messages unchanged, and page elements match the firmware",
  "In the web emulator every MIDI message arriving at the browser is received by the firmware exactly once, in order and with its content (if its channel is listened to), whatever its length and however many are waiting; every message sent by the firmware leaves with exactly the bytes of the MIDI standard on the configured channel, and bytes which are no valid message never break the reception. Switches, pedals and wheels read by the firmware have the state of the page elements of their pins, each LED element shows the colour of its LED, and the canvas shows the elements of the screen. The emulated controller with the default configuration controls the Profiler like the device; an error stops it and is reported once.",
  ["inputs", "histories", "configurations"],
  "for every sequence of messages within the bounds (all contents, lengths around the buffer size), all bytes as garbage, all channels, all input values, all operations of the default configuration",
  "Tests of the web application run a few sessions in a browser and none is part of the baseline; message loss depends on lengths and fill levels of the input buffer which are not sampled.",
  ["web/htdocs/python/wrappers/wrap_adafruit_midi.py", "web/htdocs/python/wrappers/wrap_io.py", "web/htdocs/python/wrappers/wrap_adafruit_led.py", "web/htdocs/python/wrappers/wrap_adafruit_display.py", "web/htdocs/python/wrappers/WrapDisplayDriver.py", "web/htdocs/python/PySwitchRunner.py", "web/htdocs/python/wrappers/wrap_hid.py", "web/htdocs/python/wrappers/wrap_time.py", "web/htdocs/python/adafruit_midi", "hardware/adafruit/AdafruitUsbMidiDevice.py"],
  [("queue to codec", "web/htdocs/python/wrappers/wrap_adafruit_midi.py WrapMidiInput.read"), ("codec", "web/htdocs/python/adafruit_midi/midi_message.py MIDIMessage.from_message_bytes"), ("emulator", "web/htdocs/python/PySwitchRunner.py PySwitchRunner.tick")])

P("C38", "Explore mode shows the port of the pressed switch and steps through the LEDs",
  "In explore mode the screen shows exactly one label for each usable port of the board, arranged in rows without overlapping; ports which cannot be used are left out. Pressing a switch highlights the label of its port only, ports pressed before keep another marking than those never pressed, and nothing but presses changes the display. Each press lights the next group of three LEDs (with every second switch the previous group) with wrap around, all others dim, and the numbers of the LEDs lit are shown on the screen.",
  ["inputs", "histories", "configurations"],
  "for every combination of levels of all ports over time, several numbers of ports (some unusable) and LEDs",
  "The tests press one or two mocked switches; wrap around at both ends, several switches pressed at once and arbitrary boards need histories over all ports.",
  ["controller/explore.py", "process.py", "hardware/adafruit/AdafruitSwitch.py", "ui/DisplaySplitContainer.py"],
  [("explore mode", "controller/explore.py ExploreModeController"), ("start of explore mode", "content/lib/pyswitch/process.py")],
  state = [("LED group", "index of the lit group"), ("labels", "current and previous port")])

NA("The editor works on syntax trees produced by libcst, whose parser is a native (Rust) extension: symbolic source text cannot pass through it, and once a concrete source is chosen no value is left for the solver to decide (the parser classes only dispatch on node types and compare names), so a check could only run enumerated example sources. The definition files and the JavaScript around it are outside as well.",
  "C39", "Editing inputs or splashes in the web editor keeps the rest of the configuration",
  "After the editor has replaced the inputs or splashes of a configuration, reading it back yields exactly the data which was set, all other statements are unchanged, everything used is imported and nothing unused is. Reading a configuration and writing it back unchanged keeps its meaning.",
  ["programs", "histories"],
  "for every configuration in the supported subset of Python and every sequence of edits",
  "The tests of the editor need a browser and compare a few example files; names and nesting which collide are not sampled.",
  ["web/htdocs/python/parser/PySwitchParser.py", "web/htdocs/python/parser/misc/CodeGenerator.py", "web/htdocs/python/parser/misc/CodeExtractor.py"],
  [("generation", "web/htdocs/python/parser/misc/CodeGenerator.py CodeGenerator"), ("extraction", "web/htdocs/python/parser/misc/CodeExtractor.py CodeExtractor")])

NA("Written in JavaScript against browser interfaces (Web MIDI, DOM, Pyodide worker) plus a third party bridge library (pymidibridge, its device side shipped as compiled .mpy without source): no symbolic executor for JavaScript is available here, and the compiled device side cannot be encoded. The Python side of the emulator which these parts call is covered by C36.",
  "C40", "The browser loads and saves the files of a connected controller unchanged",
  "Loading a configuration from a connected controller shows exactly the files stored there, saving stores exactly the files shown, in whatever chunks they are transferred, and an interrupted transfer is reported and does not destroy the stored file.",
  ["inputs", "schedules", "fault_sequences"],
  "for every file content, every chunking and every interruption",
  "Needs a real device and a browser; the tests of the web application mock the connection.",
  ["web/htdocs/js/model/configurations/ControllerConfiguration.js"],
  [("transfer", "web/htdocs/js/model/configurations/ControllerConfiguration.js")])
