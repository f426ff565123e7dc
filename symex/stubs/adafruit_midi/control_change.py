from .midi_message import MIDIMessage

class ControlChange(MIDIMessage):
    _STATUS = 0xB0

    def __init__(self, control = 0, value = 0, channel = None):
        self.control = control
        self.value = value
        self.channel = channel
