from .midi_message import MIDIMessage

class ProgramChange(MIDIMessage):
    _STATUS = 0xC0

    def __init__(self, patch = 0, channel = None):
        self.patch = patch
        self.channel = channel
