class MIDI:
    """Message level stand-in of the codec"""
    def __init__(self, midi_in = None, midi_out = None, in_channel = None, out_channel = 0, in_buf_size = 30, debug = False):
        self.midi_out = midi_out
        self.midi_in = midi_in
        self.in_channel = in_channel
        self.out_channel = out_channel
        self.in_buf_size = in_buf_size

    def receive(self):
        return self.midi_in.take()

    def send(self, msg, channel = None):
        self.midi_out.put(msg)
