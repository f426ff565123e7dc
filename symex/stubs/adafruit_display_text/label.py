class Label:
    def __init__(self, font = None, anchor_point = None, anchored_position = None, text = None, color = None, line_spacing = None, scale = 1):
        self.font = font
        self.anchor_point = anchor_point
        self.anchored_position = anchored_position
        self.text = text
        self.color = color
        self.line_spacing = line_spacing
        self.scale = scale
