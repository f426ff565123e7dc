class Rect:
    def __init__(self, x = 0, y = 0, width = 0, height = 0, fill = None, outline = None, stroke = 0):
        self.x = x
        self.y = y
        self.width = width
        self.height = height
        self.fill = fill
        self.outline = outline
        self.stroke = stroke
