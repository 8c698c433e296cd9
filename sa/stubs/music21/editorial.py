"""Model of music21.editorial (analysed, never run)."""


class Editorial:
    def __init__(self):
        self.footnotes = []
        self.misc = {}
        self.ficta = None
