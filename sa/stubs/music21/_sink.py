"""What a writer writes to (analysed, never run)."""


class Sink:
    def __init__(self):
        self.out = []

    def write(self, s):
        self.out.append(s)
