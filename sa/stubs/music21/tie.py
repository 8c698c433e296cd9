"""Model of music21.tie (analysed, never run)."""
from music21.style import Style, StyleMixin


class TieException(Exception):
    pass


class Tie(StyleMixin):
    def __init__(self, type='start', **keywords):
        self._style = None
        self._editorial = None
        if type not in ('start', 'stop', 'continue', 'let-ring', 'continue-let-ring'):
            raise TieException(type)
        self.id = None
        self.type = type
        self.style_ = 'normal'
        self.placement = None

    @property
    def style(self):
        return self.style_

    @style.setter
    def style(self, v):
        self.style_ = v
