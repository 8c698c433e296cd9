"""Model of music21.meter (analysed, never run)."""
from fractions import Fraction
from music21.base import Music21Object
from music21.common.numberTools import opFrac
from music21.duration import Duration


class MeterException(Exception):
    pass


class TimeSignature(Music21Object):
    classSortOrder = 4

    def __init__(self, value='4/4', divisions=None, **keywords):
        super().__init__(**keywords)
        self.symbol = ''
        if value in ('c', 'C', 'common'):
            self.symbol = 'common'
            value = '4/4'
        elif value.lower() in ('c|', 'cut'):
            self.symbol = 'cut'
            value = '2/2'
        parts = value.split('/')
        if len(parts) != 2 or not parts[0].isdigit() or not parts[1].isdigit():
            raise MeterException(value)
        self.numerator = int(parts[0])
        self.denominator = int(parts[1])
        if self.denominator not in (1, 2, 4, 8, 16, 32, 64, 128):
            raise MeterException(value)

    @property
    def ratioString(self):
        return str(self.numerator) + '/' + str(self.denominator)

    @property
    def barDuration(self):
        return Duration(opFrac(Fraction(self.numerator * 4, self.denominator)))

    @property
    def beatCount(self):
        return self.numerator

    @property
    def beatDuration(self):
        return Duration(opFrac(Fraction(4, self.denominator)))


class SenzaMisuraTimeSignature(Music21Object):
    def __init__(self, text=None, **keywords):
        super().__init__(**keywords)
        self.text = text
