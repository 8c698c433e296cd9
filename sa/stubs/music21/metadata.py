"""Model of music21.metadata (analysed, never run) as an element of a score."""
from music21.base import Music21Object
from music21._metadata import (Date, DatePrimitive, DateSingle, DateRelative, DateBetween, DateSelection, Text, Copyright,
                               Contributor)
from music21 import _metadata


class Metadata(Music21Object, _metadata.Metadata):
    classSortOrder = -30

    def __init__(self, **keywords):
        Music21Object.__init__(self)
        _metadata.Metadata.__init__(self)
