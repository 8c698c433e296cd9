"""Model of music21.percussion (analysed, never run)."""
from music21.chord import ChordBase


class PercussionChord(ChordBase):
    isChord = False

    @property
    def pitches(self):
        return ()
