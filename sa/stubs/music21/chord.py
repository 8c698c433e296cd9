"""Model of music21.chord (analysed, never run)."""
from music21.note import NotRest, Note, Unpitched
from music21.pitch import Pitch


class ChordException(Exception):
    pass


class ChordBase(NotRest):
    isChord = True

    def __init__(self, notes=None, **keywords):
        super().__init__(**keywords)
        self._notes = []
        if notes is not None:
            if isinstance(notes, str):
                notes = notes.split(' ')
            for n in notes:
                self._add(n)
            if 'duration' not in keywords and 'quarterLength' not in keywords:
                for n in notes:
                    if isinstance(n, NotRest):
                        self._duration = n._duration
                        break

    def _add(self, n):
        if isinstance(n, (Pitch, str)):
            n = Note(n)
            n._duration = self._duration
        if isinstance(n, ChordBase):
            for x in n._notes:
                self._add(x)
            return
        n._chordAttached = self
        self._notes.append(n)

    def __len__(self):
        return len(self._notes)

    def __iter__(self):
        return iter(self._notes)

    def __getitem__(self, i):
        return self._notes[i]

    def __bool__(self):
        return True

    def transpose(self, value, *, inPlace=False):
        for n in self._notes:
            if isinstance(n, Note):
                n.pitch.transpose(value, inPlace=True)
        return None

    @property
    def notes(self):
        return tuple(self._notes)

    @notes.setter
    def notes(self, v):
        self._notes = []
        for n in v:
            self._add(n)

    def add(self, notes, *, runSort=True):
        if not isinstance(notes, (list, tuple)):
            notes = [notes]
        for n in notes:
            self._add(n)

    def remove(self, n):
        self._notes = [x for x in self._notes if x is not n]

    @property
    def tie(self):
        for n in self._notes:
            if n.tie is not None:
                return n.tie
        return None

    @tie.setter
    def tie(self, v):
        if v is None:
            return
        for n in self._notes:
            n.tie = v


class Chord(ChordBase):
    @property
    def pitches(self):
        return tuple(n.pitch for n in self._notes)

    def sortAscending(self, *, inPlace=False):
        self._notes = sorted(self._notes, key=lambda n: n.pitch.diatonicNoteNum)

    def sortDiatonicAscending(self, *, inPlace=False):
        self._notes = sorted(self._notes, key=lambda n: n.pitch.diatonicNoteNum)
