"""Model of music21.prebase (analysed, never run)."""


class ProtoM21Object:
    pass
