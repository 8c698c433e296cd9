"""Model of music21.sites (analysed, never run)."""


class SitesException(Exception):
    pass
