"""Model of music21.style (analysed, never run)."""
from music21.common.enums import StrEnum


class Enclosure:
    NO_ENCLOSURE = 'none'


class Style:
    def __init__(self):
        self.size = None
        self.relativeX = None
        self.relativeY = None
        self.absoluteX = None
        self._absoluteY = None
        self._enclosure = None
        self.fontRepresentation = None
        self.color = None
        self.units = 'tenths'
        self.hideObjectOnPrint = False
        self.dashLength = None
        self.spaceLength = None

    @property
    def absoluteY(self):
        return self._absoluteY

    @absoluteY.setter
    def absoluteY(self, v):
        if v == 'above':
            v = 10
        elif v == 'below':
            v = -70
        self._absoluteY = v

    @property
    def enclosure(self):
        return self._enclosure

    @enclosure.setter
    def enclosure(self, v):
        self._enclosure = v


class NoteStyle(Style):
    def __init__(self):
        super().__init__()
        self.stemStyle = None
        self.accidentalStyle = None
        self.noteSize = None


class TextStyle(Style):
    def __init__(self):
        super().__init__()
        self._fontFamily = None
        self._fontSize = None
        self._fontStyle = None
        self._fontWeight = None
        self._letterSpacing = None
        self.lineHeight = None
        self.textDirection = None
        self.textRotation = None
        self.language = None
        self.textDecoration = None
        self._justify = None
        self._alignHorizontal = None
        self._alignVertical = None
        self.placement = None

    @property
    def fontFamily(self):
        if self._fontFamily is None:
            self._fontFamily = []
        return self._fontFamily

    @fontFamily.setter
    def fontFamily(self, v):
        if isinstance(v, str):
            self._fontFamily = [f.strip() for f in v.split(',')]
        else:
            self._fontFamily = v

    @property
    def fontSize(self):
        return self._fontSize

    @fontSize.setter
    def fontSize(self, v):
        self._fontSize = v

    @property
    def fontStyle(self):
        return self._fontStyle

    @fontStyle.setter
    def fontStyle(self, v):
        if v is None:
            self._fontStyle = None
            return
        if v.lower() not in ('italic', 'normal', 'bold', 'bolditalic'):
            raise TextFormatException(v)
        self._fontStyle = v.lower()

    @property
    def fontWeight(self):
        return self._fontWeight

    @fontWeight.setter
    def fontWeight(self, v):
        if v is None:
            self._fontWeight = None
            return
        if v.lower() not in ('normal', 'bold'):
            raise TextFormatException(v)
        self._fontWeight = v.lower()

    @property
    def justify(self):
        return self._justify

    @justify.setter
    def justify(self, v):
        if v is None:
            self._justify = None
            return
        if v.lower() not in ('left', 'center', 'right', 'full'):
            raise TextFormatException(v)
        self._justify = v.lower()

    @property
    def alignHorizontal(self):
        return self._alignHorizontal

    @alignHorizontal.setter
    def alignHorizontal(self, v):
        if v in (None, 'left', 'right', 'center'):
            self._alignHorizontal = v
            return
        raise TextFormatException(v)

    @property
    def alignVertical(self):
        return self._alignVertical

    @alignVertical.setter
    def alignVertical(self, v):
        if v in (None, 'top', 'middle', 'bottom', 'baseline'):
            self._alignVertical = v
            return
        raise TextFormatException(v)


class TextFormatException(Exception):
    pass


class TextStylePlacement(TextStyle):
    pass


class LineStyle(Style):
    def __init__(self):
        super().__init__()
        self.lineShape = None
        self.lineType = None
        self.dashLength = None
        self.spaceLength = None


class BeamStyle(Style):
    def __init__(self):
        super().__init__()
        self.fan = None


class StreamStyle(Style):
    def __init__(self):
        super().__init__()
        self.printPartName = True
        self.printPartAbbreviation = True
        self.measureNumbering = None
        self.measureNumberStyle = None


class StyleMixin:
    _styleClass = Style

    @property
    def hasStyleInformation(self):
        return self._style is not None

    @property
    def style(self):
        if self._style is None:
            self._style = self._styleClass()
        return self._style

    @style.setter
    def style(self, v):
        self._style = v

    @property
    def hasEditorialInformation(self):
        return self._editorial is not None

    @property
    def editorial(self):
        if self._editorial is None:
            from music21 import editorial
            self._editorial = editorial.Editorial()
        return self._editorial

    @editorial.setter
    def editorial(self, v):
        self._editorial = v
