"""Model of music21.base (analysed, never run)."""
from music21.prebase import ProtoM21Object
from music21.style import Style, StyleMixin
from music21.duration import Duration
from music21.common.numberTools import opFrac


class Music21Object(StyleMixin, ProtoM21Object):
    classSortOrder = 20
    isStream = False
    _styleClass = Style

    def __init__(self, id=None, groups=None, sites=None, duration=None, activeSite=None, style=None, editorial=None,
                 offset=0.0, quarterLength=None, **keywords):
        self._id = id
        self.groups = [] if groups is None else groups
        self._style = style
        self._editorial = editorial
        self._sites = []
        self._spannerSites = []
        self.activeSite = None
        self._offset = offset
        self.priority = 0
        if duration is not None:
            self._duration = duration
        elif quarterLength is not None:
            self._duration = Duration(quarterLength)
        else:
            self._duration = Duration(0)

    @property
    def id(self):
        if self._id is not None:
            return self._id
        return id(self)

    @id.setter
    def id(self, v):
        self._id = v

    @property
    def duration(self):
        return self._duration

    @duration.setter
    def duration(self, v):
        self._duration = v

    @property
    def quarterLength(self):
        return self._duration.quarterLength

    @quarterLength.setter
    def quarterLength(self, v):
        self._duration.quarterLength = v

    @property
    def sites(self):
        return self._sites

    @property
    def offset(self):
        if self.activeSite is None:
            return self._offset
        return self.activeSite.elementOffset(self)

    @offset.setter
    def offset(self, v):
        if self.activeSite is None:
            self._offset = v
        else:
            self.activeSite.setElementOffset(self, v)

    def getOffsetBySite(self, site, returnSpecial=False):
        if site is None:
            return self._offset
        return site.elementOffset(self)

    def setOffsetBySite(self, site, v):
        site.setElementOffset(self, v)

    def getOffsetInHierarchy(self, site):
        for s in self._sites:
            if s is site:
                return s.elementOffset(self)
        for s in self._sites:
            if s._within(site):
                return opFrac(s.elementOffset(self) + s.getOffsetInHierarchy(site))
        from music21.sites import SitesException
        raise SitesException('not in hierarchy')

    def getSpannerSites(self, spannerClassList=None):
        if spannerClassList is None:
            return list(self._spannerSites)
        if isinstance(spannerClassList, (str, type)):
            spannerClassList = [spannerClassList]
        out = []
        for sp in self._spannerSites:
            for c in spannerClassList:
                if isinstance(c, str):
                    if c in sp.classes:
                        out.append(sp)
                        break
                elif isinstance(sp, c):
                    out.append(sp)
                    break
        return out

    def isClassOrSubclass(self, classFilterList):
        for c in classFilterList:
            if isinstance(c, str):
                if c in self.classes:
                    return True
            elif isinstance(self, c):
                return True
        return False

    def getContextByClass(self, className, *, getElementMethod=None, sortByCreationTime=False, followDerivation=True,
                          priorityTargetOnly=False):
        for s in self._sites:
            at = s.elementOffset(self)
            best = None
            for e in s.elements:
                if e is not self and e.isClassOrSubclass([className]) and s.elementOffset(e) <= at:
                    best = e
            if best is not None:
                return best
            if s.isClassOrSubclass([className]):
                return s
        for s in self._sites:
            e = s.getContextByClass(className)
            if e is not None:
                return e
        return None

    @property
    def classSet(self):
        return self.classes

    @property
    def isGrace(self):
        return False

    def mergeAttributes(self, other):
        if other._id is not None:
            self._id = other._id
        self.groups = list(other.groups)
        self._style = other._style
        self._editorial = other._editorial


class ElementWrapper(Music21Object):
    pass


class Groups(list):
    pass
