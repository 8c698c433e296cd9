"""Model of music21.metadata (analysed, never run): what the converters use of it."""
from music21.exceptions21 import MetadataException


def _props():
    """uniqueName -> (namespaceName, value type name); supplied by the rule from music21's own table."""
    return {}


class Date:
    attrNames = ['year', 'month', 'day', 'hour', 'minute', 'second']

    def __init__(self, *, year=None, month=None, day=None, hour=None, minute=None, second=None,
                 yearError=None, monthError=None, dayError=None, hourError=None, minuteError=None, secondError=None):
        if isinstance(year, str):
            year, yearError = self._strip(year)
        if isinstance(month, str):
            month, monthError = self._strip(month)
        if isinstance(day, str):
            day, dayError = self._strip(day)
        if isinstance(hour, str):
            hour, hourError = self._strip(hour)
        if isinstance(minute, str):
            minute, minuteError = self._strip(minute)
        if isinstance(second, str):
            second, secondError = self._strip(second)
        self.year = year
        self.month = month
        self.day = day
        self.hour = hour
        self.minute = minute
        self.second = second
        self.yearError = yearError
        self.monthError = monthError
        self.dayError = dayError
        self.hourError = hourError
        self.minuteError = minuteError
        self.secondError = secondError
        self._check()

    def _strip(self, value):
        if value == '':
            return None, None
        for ch in value:
            if ch in ('~', 'x'):
                return int(value.replace(ch, '')), 'approximate'
            if ch in ('?', 'z'):
                return int(value.replace(ch, '')), 'uncertain'
        return int(value), None

    def _check(self):
        if self.month is not None:
            if self.month > 12 or self.month < 1:
                raise ValueError('month')
        if self.day is not None:
            if self.day > 31 or self.day < 1:
                raise ValueError('day')
            if self.month == 2 and self.day > 29:
                raise ValueError('day')
            if self.month in (4, 6, 9, 11) and self.day > 30:
                raise ValueError('day')
        if self.hour is not None and (self.hour > 23 or self.hour < 0):
            raise ValueError('hour')
        if self.minute is not None and (self.minute > 59 or self.minute < 0):
            raise ValueError('minute')
        if self.second is not None and (self.second > 59 or self.second < 0):
            raise ValueError('second')

    def copy_from(self, other):
        for a in Date.attrNames:
            setattr(self, a, getattr(other, a))
            setattr(self, a + 'Error', getattr(other, a + 'Error'))
        self._check()

    def loadStr(self, dateStr):
        dateStr = dateStr.replace(':', '/')
        dateStr = dateStr.replace(' ', '')
        for a, chunk in zip(Date.attrNames, dateStr.split('/')):
            if chunk == '--':
                continue
            value, error = self._strip(chunk)
            setattr(self, a, value)
            if error is not None:
                setattr(self, a + 'Error', error)
        self._check()

    def key(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, self.yearError, self.monthError,
                self.dayError, self.hourError, self.minuteError, self.secondError)


def _date(data):
    d = Date()
    if isinstance(data, Date):
        d.copy_from(data)
    elif isinstance(data, str):
        if data:
            d.loadStr(data)
    return d


class DatePrimitive:
    def __init__(self, relevance='certain'):
        self._data = []
        self._relevance = ''
        self.relevance = relevance

    @property
    def relevance(self):
        return self._relevance

    @relevance.setter
    def relevance(self, value):
        if value == 'before':
            value = 'prior'
        value = value.lower()
        if value not in self.allowed():
            raise MetadataException(value)
        self._relevance = value

    def __eq__(self, other):
        return (type(self) is type(other) and self._relevance == other._relevance
                and [x.key() for x in self._data] == [x.key() for x in other._data])


class DateSingle(DatePrimitive):
    def __init__(self, data='', relevance='certain'):
        super().__init__(relevance)
        self._data.append(_date(data))

    def allowed(self):
        return ('certain', 'approximate', 'uncertain')


class DateRelative(DatePrimitive):
    def __init__(self, data='', relevance='after'):
        super().__init__(relevance)
        self._data.append(_date(data))

    def allowed(self):
        return ('prior', 'after', 'onorbefore', 'onorafter')


class DateBetween(DatePrimitive):
    def __init__(self, data=(), relevance='between'):
        super().__init__(relevance)
        for x in data:
            self._data.append(_date(x))

    def allowed(self):
        return ('between',)


class DateSelection(DatePrimitive):
    def __init__(self, data=(), relevance='or'):
        super().__init__(relevance)
        for x in data:
            self._data.append(_date(x))

    def allowed(self):
        return ('or', 'and')


class Text:
    def __init__(self, data='', language=None, isTranslated=None, encodingScheme=None):
        if isinstance(data, Text):
            self._data = data._data
            self.language = data.language
            self.isTranslated = data.isTranslated
            self.encodingScheme = data.encodingScheme
        else:
            self._data = data
            self.language = language
            self.isTranslated = isTranslated
            self.encodingScheme = encodingScheme

    def __str__(self):
        return self._data

    def __eq__(self, other):
        return (isinstance(other, Text) and self._data == other._data and self.language == other.language
                and self.isTranslated == other.isTranslated and self.encodingScheme == other.encodingScheme)


class Copyright(Text):
    def __init__(self, data='', language=None, isTranslated=None, *, role=None):
        super().__init__(data, language, isTranslated)
        self.role = role


class Contributor:
    def __init__(self, *, name=None, names=(), role='contributor', birth=None, death=None):
        self.role = role
        self._names = []
        if name:
            if isinstance(name, Text):
                self._names.append(name)
            else:
                self._names.append(Text(name))
        for n in names:
            if isinstance(n, Text):
                self._names.append(n)
            else:
                self._names.append(Text(n))
        self.birth = birth
        self.death = death

    @property
    def name(self):
        if self._names:
            return str(self._names[0])
        return None

    @property
    def names(self):
        return [str(n) for n in self._names]

    def __str__(self):
        return self.name or ''

    def __eq__(self, other):
        return isinstance(other, Contributor) and self.role == other.role and self._names == other._names


class Metadata:
    def __init__(self):
        self._contents = {}
        self._add('software', 'music21 v.9.7.1')

    @staticmethod
    def _isStandardUniqueName(name):
        return name in _props()

    @staticmethod
    def _isContributorUniqueName(name):
        return name in _props() and _props()[name][1] == 'Contributor'

    @staticmethod
    def _isStandardNamespaceName(name):
        for u in _props():
            if _props()[u][0] == name:
                return True
        return False

    @staticmethod
    def namespaceNameToUniqueName(name):
        for u in _props():
            if _props()[u][0] == name:
                return u
        return None

    @staticmethod
    def uniqueNameToNamespaceName(name):
        if name in _props():
            return _props()[name][0]
        return None

    @staticmethod
    def _convertValue(uniqueName, value):
        vt = 'Text'
        if uniqueName in _props():
            vt = _props()[uniqueName][1]
        if vt == 'Text':
            if isinstance(value, Text):
                return value
            return Text(str(value))
        if vt == 'Copyright':
            if isinstance(value, Copyright):
                return value
            return Copyright(value)
        if vt == 'DatePrimitive':
            if isinstance(value, DatePrimitive):
                return value
            original = value
            if isinstance(value, Text):
                value = str(value)
            try:
                return DateSingle(value)
            except ValueError:
                return Text(str(original))
        if vt == 'Contributor':
            if isinstance(value, Contributor):
                return value
            if isinstance(value, str):
                value = Text(value)
            return Contributor(role=uniqueName, name=value)
        return value

    def _add(self, name, value):
        values = [value]
        if isinstance(value, (list, tuple)):
            values = list(value)
        if name not in self._contents:
            self._contents[name] = []
        for v in values:
            self._contents[name].append(Metadata._convertValue(name, v))

    def add(self, name, value):
        if not Metadata._isStandardUniqueName(name):
            u = Metadata.namespaceNameToUniqueName(name)
            if u is None:
                raise KeyError(name)
            name = u
        self._add(name, value)

    def addCustom(self, name, value):
        self._add(name, value)

    def getCustom(self, name):
        return tuple(self._contents.get(name, []))

    def __getitem__(self, name):
        if not Metadata._isStandardUniqueName(name):
            u = Metadata.namespaceNameToUniqueName(name)
            if u is None:
                raise KeyError(name)
            name = u
        return tuple(self._contents.get(name, []))

    def all(self, *, skipContributors=False, skipNonContributors=False, returnPrimitives=False, returnSorted=True):
        out = []
        for name in self._contents:
            for v in self._contents[name]:
                if returnPrimitives:
                    out.append((name, v))
                else:
                    out.append((name, str(v)))
        return tuple(out)
