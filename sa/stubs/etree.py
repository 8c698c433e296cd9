"""Model of xml.etree.ElementTree (analysed, never run): only what the MEI code uses."""


class ParseError(Exception):
    pass


class Element:
    def __init__(self, tag, attrib=None, **extra):
        self.tag = tag
        self.attrib = {}
        if attrib:
            for k in attrib:
                self.attrib[k] = attrib[k]
        for k in extra:
            self.attrib[k] = extra[k]
        self.text = None
        self.tail = None
        self.kids = []

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, value):
        self.attrib[key] = value

    def items(self):
        return self.attrib.items()

    def keys(self):
        return self.attrib.keys()

    def append(self, child):
        self.kids.append(child)

    def extend(self, children):
        for c in children:
            self.kids.append(c)

    def insert(self, i, child):
        self.kids.insert(i, child)

    def remove(self, child):
        self.kids.remove(child)

    def __len__(self):
        return len(self.kids)

    def __iter__(self):
        return iter(self.kids)

    def __getitem__(self, i):
        return self.kids[i]

    def iter(self, tag=None):
        out = []
        if tag is None or tag == '*' or self.tag == tag:
            out.append(self)
        for c in self.kids:
            out.extend(c.iter(tag))
        return out

    def findall(self, path, namespaces=None):
        path = path.replace('{http://www.music-encoding.org/ns/mei}', 'MEI~')
        descend = False
        if path.startswith('.//'):
            descend = True
            path = path[3:]
        elif path.startswith('./'):
            path = path[2:]
        cur = [self]
        for part in path.split('/'):
            if part == '':
                descend = True
                continue
            part = part.replace('MEI~', '{http://www.music-encoding.org/ns/mei}')
            nxt = []
            for e in cur:
                if descend:
                    for c in e.kids:
                        nxt.extend(c.iter(part))
                else:
                    for c in e.kids:
                        if part == '*' or c.tag == part:
                            nxt.append(c)
            descend = False
            cur = nxt
        return cur

    def iterfind(self, path, namespaces=None):
        return self.findall(path)

    def find(self, path, namespaces=None):
        found = self.findall(path)
        if found:
            return found[0]
        return None

    def findtext(self, path, default=None, namespaces=None):
        found = self.findall(path)
        if found:
            return found[0].text or ''
        return default

    def itertext(self):
        out = []
        if self.text:
            out.append(self.text)
        for c in self.kids:
            out.extend(c.itertext())
            if c.tail:
                out.append(c.tail)
        return out


class TreeBuilder:
    def __init__(self, element_factory=None, *, comment_factory=None, pi_factory=None, insert_comments=False,
                 insert_pis=False):
        self.stack = []
        self.root = None
        self.last = None
        self.closed = False

    def start(self, tag, attrs):
        e = Element(tag, attrs)
        if self.stack:
            self.stack[-1].kids.append(e)
        elif self.root is None:
            self.root = e
        self.stack.append(e)
        self.last = e
        self.closed = False
        return e

    def data(self, text):
        if self.last is None:
            return
        if self.closed:
            self.last.tail = (self.last.tail or '') + text
        else:
            self.last.text = (self.last.text or '') + text

    def end(self, tag):
        self.last = self.stack.pop()
        self.closed = True
        return self.last

    def close(self):
        return self.root


class ElementTree:
    def __init__(self, element=None, file=None):
        self._root = element

    def getroot(self):
        return self._root

    def write(self, file_or_filename, encoding=None, xml_declaration=None, default_namespace=None, method=None, *,
              short_empty_elements=True):
        file_or_filename.write(self._root)


def indent(tree, space='  ', level=0):
    pass
