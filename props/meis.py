"""MEI files in short form, for the rules on the MEI reader: an abstract tree from the XML text, read by MeiReader.run."""
from __future__ import annotations
import re
import xml.etree.ElementTree as XML
from props.common import *
from props.meih import MEI, NS

HEAD = '<mei xmlns="http://www.music-encoding.org/ns/mei" meiversion="5.0">'


def note(m):
    """{c4 8. k=v} a note, {c4} one without a duration, {r 4} a rest, {s 4} a space"""
    w = m.group(1).split()
    at = []
    if w[0] == 'r':
        tag = 'rest'
    elif w[0] == 's':
        tag = 'space'
    else:
        tag = 'note'
        at.append(f'pname="{w[0][0]}" oct="{w[0][1:]}"')
    for x in w[1:]:
        if '=' in x:
            k, v = x.split('=', 1)
            at.append(f'{"xml:id" if k == "id" else k}="{v.replace("~", " ")}"')
        else:
            d = x.rstrip('.')
            at.append(f'dur="{d}"' + (f' dots="{len(x) - len(d)}"' if x != d else ''))
    return f'<{tag} ' + ' '.join(at) + '/>'


def document(src):
    """A file in short form: the content of <score>; <m>, <s>, <l> are <measure>, <staff>, <layer> (number 1 unless given), notes
    are in braces, a missing <scoreDef> is one of 4/4 with treble clefs for the staves, a missing <section> is put around."""
    src = re.sub(r'\{([^{}]*)\}', note, src)
    for k, v in (('m', 'measure'), ('s', 'staff'), ('l', 'layer')):
        src = re.sub(fr'<{k}( [^>]*)?>', lambda m: f'<{v}{"" if m.group(1) else " n=" + chr(34) + "1" + chr(34)}{m.group(1) or ""}>', src)
        src = src.replace(f'</{k}>', f'</{v}>')
    if '<scoreDef' not in src.split('<measure')[0]:
        ns = sorted(set(re.findall(r'<staff n="(\d+)"', src)))
        src = ('<scoreDef meter.count="4" meter.unit="4"><staffGrp>' + ''.join(
            f'<staffDef n="{n}" lines="5" clef.shape="G" clef.line="2"/>' for n in ns) + '</staffGrp></scoreDef>') + src
    if '<section' not in src:
        src = src.replace('</scoreDef>', '</scoreDef><section>', 1) + '</section>'
    return (HEAD + '<meiHead><fileDesc><titleStmt><title/></titleStmt><pubStmt/></fileDesc></meiHead>'
            '<music><body><mdiv><score>' + src + '</score></mdiv></body></music></mei>')


def tree(M, e):
    kids = [tree(M, k) for k in e]
    at = {}
    for k, v in e.attrib.items():
        at['xml:' + k.split('}')[1] if k.startswith('{http://www.w3.org/XML') else k] = v
    return M.E(e.tag.split('}')[-1], at, *kids, text=e.text, tail=e.tail)


def read(ip, src):
    """the abstract score which the reader makes of the file"""
    M = MEI(ip)
    doc = XML.fromstring(document(src))
    model(ip, 'M21Utilities', 'adjustMusic21Behavior', lambda ip_, a, k: None)
    model(ip, 'MeiReader', 'makeMetadata', lambda ip_, a, k: None)      # C10's subject
    count = [0]

    def uuid(ip_, a, k):
        count[0] += 1
        return f'uuid-{count[0]}'
    ip.models['uuid.uuid4'] = uuid
    rd = ip.deref(ip.instantiate(ip.cls('MeiReader'), [], {}))
    rd.attrs['documentRoot'] = tree(M, doc)
    rd.attrs['meiVersion'] = doc.attrib.get('meiversion', '5.0')
    return M.r(rd, 'run')
