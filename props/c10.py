"""C10: descriptive metadata survive writing and reading back, in Humdrum reference records and in the MEI header."""
from __future__ import annotations
import ast
from props.common import *
from props.meih import MEI, NS
from sa.core import ModuleInfo

EXPLANATION = (
    'Constant-propagation abstract interpretation of the Humdrum reference-record writer and reader and of the MEI header '
    'writer and reader over every metadata key the converters know (music21 unique names and Humdrum reference keys), one '
    'and two values, languages, contributors and every kind of date.  music21.metadata is replaced by a small model; its '
    'property table is read from the installed music21 source.  Oracle: what is read back equals what was written.')

MD = 'music21.metadata'
STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'stubs', 'm21metadata.py')

ET_TOSTRING = 'xml.etree.ElementTree.tostring'

# keys whose value has no place in the MEI header (documented as such in DESIGN.md)
NOT_IN_MEI = {'AIN', 'EMD', 'EST', 'MLC', 'PUB', 'RLN', 'VTS'}
# keys that are only understood next to another one
COMPANION = {'OVM': ('PTL', 'Host title'), 'COL': ('COM', 'Comp Oser'), 'CDT': ('COM', 'Comp Oser'),
             'CBL': ('COM', 'Comp Oser'), 'CDL': ('COM', 'Comp Oser'), 'CNT': ('COM', 'Comp Oser')}
# keys that are spelled differently once read
CANON = {'MRD': 'MDT', 'ACO': 'GCO'}


def properties(ip):
    """uniqueName -> (namespaceName, value type), from music21/metadata/properties.py"""
    mi = ip.repo.module_of(MD + '.properties')
    if mi is None:
        raise AnalysisError('music21.metadata.properties not found')
    out = {}
    for n in ast.walk(mi.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'PropertyDescription':
            kw = {k.arg: k.value for k in n.keywords}
            c = lambda k: kw[k].value if k in kw and isinstance(kw[k], ast.Constant) else None
            u = c('uniqueName') or c('name')
            vt = kw['valueType'].id if 'valueType' in kw else ('Contributor' if c('isContributor') else 'Text')
            out[u] = (f"{c('namespace')}:{c('name')}", vt)
    return out


def run(rep):
    ip = new_ip(max_steps=900000)
    M = MEI(ip)
    M.install()
    d = ip.deref
    R = ip.repo
    props = properties(ip)
    R.ext[MD] = ModuleInfo(MD, STUB, True)
    ip.inline_ext.add(MD)
    table = ADict({u: t for u, t in props.items()})
    ip.models[MD + '._props'] = lambda ip_, a, k: table
    ip.models[ET_TOSTRING] = lambda ip_, a, k: '<raw/>'

    C = lambda n: ip.cls(f'{MD}.{n}')
    U = lambda n, *a, **k: ip.call(ip.fn('M21Utilities', n), list(a), k)
    text = lambda v, lang=None, tr=None: ip.instantiate(C('Text'), [v], {'language': lang, 'isTranslated': tr})

    h2u = {k: d(v) for k, v in d(ip.table('M21Utilities', 'humdrumReferenceKeyToM21MetadataPropertyUniqueName')).d.items()}
    roles = {k: d(v) for k, v in d(ip.table('M21Utilities', 'humdrumReferenceKeyToM21OtherContributorRole')).d.items()}
    valid = [d(x) for x in d(ip.table('M21Utilities', 'validHumdrumReferenceKeys'))] \
        if isinstance(d(ip.table('M21Utilities', 'validHumdrumReferenceKeys')), tuple) else list(h2u)
    datekeys = set(conc(d(ip.table('M21Utilities', 'customHumdrumReferenceKeysThatAreDates'))))
    isdate = lambda k: k in datekeys or props.get(h2u.get(k) or '', ('', ''))[1] == 'DatePrimitive'

    def value(k, n=0):
        if k == 'CDT':
            return ('1771/03/04-1802/01/11', '1650-1699')[n]
        if isdate(k):
            return ('1771/03/04', '1802/01/11')[n]
        return (f'Foo {k}', f'Bar {k} 2')[n]

    # ------------------------------------------------------------------ a score's metadata in and out
    def dt(x):
        x = d(x)
        return tuple(d(x.attrs.get(a)) for a in ('year', 'month', 'day', 'hour', 'minute', 'second', 'yearError', 'monthError',
                                                 'dayError', 'hourError', 'minuteError', 'secondError'))

    def canon(v, lang=True):
        v = d(v)
        if not isinstance(v, Obj):
            return v
        if v.cname in ('Text', 'Copyright'):
            return ('text', d(v.attrs['_data']), d(v.attrs['language']) if lang else None)
        if v.cname == 'Contributor':
            return ('who', d(v.attrs['role']), tuple(canon(n, lang) for n in d(v.attrs['_names']).v))
        if v.cname.startswith('Date'):
            return (v.cname, d(v.attrs['_relevance']), tuple(dt(x) for x in d(v.attrs['_data']).v))
        return UNKNOWN

    def contents(md, lang=True):
        out = []
        for k, vs in d(d(md).attrs['_contents']).d.items():
            if k == 'software' or k.startswith(('raw:', 'meiraw:')):
                continue
            for v in d(vs).v:
                c = canon(v, lang)
                if c is UNKNOWN or (isinstance(c, tuple) and any(isinstance(x, Unk) for x in c)):
                    raise Cut()
                out.append((k, c))
        return out

    def new_md(items):
        md = ip.instantiate(C('Metadata'), [], {})
        for k, v in items:
            if isinstance(v, str):
                if k in props:
                    ip.call(ip.getattr(md, 'add'), [k, v], {})
                    continue
                v = text(v)
            if k in props:
                ip.call(ip.getattr(md, 'add'), [k, v], {})
            else:
                ip.call(ip.getattr(md, 'addCustom'), [k, v], {})
        return md

    def std(k, v, lang=None):
        """The item (key, value) as music21 holds what the reference key k stands for."""
        k = CANON.get(k, k)
        if isdate(k) and h2u.get(k):
            return h2u[k], U('m21DatePrimitiveFromString', v)
        if h2u.get(k):
            return h2u[k], (text(v, lang) if lang else v)
        if k in roles:
            return 'otherContributor', ip.instantiate(C('Contributor'), [], {'name': text(v, lang), 'role': roles[k]})
        return 'humdrum:' + k, text(v, lang)

    def humdrum_rt(md, lines_only=False):
        lines = []
        w = mk(ip, 'HumdrumWriter', _m21Score=mk(ip, 'music21.stream.Score', metadata=md))
        out = mk(ip, 'HumdrumFile')
        model(ip, 'HumdrumWriter', '_getSystemDecoration', lambda ip_, a, k: '')

        def ins(ip_, o, a, k):
            i = d(a[0])
            if not isinstance(i, int):
                raise Cut()
            lines.insert(i, d(a[1]))
            return None

        def app(ip_, o, a, k):
            lines.append(d(a[0]))
            return None
        ip.method_models[('HumdrumFile', 'insertLine')] = ins
        ip.method_models[('HumdrumFile', 'appendLine')] = app
        ip.call(ip.getattr(w, '_addHeaderRecords'), [out], {})
        if not all(isinstance(x, str) for x in lines):
            raise Cut()
        if lines_only:
            return tuple(lines)
        return humdrum_read(lines)

    def humdrum_read(lines):
        r = mk(ip, 'HumdrumFile', _biblio=AList([]), m21Score=mk(ip, 'music21.stream.Score'))
        r.attrs['_lines'] = AList([ip.instantiate(ip.cls('HumdrumLine'), [x], {}) for x in lines])
        r.attrs['lineCount'] = len(lines)
        ip.attr_models[('HumdrumLine', 'lineIndex')] = lambda ip_, o: 0
        ip.call(ip.getattr(r, '_prepareMetadata'), [], {})
        ip.call(ip.getattr(r, '_createScoreMetadata'), [], {})
        return d(d(r.attrs['m21Score']).attrs['metadata'])

    def mei_rt(md):
        w = ip.instantiate(ip.cls('MeiMetadata'), [md], {})
        tb = M.tb()
        ip.call(ip.getattr(w, 'makeRootElement'), [tb], {})
        head = M.built(tb)
        rd = ip.instantiate(ip.cls('MeiMetadataReader'), [head], {})
        ip.call(ip.getattr(rd, 'processMetadata'), [], {})
        return d(rd).attrs['m21Metadata']

    WH = 'HumdrumWriter._addHeaderRecords / HumdrumFile._createScoreMetadata'
    WM = 'MeiMetadata.makeRootElement / MeiMetadataReader.processMetadata'

    def perkey(c):
        out = {}
        for k, v in c:
            out.setdefault(k, []).append(v)
        return out

    def both(instance, mkitems, mei=True, hum=True, lang=True, mei_lang=True, extra_ok=(), want_items=None, order=True):
        for name, rt, where, go, lg in (('Humdrum', humdrum_rt, WH, hum, lang), ('MEI', mei_rt, WM, mei, mei_lang)):
            if not go:
                continue

            def th():
                md = new_md(mkitems())
                want = perkey(contents(new_md(want_items()) if want_items else md, lg))
                got = perkey(contents(rt(md), lg))
                lost = [(k, x) for k in want for x in want[k] if x not in got.get(k, [])]
                new = [(k, x) for k in got for x in got[k] if x not in want.get(k, []) and k not in extra_ok]
                if order and not lost and not new and any(want[k] != got[k] for k in want if k not in extra_ok):
                    lost.append('order')
                return (tuple(lost), tuple(new))
            judge(rep, ip, f'{name}: {instance}', where, th, lambda v: v == ((), ()), show='(lost, invented)')

    def with_companion(k, n=1):
        its = []
        if k in COMPANION:
            ck, cv = COMPANION[k]
            its += [std(ck, cv + (' %d' % i if i else '')) for i in range(n)]
        return its

    # ------------------------------------------------------------------ families
    def single():
        for k in valid:
            if k in NOT_IN_MEI or k == 'HTX':
                both(f'{k} once', lambda: [std(k, value(k))], mei=False)
            else:
                both(f'{k} once', lambda: with_companion(k) + [std(k, value(k))])
    rep.family('every-key', 'every reference key with one value survives', single, 120)

    def double():
        for k in valid:
            if k in NOT_IN_MEI or k == 'HTX':
                both(f'{k} twice', lambda: [std(k, value(k)), std(k, value(k, 1))], mei=False)
            else:
                both(f'{k} twice', lambda: with_companion(k, 2) + [std(k, value(k)), std(k, value(k, 1))],
                     extra_ok=('title',) if k == 'OMD' else ())
    rep.family('several-values', 'two values of one key both survive, in order', double, 100)

    def together():
        ks = [k for k in valid if k not in NOT_IN_MEI and k not in ('HTX', 'ACO', 'MRD')]
        both('every key at once', lambda: [std(k, value(k)) for k in ks], order=False)
        both('every key at once, in reverse order', lambda: [std(k, value(k)) for k in reversed(ks)], order=False)
        both('every key with two values at once', lambda: [std(k, value(k, n)) for n in (0, 1) for k in ks], order=False)
        for k in ks:
            if k in ('COM', 'OTL', 'OMD'):
                continue
            both(f'composer, title and {k}', lambda: [std('COM', 'Comp Oser'), std('OTL', 'The Title')]
                 + [x for x in with_companion(k) if x[0] != 'composer'] + [std(k, value(k))])
    rep.family('together', 'different keys do not disturb one another', together, 100)

    # ------------------------------------------------------------------ languages
    def languages():
        for k in valid:
            if isdate(k) or k in ('ACO', 'MRD') or k in roles:
                continue
            for tr in (True, False):
                def th():
                    n, v = std(k, value(k))
                    v = text(value(k), 'de', tr)
                    md = new_md([(n, v)])
                    got = d(d(d(humdrum_rt(md)).attrs['_contents']).d[n]).v
                    x = d(got[0])
                    if x.cname == 'Contributor':
                        x = d(d(x.attrs['_names']).v[0])
                    return len(got), d(x.attrs['_data']), d(x.attrs['language']), d(x.attrs['isTranslated'])
                judge(rep, ip, f'Humdrum: {k} in German translated={tr}', WH, th, lambda v: v == (1, value(k), 'de', tr))
            both(f'{k} in two languages', lambda: [(std(k, '')[0], text('Foo', 'de', False)), (std(k, '')[0], text('Bar', 'en', True)),
                                                   (std(k, '')[0], text('Baz', 'en', True))], mei=False)
        for k in ('OTL', 'OTA', 'OTP', 'OMD'):
            both(f'{k} in German', lambda: [(h2u[k], text('Foo', 'de', False))], hum=False)
            both(f'{k} in two languages', lambda: [(h2u[k], text('Foo', 'de', False)), (h2u[k], text('Bar', 'en', True))],
                 hum=False, extra_ok=('title',) if k == 'OMD' else ())
    rep.family('language', 'the language of a text survives, and whether it is a translation', languages, 150)

    # ------------------------------------------------------------------ contributors
    def contributors():
        for k, role in roles.items():
            both(f'contributor {role}', lambda: [std(k, 'A. Person')])
            both(f'contributors {role} twice', lambda: [std(k, 'A. Person'), std(k, 'B. Other')])
        camel = {'suspectedPerformer': 'suspected performer', 'publicationEditor': 'publication editor',
                 'sourceEditor': 'publication editor', 'source editor': 'publication editor'}
        for a, b in camel.items():
            mkc = lambda r: [('otherContributor', ip.instantiate(C('Contributor'), [], {'name': 'A. Person', 'role': r}))]
            both(f'contributor {a}', lambda: mkc(a), want_items=lambda: mkc(b), mei=False)
        for u, (ns, vt) in props.items():
            k = next((h for h, x in h2u.items() if x == u), None)
            if vt != 'Contributor' or k is None or u == 'otherContributor':
                continue
            mkc = lambda: [('otherContributor', ip.instantiate(C('Contributor'), [], {'name': 'A. Person', 'role': u}))]
            both(f'other contributor with role {u}', mkc, want_items=lambda: [(u, 'A. Person')], mei=False)
    rep.family('contributor', 'contributors keep their name and role', contributors, 20)

    # ------------------------------------------------------------------ text
    def texts():
        for v in ('A: B', 'x = y', '!!bang', '#1 [a] {b}', 'a  b', 'one\ntwo\nthree', 'M\u00fcller & S\u00f6hne', '100%', '"q"',
                  "l'orage", '3', '1771', '@home', 'a,b;c', 'x*y', '=12', '.', '**kern'):
            for k in ('OTL', 'COM', 'YEC', 'ONB', 'PPR', 'AGN', 'LYR', 'OPS', 'RNB'):
                if k not in valid:
                    continue
                mei = '\n' not in v
                both(f'{k} = {v!r}', lambda: [std(k, v)], mei=mei)
        for k in ('foo', 'Foo-bar', 'OTL3-sub', 'XYZ1', 'filter', 'OTL-x@@DE'):
            def th():
                md = new_md([('raw:' + k, 'Some value')])
                got = d(d(humdrum_rt(md)).attrs['_contents']).d
                x = got.get('raw:' + k)
                if x is None:
                    return tuple(got)
                x = d(d(x).v[0])
                return x if isinstance(x, str) else d(x.attrs['_data'])
            judge(rep, ip, f'Humdrum: free key {k}', WH, th, lambda v: v == 'Some value')
    rep.family('text', 'any text is kept verbatim', texts, 200)

    # ------------------------------------------------------------------ dates
    Y = ['1771', '1771/03', '1771/03/04', '1771/12/31', '99/02', '@44/03/15', '@44', '2024/02/29', '1771/10', '1771//05']
    T_ = ['1771/03/04/12:30:15', '1771/03/04/00:30:15', '1771/03/04/12:00:15', '1771/03/04/23:59:59', '1771/03/04/00:00:01',
          '1771/03/04/12:30:', '1771/03/04/12::']
    ERR = ['1771x', '1771z', '1771x/03', '1771/03z', '1771/03/04x', '1771x/03z/04x', '1771/03/04/12x:30:15']
    FORMS = [('{}', 1), ('<{}', 1), ('>{}', 1), ('~{}', 1), ('?{}', 1), ('{}-{}', 2), ('{}|{}', 2), ('{}|{}|{}', 3)]

    def strings():
        n = 0
        for f, c in FORMS:
            base = Y + T_ + ERR
            for i, a in enumerate(base):
                s = f.format(*[base[(i + j) % len(base)] for j in range(c)])

                def th():
                    p = d(U('m21DatePrimitiveFromString', s))
                    if p is None:
                        return None
                    return U('stringFromM21DateObject', p)
                judge(rep, ip, f'date {s}', 'M21Utilities.m21DatePrimitiveFromString / stringFromM21DateObject', th, lambda v: v == s)
        for s, w in (('1771~', '1771x'), ('1771?', '1771z'), ('1771^1772', '1771-1772'), ('1771/3/4', '1771/03/04'),
                     ('1771/', '1771'), ('1771//', '1771')):
            judge(rep, ip, f'date {s}', 'M21Utilities.m21DatePrimitiveFromString', lambda: U(
                'stringFromM21DateObject', U('m21DatePrimitiveFromString', s)), lambda v: v == w)
        for s in ('1771/13/04', '1771/02/30', 'circa 1771', 'foo', '', '1771/03/04/25:00:00', '<foo', '1771-foo'):
            judge(rep, ip, f'impossible date {s!r}', 'M21Utilities.m21DatePrimitiveFromString',
                  lambda: U('m21DatePrimitiveFromString', s), lambda v: v is None)
    rep.family('date-string', 'every date that can be written in Humdrum is parsed to the same date', strings, 150)

    def meaning():
        for s, w in (('1771/03/04', (1771, 3, 4, None, None, None)), ('1771', (1771, None, None, None, None, None)),
                     ('@44/03', (-44, 3, None, None, None, None)), ('1771/03/04/12:30:15', (1771, 3, 4, 12, 30, 15)),
                     ('1771/03/04/00:00:00', (1771, 3, 4, 0, 0, 0))):
            for pre, cn, rel in (('', 'DateSingle', 'certain'), ('<', 'DateRelative', 'prior'), ('>', 'DateRelative', 'after'),
                                 ('~', 'DateSingle', 'approximate'), ('?', 'DateSingle', 'uncertain')):
                def th():
                    p = d(U('m21DatePrimitiveFromString', pre + s))
                    return p.cname, d(p.attrs['_relevance']), dt(d(p.attrs['_data']).v[0])[:6]
                judge(rep, ip, f'meaning of {pre + s}', 'M21Utilities.m21DatePrimitiveFromString', th,
                      lambda v: v == (cn, rel, w))
        for s, cn in (('1771/03-1802', 'DateBetween'), ('1771/03|1802', 'DateSelection'), ('1771/03^1802', 'DateBetween')):
            def th2():
                p = d(U('m21DatePrimitiveFromString', s))
                return p.cname, [dt(x)[:2] for x in d(p.attrs['_data']).v]
            judge(rep, ip, f'meaning of {s}', 'M21Utilities.m21DatePrimitiveFromString', th2,
                  lambda v: v == (cn, [(1771, 3), (1802, None)]))
        for s, w in (('1771x', 'approximate'), ('1771~', 'approximate'), ('1771z', 'uncertain'), ('1771?', 'uncertain')):
            def th3():
                p = d(U('m21DatePrimitiveFromString', s))
                return dt(d(p.attrs['_data']).v[0])[6], d(p.attrs['_relevance'])
            judge(rep, ip, f'meaning of {s}', 'M21Utilities._stripDateError', th3, lambda v: v == (w, 'certain'))
    rep.family('date-meaning', 'a date string means the date, range, alternatives or bound it denotes', meaning, 30)

    def isodates():
        for s in Y[:-1] + T_:
            for pre in ('', '<', '>'):
                def th():
                    p = U('m21DatePrimitiveFromString', pre + s)
                    iso = {k: d(v) for k, v in d(U('isoDateFromM21DatePrimitive', p)).d.items()}
                    key = {'': 'isodate', '<': 'notafter', '>': 'notbefore'}[pre]
                    if list(iso) != [key]:
                        return iso
                    x = {'': '{}', '<': '../{}', '>': '{}/..'}[pre].format(iso[key])
                    return canon(U('m21DatePrimitiveFromIsoDate', x)) == canon(p), iso[key]

                def isoform(v):
                    import re
                    return v[0] is True and re.fullmatch(
                        r'-?\d{4}(-\d\d(-\d\d(T\d\d(:\d\d(:\d\d)?)?)?)?)?', v[1])
                judge(rep, ip, f'isodate of {pre + s}', 'M21Utilities.isoDateFromM21DatePrimitive / m21DatePrimitiveFromIsoDate', th,
                      lambda v: isinstance(v, tuple) and isoform(v))
        for s in ('1771-1802', '1771/03/04-1802/01/01', '@44-@12', '1771/03-1771/04'):
            def th2():
                p = U('m21DatePrimitiveFromString', s)
                iso = {k: d(v) for k, v in d(U('isoDateFromM21DatePrimitive', p)).d.items()}
                e = {k: d(v) for k, v in d(U('isoDateFromM21DatePrimitive', p, edtf=True)).d.items()}
                return (sorted(iso), canon(U('m21DatePrimitiveFromIsoDate', iso['startdate'] + '/' + iso['enddate'])) == canon(p),
                        canon(U('m21DatePrimitiveFromIsoDate', e['edtf'])) == canon(p))
            judge(rep, ip, f'isodates of {s}', 'M21Utilities.isoDateFromM21DatePrimitive', th2,
                  lambda v: v == (['enddate', 'startdate'], True, True))
        for s in ('1771|1772', '1771|1772|1773/05'):
            def th3():
                p = U('m21DatePrimitiveFromString', s)
                e = {k: d(v) for k, v in d(U('isoDateFromM21DatePrimitive', p, edtf=True)).d.items()}
                return canon(U('m21DatePrimitiveFromIsoDate', e['edtf'])) == canon(p)
            judge(rep, ip, f'edtf of {s}', 'M21Utilities.isoDateFromM21DatePrimitive', th3, lambda v: v is True)
        for s in ERR + ['~1771', '?1771/03']:
            judge(rep, ip, f'isodate of {s}', 'M21Utilities.isoDateFromM21DatePrimitive',
                  lambda: sorted(d(U('isoDateFromM21DatePrimitive', U('m21DatePrimitiveFromString', s))).d), lambda v: v == [],
                  show='an isodate cannot express uncertainty')
    rep.family('isodate', 'an isodate denotes the date it was made from', isodates, 50)

    def dates():
        vals = Y[:3] + Y[5:6] + T_[:2] + T_[5:6] + ERR[:1] + [f.format(*['1771/03/04', '1802', '1803/05'][:c]) for f, c in FORMS]
        for k in valid:
            if not isdate(k) or k == 'CDT':
                continue
            for v in vals:
                both(f'{k} = {v}', lambda: [std(k, v)])
            for v in ('circa 1771', '1771/13/04', 'unknown'):
                both(f'{k} = {v} (not a date)', lambda: [(std(k, '')[0], text(v))])
        for v in ('1771-1802', '1771/03/04-1802/05/06', '~1771-1802', '1771-?1802/05', '<1771-1802',
                  '1525^1526-1594', '1525|1526-1594', '@44-@12', '1525-1594^1595'):
            both(f'CDT = {v}', lambda: [std('COM', 'Comp Oser'), ('humdrum:CDT', text(v))])
    rep.family('date', 'every kind of date survives in every dated key', dates, 150)

    def elsewhere():
        both('copyright of the printed source', lambda: [('mei:printedSourceCopyright', text('(c) 1890 Schott')), std('PPR', 'Schott')], hum=False)
        for lang in (None, 'de'):
            for n in (1, 2):
                def th():
                    ls = [M.E('l', {'type': 'humdrum:HTX'}, text=f'line {i}') for i in range(n)]
                    lg = M.E('lg', {'xml:lang': lang} if lang else {}, *ls)
                    back = M.E('back', {}, M.E('div', {'type': 'textTranslation'}, lg))
                    rd = ip.instantiate(ip.cls('MeiMetadataReader'), [M.E('meiHead', {})], {})
                    ip.call(ip.getattr(rd, 'processMusicBackElement'), [back], {})
                    return contents(d(rd).attrs['m21Metadata'])
                judge(rep, ip, f'{n} lines of translated text in the back matter, language {lang}', 'MeiMetadataReader.processMusicBackElement',
                      th, lambda v: v == [('humdrum:HTX', ('text', f'line {i}', lang)) for i in range(n)])
    rep.family('elsewhere', 'metadata that live outside the usual places are read', elsewhere, 4)

    # ------------------------------------------------------------------ key tables
    def tables():
        u2h = {k: d(v) for k, v in d(ip.table('M21Utilities', 'm21MetadataPropertyUniqueNameToHumdrumReferenceKey')).d.items()}
        rep.analysed['reference keys'] = len(h2u)
        for k, u in h2u.items():
            if not u:
                continue
            rep.expect(u in props, f'{k} -> {u} is a music21 property', 'M21Utilities.humdrumReferenceKeyToM21MetadataPropertyUniqueName', u)
            rep.expect(h2u.get(u2h.get(u)) == u and u2h.get(u) == k, f'{k} -> {u} -> {u2h.get(u)}',
                       'M21Utilities.m21MetadataPropertyUniqueNameToHumdrumReferenceKey', str(u2h.get(u)))
            ns = props.get(u, ('',))[0]
            if ns.startswith('humdrum:'):
                rep.expect(ns == 'humdrum:' + k, f"{k} is music21's {ns}", 'M21Utilities.humdrumReferenceKeyToM21MetadataPropertyUniqueName',
                           f'music21 says {u} is {ns}, the table says {k}')
        for u, (ns, vt) in props.items():
            if ns.startswith('humdrum:') and ns[8:] in h2u:
                rep.expect(h2u[ns[8:]] == u, f'{ns} is {u}', 'M21Utilities.humdrumReferenceKeyToM21MetadataPropertyUniqueName',
                           f'{ns[8:]} maps to {h2u[ns[8:]]}, music21 says {u}')
        for k, r in roles.items():
            judge(rep, ip, f'role {r}', 'M21Utilities.contributorRoleToHumdrumReferenceKey',
                  lambda: U('contributorRoleToHumdrumReferenceKey', r), lambda v: v == k)
        for u, k in u2h.items():
            judge(rep, ip, f'role {u}', 'M21Utilities.contributorRoleToHumdrumReferenceKey',
                  lambda: U('contributorRoleToHumdrumReferenceKey', u), lambda v: v == k)
    rep.family('key-tables', 'reference keys and music21 names are one-to-one and agree with music21', tables, 100)
    rep.use(ip)
