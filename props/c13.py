"""C13: a Humdrum file is read with the spines, times and connections it spells."""
from __future__ import annotations
import re
from props.common import *
from props.humf import HF

EXPLANATION = (
    'Constant-propagation abstract interpretation of the analyses every Humdrum file goes through when it is read (spines, '
    'links, tracks, strands, parameters, durations, line times, null tokens, signifiers, slurs, ties, accidentals, ottavas, '
    'rhythmic scaling, colors) on file skeletons that cover each spine manipulator and their combinations, mixes of note '
    'values, tuplets, grace notes and voices, and every shape of slur nesting.  Oracle: an independent statement of the '
    'Humdrum rules (spine manipulators, time of a line, matching of slurs, when an accidental must be shown).')

T = lambda s: '\n'.join('\t'.join(f.replace('~', ' ') for f in l.split(' ')) if not l.startswith('!!') else l
                        for l in s.strip('\n').split('\n')) + '\n'


# ------------------------------------------------------------------ the Humdrum rules
def is_global(l):
    return l.startswith('!!') or l == ''


def spine_rules(text):
    """-> per line None or list of (track, subtrack, data type), and links {(line, field): [(line, field)]}"""
    lines = text.rstrip('\n').split('\n')
    state, links, out = None, {}, []
    ntracks = 0
    pending = None       # (line, list of targets per field)
    for i, l in enumerate(lines):
        if is_global(l):
            out.append(None)
            continue
        f = l.split('\t')
        if state is None:
            state = [(k + 1, x) for k, x in enumerate(f)]
            ntracks = len(f)
        else:
            state = [(tr, f[k] if f[k].startswith('**') else dt) for k, (tr, dt) in enumerate(state)]
        assert len(state) == len(f), (i, l, state)
        if pending is not None:
            for k, tg in enumerate(pending[1]):
                links[(pending[0], k)] = [(i, x) for x in tg]
        row = []
        for k, (tr, dt) in enumerate(state):
            same = [q for q, (t2, _) in enumerate(state) if t2 == tr]
            row.append((tr, 0 if len(same) == 1 else same.index(k) + 1, dt))
        out.append(row)
        new, tg, k = [], [None] * len(f), 0
        while k < len(f):
            x = f[k]
            if x == '*^':
                tg[k] = [len(new), len(new) + 1]
                new += [state[k], state[k]]
            elif x == '*v':
                j = k
                while j < len(f) and f[j] == '*v':
                    tg[j] = [len(new)]
                    j += 1
                new.append(state[k])
                k = j - 1
            elif x == '*x':
                tg[k], tg[k + 1] = [len(new) + 1], [len(new)]
                new += [state[k + 1], state[k]]
                k += 1
            elif x == '*+':
                ntracks += 1
                tg[k] = [len(new)]
                new += [state[k], (ntracks, '')]
            elif x == '*-':
                tg[k] = []
            else:
                tg[k] = [len(new)]
                new.append(state[k])
            k += 1
        state = new
        pending = (i, tg)
    for k in range(len(pending[1])):
        links.setdefault((pending[0], k), [])
    return out, links


def dur(tok):
    m = re.match(r'[^\d]*(\d+)(?:%(\d+))?(\.*)', tok)
    if 'q' in tok or m is None:
        return Fraction(0)
    n = int(m.group(1))
    b = Fraction(8) if m.group(1) == '0' else Fraction(16) if m.group(1) == '00' else Fraction(4 * int(m.group(2) or 1), n)
    return b * (2 - Fraction(1, 2 ** len(m.group(3))))


def time_rules(text, rows, links):
    """-> start time of every line"""
    lines = text.rstrip('\n').split('\n')
    times, t, ends, nulls = [None] * len(lines), Fraction(0), {}, []
    last = None                                 # a stretch of null lines shares the time up to the next end
    for i, l in enumerate(lines):
        if is_global(l):
            times[i] = None
            continue
        f = l.split('\t')
        if i and rows[i] is not None:
            pass
        data = not (l[0] in '*=!')
        times[i] = t
        if data:
            real = [k for k, x in enumerate(f) if x != '.' and rows[i][k][2] == '**kern' and dur(x) > 0]
            allnull = all(x == '.' for x in f)
            if real:
                for k in real:
                    ends[(i, k)] = t + dur(f[k].split(' ')[0])
            # active ends are those that flow into this line
            act = [e for e in (ends.get((i, k)) for k in range(len(f))) if e is not None and e > t]
            grace = not real and not allnull and any(x != '.' and rows[i][k][2] == '**kern' for k, x in enumerate(f))
            if allnull:
                nulls.append(i)
            if not grace:
                # null lines that follow share the stretch
                j, follow = i + 1, []
                while j < len(lines):
                    if is_global(lines[j]) or lines[j][0] in '*=!':
                        j += 1
                        continue
                    if all(x == '.' for x in lines[j].split('\t')):
                        follow.append(j)
                        j += 1
                        continue
                    break
                if act:
                    nx = min(act)
                    t = t + (nx - t) / (1 + len(follow))
        for k in range(len(f)):
            for (i2, k2) in links.get((i, k), []):
                e = ends.get((i, k))
                if e is not None:
                    ends[(i2, k2)] = max(e, ends.get((i2, k2), e))
    return times


FILES = {
    'one spine': '''
**kern
4c
4d
2e
*-''',
    'two staves and sides': '''
**kern **text **kern **dynam
*clefF4 * *clefG2 *
=1 =1 =1 =1
4C a 8e p
. . 8f .
2D b 4g <
!c ! !d !
. . 4a [
=2 =2 =2 =2
1E c 1b f
== == == ==
*- *- *- *-''',
    'split and join': '''
**kern **kern
*^ *
4C 8c 2g
. 8d .
4D 4e .
*v *v *
1F 1a
*- *-''',
    'split of the second spine': '''
**kern **kern
2F 4a
. 4b
* *^
4F 8a 4c
. 8b .
4G 4a 4d
* *v *v
1G 1a
*- *-''',
    'two splits at once': '''
**kern **kern **dynam
*^ *^ *
4C 4c 4e 4g p
*v *v * * *
* *v *v *
4C 4e f
*- *- *-''',
    'three voices': '''
**kern **text
*^ *
4c 4e x
*^ * *
4c 2d 4e .
4d . 4f y
*v *v *v *
4c z
*- *-''',
    'three voices, right-hand split': '''
**kern **kern
* *^
4c 4d 4e
* * *^
8c 4d 8e 16f
. . . 16g
8e . 8a 8b
* *v *v *v
4c 4d
*- *-''',
    'partial join': '''
**kern **kern
*^ *
*^ * *
4c 4d 4e 4f
* *v *v *
4c 4d 4f
*v *v *
4c 4d
*- *-''',
    'exchange': '''
**kern **dynam
4c p
*x *x
f 4d
*x *x
4e mf
*- *-''',
    'exchange of voices': '''
**kern **dynam **kern
*^ * *
4c 4d p 4e
* *x *x *
4c f 4d 8e
. . . 8f
* *x *x *
*v *v * *
4c p 4e
*- *- *-''',
    'added spine': '''
**kern **kern
4c 4d
*+ *
* **dynam *
8c p 4d
8d . .
*- *- *-''',
    'added at the end': '''
**kern
4c
*+
* **text
4c la
4d li
*- *-''',
    'early end of a spine': '''
**kern **kern
4c 4d
* *-
4e
4f
*-''',
    'early end of the first spine': '''
**kern **dynam **kern
4c p 4d
*- * *
. 4e
f 4f
*- *-''',
    'tuplets against duplets': '''
**kern **kern
4C 12c
. 12d
. 12e
8D 20f
. 20g
. 20a
8E .
. 20b
. 20cc
=2 =2
2F 6c
. 6d
. 6e
*- *-''',
    'dots': '''
**kern **kern
4.C 4c
. 8d
4D 8..e
. 32f
2F 4...g
. 32a
*- *-''',
    'grace notes': '''
**kern **kern
4C 4c
. 8qd
. 8qe
4D 4f
8qG 16qa
4E 4g
*- *-''',
    'pickup and bars': '''
**kern **kern
*M3/4 *M3/4
4C 8c
. 8d
=1 =1
2.D 4e
. 4f
. 4g
=2 =2
0E 1d
. 1e
=3 =3
*- *-''',
    'rational and long values': '''
**kern **kern
3%2C 1c
3%4D .
. 3%2d
. 3e
1E 1g
00F 00a
*- *-''',
    'null lines': '''
**kern **kern
4c 4d
. .
4e 2f
. .
. .
4g .
*- *-''',
    'comments and records': '''
!!!COM: Bach, J.S.
!!hello
**kern **text
!!!OTL: A
!a !b
4c x
!! y
4d .
*- *-
!!!ENC: me''',
    'rests and chords': '''
**kern **kern
4r 4c~4e~4g
8r 8c~8e
8A 8r
=2 =2
1r 1c
*- *-''',
    'subspine silence': '''
**kern **kern
2C 4e
. *
. 4f
*^ *
4C 4E 2g
*v *v *
4C .
*- *-'''.replace('. *\n', ''),
    'nothing yet': '''
**kern **color **kern **dynam
4c . 4e .
4d red 4f .
4e . 4g p
4f blue 2a .
4g . . .
*- *- *- *-''',
    'null after a split': '''
**kern **kern
4c 2d
* *^
4d . .
=2 =2 =2
4d 4e 4g
4d 4c 4f
* *v *v
4d 4e
*- *-''',
    'many spines': '''
**kern **dynam **text **text **kern **harm **kern
4C p a . 8e I 2g
. . . . 8f . .
4D . b c 4g V .
*- *- *- *- *- *- *-''',
    'nested splits both sides': '''
**kern **kern
*^ *^
* *^ *^ *
4c 4d 4e 4f 4g 4a
* *v *v *v *v *
4c 4d 4e 4f
*v *v *v *v
4c'''[:-3] + '''4c 4d
*- *-''',
    'split, exchange, join': '''
**kern **kern
*^ *
4c 4d 4e
*x *x *
4d 4c 4e
*v *v *
4c 4e
*- *-''',
}
FILES['nested splits both sides'] = '''
**kern **dynam **kern
*^ * *^
* *^ * *^ *
4c 4d 4e p 4f 4g 4a
* *v *v * *v *v *
4c 4d f 4e 4f
*v *v * *v *v
4c p 4d
*- *- *-'''


SLURS = {
    'simple': ('**kern\n(4c\n4d)\n*-', {'d': [('c', 1)]}),
    'nested': ('**kern\n(4c\n(4d\n4e)\n4f)\n*-', {'e': [('d', 1)], 'f': [('c', 1)]}),
    'two starts': ('**kern\n((4c\n4d)\n4e)\n*-', {'d': [('c', 2)], 'e': [('c', 1)]}),
    'three starts': ('**kern\n(((4c\n4d)\n4e)\n4f)\n*-', {'d': [('c', 3)], 'e': [('c', 2)], 'f': [('c', 1)]}),
    'two ends': ('**kern\n(4c\n(4d\n4e))\n*-', {'e': [('d', 1), ('c', 1)]}),
    'double': ('**kern\n((4c\n4d))\n*-', {'d': [('c', 2), ('c', 1)]}),
    'chain': ('**kern\n(4c\n(4d)\n4e)\n*-', {'d': [('c', 1)], 'e': [('d', 1)]}),
    'chain over bars': ('**kern\n(4c\n=\n(4d)\n=\n4e)\n*-', {'d': [('c', 1)], 'e': [('d', 1)]}),
    'elided': ('**kern\n(4c\n&(4d\n4e)\n4f&)\n*-', {'e': [('c', 1)], 'f': [('d', 1)]}),
    'elided nested': ('**kern\n&(4c\n(4d\n4e)\n4f&)\n*-', {'e': [('d', 1)], 'f': [('c', 1)]}),
    'two levels on one note': ('**kern\n(&(4c\n4d)\n4e&)\n*-', {'d': [('c', 2)], 'e': [('c', 1)]}),
    'staves': ('**kern **kern\n(4C (4e\n4D) 4f\n4E 4g)\n*- *-', {'D': [('C', 1)], 'g': [('e', 1)]}),
    'voices': ('**kern\n*^\n(4c (4C\n4d) 4D\n4e 4E)\n*v *v\n*-', {'d': [('c', 1)], 'E': [('C', 1)]}),
    'starts before a split': ('**kern\n(4c\n*^\n4d) 4D\n*v *v\n*-', {'d': [('c', 1)]}),
    'starts before a split, ends in the second voice': ('**kern\n(4c\n*^\n4d 4D)\n*v *v\n*-', {'D': [('c', 1)]}),
    'ends after a join': ('**kern\n*^\n4c (4C\n*v *v\n4d)\n*-', {'d': [('C', 1)]}),
    'crosses voices': ('**kern\n*^\n(4c 4C\n4d 4D)\n*v *v\n*-', {'D': [('c', 1)]}),
    'own voice first': ('**kern\n*^\n(4c (4C\n4d 4D)\n4e) 4E\n*v *v\n*-', {'D': [('C', 1)], 'e': [('c', 1)]}),
    'chord': ('**kern\n(4c~4e\n4d~4f)\n*-', {'df': [('ce', 1)]}),
    'grace': ('**kern\n(8qc\n4d)\n*-', {'d': [('c', 1)]}),
    'placed': ('!!!RDF**kern: > = above\n**kern\n(>4c\n4d)\n*-', {'d': [('c', 1)]}),
    'end without start': ('**kern\n4c)\n4d\n*-', {}),
    'start without end': ('**kern\n(4c\n4d\n*-', {}),
    'linked across staves': ('!!!RDF**kern: N = linked\n**kern **kern\nN(4C 4e\n4D 4fN)\n*- *-', {'f': [('C', 1)]}),
    'linked beside an ordinary one': ('!!!RDF**kern: N = linked\n**kern **kern\n(4CN( 4e\n4D) 4fN)\n*- *-',
                                      {'D': [('C', 2)], 'f': [('C', 1)]}),
    'linked and ordinary in the other staff': ('!!!RDF**kern: N = linked\n**kern **kern\nN(4C (4e\n4D 4f)\n4E 4gN)\n*- *-',
                                               {'f': [('e', 1)], 'g': [('C', 1)]}),
    'phrases do not count': ('**kern\n{(4c\n4d)\n4e}\n*-', {'d': [('c', 1)]}),
}

TIES = {
    'across staves': ('!!!RDF**kern: N = linked\n**kern **kern\nN[4c 4g\n4d 4cN]\n*- *-', {'4cN]': ('N[4c', 1, True)}),
    'by pitch': ('!!!RDF**kern: N = linked\n**kern **kern\nN[4c N[4g\n4gN] 4cN]\n*- *-',
                 {'4gN]': ('N[4g', 1, True), '4cN]': ('N[4c', 1, True)}),
    'continued': ('!!!RDF**kern: N = linked\n**kern **kern\nN[4c 4g\n4d 4cN_\n4cN] 4g\n*- *-',
                  {'4cN_': ('N[4c', 1, True), '4cN]': ('4cN_', 1, True)}),
    'from a chord': ('!!!RDF**kern: N = linked\n**kern **kern\n4e~N[4c 4g\n4d 4cN]\n*- *-', {'4cN]': ('4e N[4c', 2, True)}),
    'into a chord': ('!!!RDF**kern: N = linked\n**kern **kern\nN[4c 4g\n4d 4e~4cN]\n*- *-', {'4e 4cN]/2': ('N[4c', 1, True)}),
    'other pitch': ('!!!RDF**kern: N = linked\n**kern **kern\nN[4c 4g\n4d 4c#N]\n*- *-', {}),
    'unlinked ones are not touched': ('!!!RDF**kern: N = linked\n**kern **kern\n[4c 4g\n4c] 4g\n*- *-', {}),
}

ACCIDS = {
    'tie over the bar': ('**kern\n=1\n[4f#\n=2\n4f#]\n4f#\n4f#\n=3\n*-', [1, 0, 1, 0]),
    'tie inside the bar': ('**kern\n=1\n[4f#\n4f#]\n4f#\n4f\n=2\n*-', [1, 0, 0, 1]),
    'octaves are separate': ('**kern\n=1\n4f#\n4ff#\n4F#\n4f#\n4ff\n=2\n*-', [1, 1, 1, 0, 1]),
    'staves are separate': ('**kern **kern\n=1 =1\n4f# 4f\n4f# 4f#\n4f 4f\n=2 =2\n*- *-', [1, 0, 0, 1, 1, 1]),
    'voices share': ('**kern\n=1\n*^\n4f# 4a\n4g 4f#\n*v *v\n4f\n=2\n*-', [1, 0, 0, 0, 1]),
    'unison in two voices': ('**kern\n=1\n*^\n4f# 4f#\n*v *v\n4f#\n=2\n*-', [1, 1, 0]),
    'chord': ('**kern\n=1\n4f#~4a-\n4f#~4a\n=2\n*-', [1, 1, 0, 1]),
    'key change': ('**kern\n*k[f#]\n=1\n4f#\n4f\n*k[]\n4f\n4f#\n=2\n4f\n4f#\n=3\n*-', [0, 1, 0, 1, 0, 1]),
    'keys of two staves': ('**kern **kern\n*k[f#] *k[b-]\n=1 =1\n4f# 4b-\n4f 4b\n=2 =2\n4f# 4f#\n*- *-', [0, 0, 1, 1, 0, 1]),
    'editorial': ('!!!RDF**kern: i = editorial accidental\n**kern\n*k[f#]\n=1\n4f#i\n4f#\n=2\n*-', [1, 0]),
    'invisible barline': ('**kern\n=1\n4f#\n=2-\n4f#\n=3\n4f#\n=4\n*-', [1, 0, 1]),
    'grace does not count for notes': ('**kern\n=1\n8qf#\n4f#\n4f#\n=2\n*-', [1, 1, 0]),
    'hidden natural': ('**kern\n=1\n4fny\n4fn\n=2\n*-', [0, 1]),
    'asked for on a tied note': ('**kern\n=1\n[4f#\n=2\n4f#X]\n=3\n*-', [1, 1]),
}

LAYOUTS = {
    'note': ('**kern **kern\n!LO:N:a !\n4c 4d\n4e 4f\n*- *-', {(3, 1): ['N:a']}),
    'second spine': ('**kern **kern\n! !LO:N:a\n4c 4d\n4e 4f\n*- *-', {(3, 2): ['N:a']}),
    'two in a row': ('**kern **kern\n!LO:N:a !\n!LO:S:b !LO:TX:c\n4c 4d\n*- *-', {(4, 1): ['N:a', 'S:b'], (4, 2): ['TX:c']}),
    'barline': ('**kern\n4c\n!LO:N:a\n=2\n4d\n*-', {(4, 1): ['N:a']}),
    'clef': ('**kern\n!LO:N:a\n*clefG2\n4d\n*-', {(3, 1): ['N:a']}),
    'past a null interpretation': ('**kern **kern\n!LO:N:a !\n* *clefF4\n4c 4d\n*- *-', {(4, 1): ['N:a']}),
    'past a split': ('**kern **kern\n!LO:N:a !\n*^ *\n4c 4e 4d\n*v *v *\n*- *-', {(4, 1): ['N:a']}),
    'in a voice': ('**kern\n*^\n! !LO:N:a\n4c 4e\n*v *v\n*-', {(4, 2): ['N:a']}),
    'past an exchange': ('**kern **dynam\n!LO:N:a !LO:DY:b\n*x *x\np 4c\n*x *x\n4d .\n*- *-', {(4, 1): ['DY:b'], (4, 2): ['N:a']}),
    'null token': ('**kern **kern\n2c 4d\n!LO:N:a !\n. 4e\n4f 4g\n*- *-', {(4, 1): ['N:a']}),
    'global': ('**kern **kern\n!!LO:N:a\n4c 4d\n4e 4f\n*- *-', {(3, 1): ['N:a'], (3, 2): ['N:a']}),
    'global past a comment': ('**kern **kern\n!!LO:N:a\n!x !\n4c 4d\n*- *-', {(4, 1): ['N:a'], (4, 2): ['N:a']}),
    'other comments': ('**kern **kern\n!hello !LOX\n4c 4d\n*- *-', {}),
}

RD = '!!!RDF**kern: '
SIGNIFIERS = [
    (RD + '> = above', {'above': '>'}), (RD + '< = below', {'below': '<'}), (RD + '^=above', {'above': '^'}),
    ('!!!RDF**kern:>=above', {'above': '>'}), (RD + ' N = linked ', {'linked': 'N'}), (RD + 'N = link', {'linked': 'N'}),
    (RD + 'i = no stem', {'noStem': 'i'}), (RD + '! = cue size', {'cueSize': '!'}), (RD + 'j = hairpin accent', {'hairpinAccent': 'j'}),
    (RD + 'l = terminal long', {'terminalLong': 'l'}), (RD + 'l = long note', {'terminalLong': 'l'}),
    (RD + '| = vertical stroke', {'verticalStroke': '|'}),
    (RD + 'i = editorial accidental', {'editorialAccidentals': ('i',), 'editorialAccidentalTypes': ('',)}),
    (RD + 'i = editorial accidental, brackets', {'editorialAccidentals': ('i',), 'editorialAccidentalTypes': ('brack',)}),
    (RD + 'i = editorial accidental, paren', {'editorialAccidentals': ('i',), 'editorialAccidentalTypes': ('paren',)}),
    ((RD + 'i = editorial accidental', RD + 'j = editorial accidental, brack'),
     {'editorialAccidentals': ('i', 'j'), 'editorialAccidentalTypes': ('', 'brack')}),
    (RD + 'i = marked note', {'noteMarks': ('i',), 'noteColors': ('red',), 'noteDirs': ('',)}),
    (RD + 'i = marked note, color="#553325"', {'noteMarks': ('i',), 'noteColors': ('#553325',), 'noteDirs': ('',)}),
    (RD + 'i = matched note, color=blue', {'noteMarks': ('i',), 'noteColors': ('blue',), 'noteDirs': ('',)}),
    (RD + 'i = color="blue"', {'noteMarks': ('i',), 'noteColors': ('blue',), 'noteDirs': ('',)}),
    (RD + 'i = marked note, color="green", text="print this"', {'noteMarks': ('i',), 'noteColors': ('green',), 'noteDirs': ('print this',)}),
    ((RD + 'i = marked note', RD + 'j = marked note, color=blue'),
     {'noteMarks': ('i', 'j'), 'noteColors': ('red', 'blue'), 'noteDirs': ('', '')}),
    (RD + 'show spaces', {'spaceColor': 'hotpink'}), (RD + 'show spaces color=green', {'spaceColor': 'green'}),
    (RD + 'show invisible rests', {'irestColor': 'chartreuse'}), (RD + 'show implicit spaces', {'ispaceColor': 'blueviolet'}),
    (RD + 'show recip spaces color=red', {'rspaceColor': 'red'}),
    ('!!!RDF**text: i = marked text', {'textMarks': ('i',), 'textColors': ('red',)}),
    ('!!!RDF**silbe: i = matched text, color=blue', {'textMarks': ('i',), 'textColors': ('blue',)}),
    (('!!!RDF**text: i = marked text', '!!!RDF**text: j = marked text color=#123456'),
     {'textMarks': ('i', 'j'), 'textColors': ('red', '#123456')}),
    ('!!!RDF**dynam: > = "decresc."', {'decrescText': 'decresc.'}),
    ('!!!RDF**dynam: < = cresc.', {'crescText': 'cresc.'}),
    ('!!!RDF**dynam: < = "poco cresc." fontstyle=italic', {'crescText': 'poco cresc.', 'crescFontStyle': 'italic'}),
    ('!!!RDF**dynam: > = "dim." fontstyle="bold"', {'decrescText': 'dim.', 'decrescFontStyle': 'bold'}),
    ((RD + '> = above', RD + '< = below', RD + 'N = linked', '!!!RDF**text: > = marked text'),
     {'above': '>', 'below': '<', 'linked': 'N', 'textMarks': ('>',), 'textColors': ('red',)}),
    ('!!!RDF**mens: > = above', {}), (RD + 'z = something else', {}),
]


def run(rep):
    ip = new_ip(max_steps=6000000, max_paths=20)
    d = ip.deref
    cache = {}

    def load(name, text):
        """the file as read, or None when not decided"""
        if name not in cache:
            try:
                o = ip.explore(lambda: HF(ip, text))
            except Budget:
                o = []
            cache[name] = o[0].value if len(o) == 1 and o[0].kind == 'return' else (
                ('raise', o[0].value.name) if len(o) == 1 and o[0].kind == 'raise' else None)
        return cache[name]

    def each(fn, files):
        for name, src in files.items():
            text = T(src) if not src.startswith('**') else src
            h = load(name, text)
            if h is None:
                rep.unsure(name, 'not decided')
            elif isinstance(h, tuple):
                rep.bad(name, 'HumdrumFileContent.readString', f'reading it raises {h[1]}')
            else:
                fn(name, text, h)

    def known(*vs):
        return not any(isinstance(v, Unk) for v in vs)

    # ------------------------------------------------------------------ spines
    def spines():
        def one(name, text, h):
            rows, links = spine_rules(text)
            rep.expect(h.valid is True, f'{name}: accepted', 'HumdrumFileBase.readString', f'valid is {h.valid}')
            if h.valid is not True:
                return
            for i, row in enumerate(rows):
                if row is None:
                    continue
                for j, (tr, st, dt) in enumerate(row):
                    t = h.tok(i, j)
                    g = (h.get(t, 'track'), h.get(t, 'subTrack'))
                    dd = h.get(t, 'dataType')
                    dd = h.text(dd) if isinstance(dd, Obj) else dd
                    inst = f'{name}: spine of field {j + 1} in line {i + 1}'
                    if not known(*g, dd):
                        rep.unsure(inst, str(g))
                        continue
                    rep.expect(g == (tr, st) and dd == dt, inst, 'HumdrumFileBase.analyzeSpines',
                               f'{h.text(t)!r} is in track {g}, type {dd!r}; expected {(tr, st)}, {dt!r}')
        each(one, FILES)
    rep.family('spine', 'every token is in the spine and sub-spine, and has the data type, that the manipulators before it give',
               spines, 300)

    def links():
        def one(name, text, h):
            rows, lk = spine_rules(text)
            if h.valid is not True:
                return
            back = {}
            for a, bs in lk.items():
                for b in bs:
                    back.setdefault(b, []).append(a)
            for i, row in enumerate(rows):
                if row is None:
                    continue
                for j in range(len(row)):
                    t = h.tok(i, j)
                    nx, pv = d(h.get(t, 'nextTokens')), d(h.get(t, 'previousTokens'))
                    inst = f'{name}: links of field {j + 1} in line {i + 1}'
                    if not isinstance(nx, AList) or not isinstance(pv, AList) or nx.open or pv.open:
                        rep.unsure(inst, 'unknown links')
                        continue
                    n, p = [h.pos(x) for x in nx.v], [h.pos(x) for x in pv.v]
                    rep.expect(n == lk[(i, j)], inst + ' (next)', 'HumdrumFileBase.stitchLinesTogether',
                               f'{h.text(t)!r} is followed by {n}; expected {lk[(i, j)]}')
                    rep.expect(p == back.get((i, j), []), inst + ' (previous)', 'HumdrumFileBase.stitchLinesTogether',
                               f'{h.text(t)!r} is preceded by {p}; expected {back.get((i, j), [])}')
        each(one, FILES)
    rep.family('link', 'every token is linked to the tokens before and after it in its spine, and to no others', links, 600)

    # ------------------------------------------------------------------ time
    def times():
        def one(name, text, h):
            rows, lk = spine_rules(text)
            if h.valid is not True:
                return
            tm = time_rules(text, rows, lk)
            lines = text.rstrip('\n').split('\n')
            end = max(x for x in tm if x is not None)
            bars = [i for i, l in enumerate(lines) if l.startswith('=')]
            for i, l in enumerate(lines):
                if tm[i] is None:
                    continue
                inst = f'{name}: time of line {i + 1}'
                v = h.get(h.lines[i], 'durationFromStart')
                if not isinstance(v, (int, float, Fraction)):
                    rep.unsure(inst, str(v))
                    continue
                rep.expect(Fraction(v).limit_denominator(10000) == tm[i], inst, 'HumdrumFileStructure.analyzeRhythm',
                           f'starts at {v}; expected {tm[i]}')
                if l[0] in '*=!':
                    continue
                prev = max([tm[b] for b in bars if b < i], default=Fraction(0))
                nxt = min([tm[b] for b in bars if b > i], default=end)
                v1, v2 = h.get(h.lines[i], 'durationFromBarline'), h.get(h.lines[i], 'durationToBarline')
                if isinstance(v1, (int, float, Fraction)):
                    rep.expect(Fraction(v1).limit_denominator(10000) == tm[i] - prev, inst + ' in its bar',
                               'HumdrumFileStructure.analyzeMeter', f'{v1} after the barline; expected {tm[i] - prev}')
                if isinstance(v2, (int, float, Fraction)) and bars and bars[-1] > i:
                    rep.expect(Fraction(v2).limit_denominator(10000) == nxt - tm[i], inst + ' to its barline',
                               'HumdrumFileStructure.analyzeMeter', f'{v2} before the barline; expected {nxt - tm[i]}')
                v = h.get(h.lines[i], 'duration')
                if isinstance(v, (int, float, Fraction)):
                    later = [tm[k] for k in range(i + 1, len(lines)) if tm[k] is not None and lines[k][0] not in '*=!']
                    want = (later[0] if later else end) - tm[i]
                    rep.expect(Fraction(v).limit_denominator(10000) == want, inst + ' until the next',
                               'HumdrumFileStructure.analyzeRhythm', f'lasts {v}; expected {want}')
                for j, x in enumerate(l.split('\t')):
                    t = h.tok(i, j)
                    dv = h.get(t, 'duration')
                    if not isinstance(dv, (int, float, Fraction)):
                        rep.unsure(f'{inst}, field {j + 1}', str(dv))
                    elif x != '.' and rows[i][j][2] == '**kern':
                        rep.expect(Fraction(dv).limit_denominator(10000) == dur(x.split(' ')[0]),
                                   f'{name}: duration of field {j + 1} in line {i + 1}',
                                   'HumdrumToken.analyzeDuration', f'{x!r} lasts {dv}; expected {dur(x.split(" ")[0])}')
        each(one, FILES)
    rep.family('time', 'every line starts at the exact time the durations before it add up to', times, 300)

    # ------------------------------------------------------------------ null tokens
    def nulls():
        def one(name, text, h):
            rows, lk = spine_rules(text)
            if h.valid is not True:
                return
            lines = text.rstrip('\n').split('\n')
            cur = {}
            back = {}
            for a, bs in lk.items():
                for b in bs:
                    back.setdefault(b, []).append(a)
            last = {}
            for i, row in enumerate(rows):
                if row is None:
                    continue
                f = lines[i].split('\t')
                for j, x in enumerate(f):
                    got = [last[a] for a in back.get((i, j), []) if last.get(a)]
                    cur_ = got[0] if got else None
                    if lines[i][0] not in '*=!':
                        if x == '.':
                            t = h.tok(i, j)
                            inst = f'{name}: null field {j + 1} of line {i + 1}'
                            r = h.get(t, 'nullResolution')
                            if not isinstance(r, Obj):
                                rep.unsure(inst, str(r))
                            elif cur_ is None or len(back.get((i, j), [])) == 1 and (
                                    len(lk[back[(i, j)][0]]) > 1 and lk[back[(i, j)][0]][0] != (i, j)):
                                # nothing before it, or just after a split: nothing, or the note it continues
                                rep.expect(h.text(r) == '.' or h.pos(r) == cur_, inst, 'HumdrumFileStructure.resolveNullTokens',
                                           f'stands for {h.pos(r)}, which is not before it in its spine')
                            elif len(set(got)) <= 1:
                                rep.expect(h.pos(r) == cur_, inst, 'HumdrumFileStructure.resolveNullTokens',
                                           f'stands for {h.pos(r)}; expected {cur_}')
                        else:
                            cur_ = (i, j)
                    last[(i, j)] = cur_
        each(one, FILES)
    rep.family('null', 'a null token stands for the last token before it in its spine', nulls, 30)

    # ------------------------------------------------------------------ slurs
    def slurs():
        for name, (src, want) in SLURS.items():
            text = T(src)
            h = load('slur ' + name, text)
            if h is None or isinstance(h, tuple):
                (rep.unsure(name, 'not decided') if h is None else
                 rep.bad(f'slur {name}', 'HumdrumFileContent.analyzeSlurs', f'raises {h[1]}'))
                continue
            got, unk = {}, False
            for i in range(len(h.lines)):
                for t in h.toks(i):
                    n = h.tm(t, 'getValueInt', 'auto', 'slurEndCount')
                    if not isinstance(n, int):
                        unk = True
                        continue
                    for k in range(1, n + 1):
                        st, num = h.tm(t, 'getSlurStartToken', k), h.tm(t, 'getSlurStartNumber', k)
                        if isinstance(st, Unk) or isinstance(num, Unk):
                            unk = True
                            continue
                        key = lambda x: ''.join(c for c in h.text(x) if c in 'abcdefgABCDEFG')
                        got.setdefault(key(t), []).append((key(st), num) if isinstance(st, Obj) else None)
            if unk:
                rep.unsure(f'slur {name}', 'unknown ends')
                continue
            rep.expect(got == want, f'slur {name}', 'HumdrumFileContent.analyzeSpineSlursOrPhrases',
                       f'ends are matched as {got}; expected {want}')
    rep.family('slur-match', 'every slur end is matched with its own start, and with the right one of several', slurs, 20)

    def linkties():
        for name, (src, want) in TIES.items():
            h = load('tie ' + name, T(src))
            if h is None or isinstance(h, tuple):
                (rep.unsure(name, 'not decided') if h is None else
                 rep.bad(f'tie {name}', 'HumdrumFileContent.analyzeKernTies', f'raises {h[1]}'))
                continue
            got = {}
            for i in range(len(h.lines)):
                for t in h.toks(i):
                    for suf in ('', '1', '2', '3'):
                        st = h.tm(t, 'getValueToken', 'auto', 'tieStart' + suf)
                        if isinstance(st, Obj):
                            sn = h.tm(t, 'getValueInt', 'auto', 'tieStartSubtokenNumber' + suf)
                            back = [x for x in ('', '1', '2', '3') if h.tm(st, 'getValueToken', 'auto', 'tieEnd' + x) is t]
                            got[h.text(t) + ('/' + suf if suf else '')] = (h.text(st), sn, bool(back))
            rep.expect(got == want, f'linked tie {name}', 'HumdrumFileContent.generateLinkedTieStartsAndEnds',
                       f'{got}; expected {want}')
    rep.family('linked-tie', 'tie ends marked as linked are matched with the open tie of their own pitch', linkties, 5)

    # ------------------------------------------------------------------ accidentals
    NAT = dict(c=0, d=2, e=4, f=5, g=7, a=9, b=11)

    def accids():
        variants = ['f', 'f#', 'f-', 'fn', 'f#X', 'ff#', 'f##']
        three = ['f', 'f#', 'fn', 'f-']
        measures = [[a, b] for a in variants for b in variants] + [[a, b, c] for a in three for b in three for c in three[:2]]
        for kname, ks in (('none', {}), ('f#', {'f': 1}), ('f#c#', {'f': 1, 'c': 1}), ('b-e-a-d-g-c-f-', {x: -1 for x in 'abcdefg'})):
            mine = measures if kname in ('none', 'f#') else measures[:49]
            for part in range(0, len(mine), 27):
                ms = mine[part:part + 27]
                text = '**kern\n*k[' + ('' if kname == 'none' else kname) + ']\n=1\n' + ''.join(
                    ''.join('4' + n + '\n' for n in m) + '=\n' for m in ms) + '*-\n'
                h = load(f'acc {kname} {part}', text)
                if h is None or isinstance(h, tuple):
                    rep.unsure(f'accidentals {kname} {part}', 'not decided')
                    continue
                li = 3
                for m in ms:
                    state = {}
                    for n in m:
                        step = n.rstrip('#-nX')
                        acc = n.count('#') - n.count('-')
                        cur = state.get(step, ks.get(step[0], 0))
                        show = acc != cur or 'n' in n or 'X' in n
                        state[step] = acc
                        got = h.tm(h.tok(li, 0), 'hasVisibleAccidental', 0)
                        inst = f'key {kname}: {n} in measure {" ".join(m)} (line {li + 1})'
                        if isinstance(got, Unk):
                            rep.unsure(inst, 'unknown')
                        else:
                            rep.expect(bool(got) == show, inst, 'HumdrumFileContent.analyzeKernAccidentals',
                                       f'accidental shown: {got}; expected {show}')
                        li += 1
                    li += 1
        for name, (src, want) in ACCIDS.items():
            h = load('acc ' + name, T(src))
            if h is None or isinstance(h, tuple):
                rep.unsure(f'accidental {name}', 'not decided')
                continue
            got = []
            for i in range(len(h.lines)):
                for t in h.toks(i):
                    x = h.text(t)
                    if x[0] in '*=!.' or 'r' in x or not re.search('[a-gA-G]', x):
                        continue
                    for k in range(len(x.split(' '))):
                        got.append(1 if h.tm(t, 'hasVisibleAccidental', k) else 0)
            rep.expect(got == want, f'accidental {name}', 'HumdrumFileContent.analyzeKernAccidentals',
                       f'accidentals shown: {got}; expected {want}')
    rep.family('accidental', 'an accidental is shown where the key and the measure so far do not give it, or where it is asked for',
               accids, 400)

    def ornaments():
        order = 'cdefgab'

        def neighbour(step, acc, up, major):
            k = order.index(step) + (1 if up else -1)
            o = order[k % 7]
            dist = (NAT[o] - NAT[step]) % 12 if up else (NAT[step] - NAT[o]) % 12
            want = 2 if major else 1
            a = acc + (want - dist) if up else acc - (want - dist)
            return o, a
        cases = []
        for sign, kind, up, major in (('t', 'trill', True, False), ('T', 'trill', True, True), ('m', 'mordent', True, False),
                                      ('M', 'mordent', True, True), ('w', 'mordent', False, False),
                                      ('W', 'mordent', False, True)):
            for p in ('d', 'e', 'f', 'b', 'c#', 'e-', 'f#', 'a', 'g', 'b-'):
                cases.append((sign, kind, up, major, p))
        for kname, ks in (('none', {}), ('f#c#', {'f': 1, 'c': 1}), ('b-e-a-', {'b': -1, 'e': -1, 'a': -1})):
            text = '**kern\n*k[' + ('' if kname == 'none' else kname) + ']\n=1\n' + ''.join(
                f'4{p}{sign}\n=\n' for sign, kind, up, major, p in cases) + '*-\n'
            h = load('orn ' + kname, text)
            if h is None or isinstance(h, tuple):
                rep.unsure(f'ornaments {kname}', 'not decided')
                continue
            for n, (sign, kind, up, major, p) in enumerate(cases):
                o, a = neighbour(p[0], p.count('#') - p.count('-'), up, major)
                t = h.tok(3 + 2 * n, 0)
                vis = h.val(t, 'auto', '0', kind + 'Accidental.vis')
                ges = h.val(t, 'auto', '0', kind + 'Accidental.ges')
                inst = f'key {kname}: {p}{sign}'
                if isinstance(vis, Unk) or isinstance(ges, Unk):
                    rep.unsure(inst, 'unknown')
                    continue
                shown = a != ks.get(o, 0)
                rep.expect((vis, ges) == ((str(a), None) if shown else (None, str(a))), inst,
                           'HumdrumFileContent.analyzeKernAccidentals',
                           f'other note: shown {vis}, implied {ges}; expected {a} {"shown" if shown else "implied"}')
    rep.family('ornament-accidental', 'the other note of a trill or mordent has the alteration its interval needs, shown where '
               'the key does not give it', ornaments, 100)

    # ------------------------------------------------------------------ layout comments
    def layouts():
        for name, (src, want) in LAYOUTS.items():
            h = load('lo ' + name, T(src))
            if h is None or isinstance(h, tuple):
                (rep.unsure(name, 'not decided') if h is None else
                 rep.bad(f'layout {name}', 'HumdrumFileStructure.analyzeLocalParameters', f'raises {h[1]}'))
                continue
            got, unk = {}, False
            for i in range(len(h.lines)):
                for j, t in enumerate(h.toks(i)):
                    n = h.get(t, 'linkedParameterSetCount')
                    if not isinstance(n, int):
                        unk = True
                        continue
                    for k in range(n):
                        ps = h.tm(t, 'getLinkedParameterSet', k)
                        if not isinstance(ps, Obj):
                            unk = True
                            continue
                        got.setdefault((i + 1, j + 1), []).append(h.val2(ps))
                    got.get((i + 1, j + 1), []).sort()
            if unk:
                rep.unsure(f'layout {name}', 'unknown')
                continue
            rep.expect(got == want, f'layout {name}', 'HumdrumFileStructure.processLocalParametersForStrand',
                       f'layout comments go to {got}; expected {want}')
    rep.family('layout-link', 'a layout comment applies to the next note, barline or interpretation of its own spine', layouts, 8)

    # ------------------------------------------------------------------ signifiers
    def signifiers():
        blank = {}

        def one(*lines):
            o = ip.instantiate(ip.cls('HumSignifiers'), [], {})
            for l in lines:
                f = ip.fn('HumSignifiers', 'addSignifier')
                ip.call(FuncRef(f.node, f.mod, f.cls, o), [l], {})
            f = ip.fn('HumSignifiers', 'generateKnownInfo')
            ip.call(FuncRef(f.node, f.mod, f.cls, o), [], {})
            out = {}
            for k, v in d(o).attrs.items():
                if k == '_signifiers':
                    continue
                v = d(v)
                v = tuple(v.v) if isinstance(v, AList) else v
                if v not in ('', (), False, None):
                    out[k] = v
            return tuple(sorted(out.items(), key=str))
        for lines, want in SIGNIFIERS:
            lines = (lines,) if isinstance(lines, str) else lines
            judge(rep, ip, f'signifier {" + ".join(lines)}', 'HumSignifiers.generateKnownInfo', lambda: one(*lines),
                  lambda r: r == tuple(sorted(want.items(), key=str)), f'expected {want}')
    rep.family('signifier', 'every user-defined signifier is recognised for what its definition says', signifiers, 25)

    # ------------------------------------------------------------------ states in force
    def states():
        def vals(name, src, *keys):
            h = load('st ' + name, T(src))
            if h is None or isinstance(h, tuple):
                rep.unsure(name, 'not decided')
                return None
            out = {}
            for i in range(len(h.lines)):
                for j, t in enumerate(h.toks(i)):
                    v = h.val(t, *keys)
                    if v is not None:
                        out[(i + 1, j + 1)] = v
            return out

        def chk(name, src, keys, want, where):
            g = vals(name, src, *keys)
            if g is None:
                return
            if any(isinstance(v, Unk) for v in g.values()):
                rep.unsure(name, str(g))
                return
            rep.expect(g == want, name, where, f'{g}; expected {want}')
        for sig, v in (('*8va', 1), ('*8ba', -1), ('*15ma', 2), ('*15ba', -2)):
            chk(f'{sig} in force', f'**kern **kern\n4c 4d\n{sig} *\n4c 4d\n4e .\n*X{sig[1:]} *\n4c 4d\n*- *-', ('auto', 'ottava'),
                {(4, 1): str(v), (5, 1): str(v)}, 'HumdrumFileContent.analyzeOttavas')
        chk('two ottavas', '**kern **kern\n*8va *15ba\n4c 4d\n*X8va *\n4c 4d\n* *X15ba\n4c 4d\n*- *-', ('auto', 'ottava'),
            {(3, 1): '1', (3, 2): '-2', (5, 2): '-2'}, 'HumdrumFileContent.analyzeOttavas')
        chk('italic text', '**kern **text\n4c a\n* *ij\n4c b\n4d .\n4d c\n* *Xij\n4c d\n*- *-', ('auto', 'ij'),
            {(4, 2): 'true', (6, 2): 'true'}, 'HumdrumFileContent.analyzeTextRepetition')
        chk('clef for all voices', '**kern **kern\n*^ *\n4c 4d 4e\n*clefF4 * *\n4c 4d 4e\n*v *v *\n*- *-', ('auto', 'clef'),
            {(4, 2): '*clefF4'}, 'HumdrumFileContent.markAdjacentNullsWithClef')
        chk('clef in the second voice', '**kern **kern\n* *^\n4c 4d 4e\n* * *clefF4\n4c 4d 4e\n* *v *v\n*- *-', ('auto', 'clef'),
            {(4, 2): '*clefF4'}, 'HumdrumFileContent.markAdjacentNullsWithClef')
        for sc, tok, vis in (('1/2', '4c', '8'), ('2', '4c', '2'), ('1/4', '2.c', '8.'), ('4', '8.c', '2.'), ('1/2', '1c', '2')):
            chk(f'rscale {sc} {tok}', f'**kern **kern\n{tok} {tok}\n*rscale:{sc} *\n{tok} {tok}\n*rscale:1 *\n{tok} {tok}\n*- *-',
                ('LO', 'N', 'vis'), {(4, 1): vis}, 'HumdrumFileContent.analyzeRScale')
        for clef, base in (('G2', 'e'), ('F4', 'GG'), ('C3', 'F')):
            for step, pos in (('middle', 0), ('below', -2), ('above', 2), ('bottom', -4), ('top', 4)):
                names = []
                for o, f_ in ((2, lambda x: x.upper() * 2), (3, str.upper), (4, str.lower), (5, lambda x: x * 2)):
                    names += [(f_(x)) for x in 'cdefgab']
                k = names.index(base) + 4 + pos
                chk(f'rest at {step} of {clef}', f'**kern\n*clef{clef}\n4r{names[k]}\n*-', ('auto', 'stepShift'),
                    {(3, 1): str(pos)}, 'HumdrumFileContent._checkRestForVerticalPositioning')

        def colors(name, src, want):
            h = load('st ' + name, T(src))
            if h is None or isinstance(h, tuple):
                rep.unsure(name, 'not decided')
                return
            rows = d(d(h.obj).attrs['_spineColor'])
            got = {}
            for i, r in enumerate(rows.v):
                v = d(d(r).v[0])
                if v:
                    got[i] = v
            rep.expect(got == want, name, 'HumdrumFileContent.initializeSpineColor', f'{got}; expected {want}')
        colors('color of the first spine', '**kern **kern\n*color:red *\n4c 4d\n*- *-', {1: 'red'})
        colors('color of the second spine', '**kern **kern\n* *color:blue\n4c 4d\n*- *-', {2: 'blue'})
        colors('two colors', '**kern **dynam **kern\n*color:red * *color:#00ff00\n4c p 4d\n*- *- *-', {1: 'red', 3: '#00ff00'})
        for up in ('>', '^', '+', '|'):
            chk(f'cross-staff stems, signifier {up}', f'!!!RDF**kern: {up} = above\n**kern **kern\n4c 4d\n4c{up} 4d\n4e 4f\n*- *-',
                ('auto', 'stem.dir'), {(4, 1): '-1', (4, 2): '1'}, 'HumdrumFileContent.checkDataForCrossStaffStems')
        for dn in ('<', '?', 'N'):
            chk(f'cross-staff stems, signifier {dn}', f'!!!RDF**kern: {dn} = below\n**kern **kern\n4c 4d\n4c 2d{dn}\n4e .\n4g 4g\n*- *-',
                ('auto', 'stem.dir'), {(4, 2): '1', (4, 1): '-1', (5, 1): '-1'},
                'HumdrumFileContent.checkDataForCrossStaffStems')
    rep.family('state', 'ottavas, rhythmic scaling, colors, clefs and repetition marks apply to the notes of their own spine while '
               'they are in force', states, 30)
    rep.use(ip)
