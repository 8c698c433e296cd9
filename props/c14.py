"""C14: the score read from a Humdrum file has the notes, measures, voices, tuplets, beams, ties, slurs, ottavas, dynamics,
signatures, barlines and staff groups which the file spells.

Deciding step: the Humdrum reader (HumdrumFile.createMusic21Stream and everything below it) is interpreted abstractly on file
skeletons.  music21's containers, notes and durations are a model in sa/stubs/music21 (analysed like the repository's own code,
never run); its simple modules are interpreted from their source.  The resulting abstract score is read off as a set of
statements, and those are compared with what an independent statement of the Humdrum notation rules (below) says the file
contains.  A statement with an unknown in it decides nothing."""
from __future__ import annotations
import json
import os
import sys
import tempfile
import time
from props.common import *
from props.humf import HF
from props.m21h import install, View, _real_names
from props.facts import Facts, UNK
from props.c14cases import families

EXPLANATION = ('abstract interpretation of HumdrumFile.createMusic21Stream on file skeletons, with music21 modelled; the notes, '
               'times, durations, tuplets, beams, ties, spanners, signatures, barlines and groups of the abstract score are '
               'compared with those which the notation rules give for the file')


def text_of(src):
    return src.replace(' ', '\t').replace('~', ' ').replace('§', '~') + '\n'


def humdrum(ip, src):
    return HF(ip, text_of(src), 'HumdrumFile', notation=False).m('createMusic21Stream')


def analyse(src, read=humdrum):
    return outcome(src, read)


def outcome(src, read, steps=4000000):
    """('facts', {aspect: [...]}) | ('raise', name, where) | ('undecided', why), visited functions"""
    ip = new_ip(max_steps=steps, max_paths=4)
    install(ip)
    V = View(ip)

    def th():
        sc = read(ip, src)
        try:
            return Facts(V).all(sc)
        except (TypeError, AttributeError, IndexError, KeyError, ValueError, AssertionError) as e:
            raise Cut(f'reading the abstract score: {e!r}')
    try:
        os_ = ip.explore(th)
    except Budget as e:
        return ('undecided', f'bound {e}'), ip
    if not os_:
        return ('undecided', 'no outcome'), ip
    if any(o.kind == 'cut' for o in os_):
        return ('undecided', 'cut'), ip
    if all(o.kind == 'raise' for o in os_):
        e = os_[0].value
        return ('raise', getattr(e, 'name', str(e)), str(getattr(e, 'where', ''))), ip
    if any(o.kind == 'raise' for o in os_):
        return ('undecided', 'raises on some partitions'), ip
    # what all partitions agree about
    sets = [o.value for o in os_]
    if len(sets) == 1:
        return ('facts', sets[0]), ip
    out = {}
    for k in sets[0]:
        if all(s[k] == sets[0][k] for s in sets):
            out[k] = sets[0][k]
        else:
            out[k] = [UNK]
    return ('facts', out), ip


def compare(got, want):
    """None if they agree, 'unknown' if undecided, else (missing, extra)"""
    if UNK in got:
        return 'unknown'        # the partitions do not agree
    g = [x for x in got if UNK not in x]
    unk = len(got) - len(g)
    missing = list(want)
    extra = []
    for x in g:
        if x in missing:
            missing.remove(x)
        else:
            extra.append(x)
    if not missing and not extra and not unk:
        return None
    if unk and len(missing) <= unk and not extra:
        return 'unknown'
    if unk and len(missing) <= unk and len(extra) == 0:
        return 'unknown'
    if not missing and not extra:
        return 'unknown'
    return missing, extra


def pool(jobs, n, stop=None, analyse=None):
    """evaluate analyse(src) for each source in forked workers -> results in order; with `stop` (development), end at the first
    result for which stop(index, result) is true"""
    jobs = list(jobs)
    core.repo()
    _real_names()
    d = tempfile.mkdtemp(prefix='c14.')
    out = [None] * len(jobs)
    pids = []
    try:
        for w in range(n):
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    with open(os.path.join(d, str(w)), 'w') as fp:
                        for i in range(w, len(jobs), n):
                            if stop is not None and os.path.exists(os.path.join(d, 'stop')):
                                break
                            try:
                                r, ip = (analyse or globals()['analyse'])(jobs[i])
                                vis, paths = sorted(ip.visited), ip.total_paths
                            except AnalysisError as e:
                                r, vis, paths = ('unanchored', str(e)), [], 0
                            except RecursionError:
                                r, vis, paths = ('undecided', 'recursion'), [], 0
                            except Exception as e:     # imprecision of the engine decides nothing
                                r, vis, paths = ('undecided', f'engine {type(e).__name__}: {e}'), [], 0
                            fp.write(json.dumps([i, r, vis, paths]) + '\n')
                            fp.flush()
                            if stop is not None and stop(i, r):
                                open(os.path.join(d, 'stop'), 'w').close()
                except BaseException:
                    rc = 1
                finally:
                    os._exit(rc)
            pids.append(pid)
        for p in pids:
            os.waitpid(p, 0)
        for w in range(n):
            with open(os.path.join(d, str(w))) as fp:
                for line in fp:
                    if line.endswith('\n'):
                        i, r, vis, paths = json.loads(line)
                        out[i] = (r, vis, paths)
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return out


def run(rep):
    decide(rep, families(rep.tier))


def decide(rep, fams, analyse=None):
    """read every skeleton of the families and compare the statements about the scores"""
    only_ = os.environ.get('VP_FAM')
    if only_:
        fams = [f for f in fams if f[0] in only_.split(',')]
    jobs, index = [], {}
    for name, rule, cases, minimum in fams:
        for c in cases:
            if c['src'] not in index:
                index[c['src']] = len(jobs)
                jobs.append(c['src'])
    t0 = time.time()
    stop = None
    if os.environ.get('VP_FIRST'):
        byidx = {}
        for name, rule, cases, minimum in fams:
            for c in cases:
                byidx.setdefault(index[c['src']], []).append(c)

        def stop(i, r):
            return r[0] == 'raise' and r[1] not in ('AttributeError', 'TypeError', 'NotImplementedError', 'SitesException', 'StreamException') or \
                r[0] == 'facts' and any(compare(r[1][a], w) not in (None, 'unknown') for c in byidx[i] for a, w in c['want'].items())
    res = pool(jobs, int(os.environ.get('VP_W', 0)) or min(8, os.cpu_count() or 1, max(1, len(jobs))), stop, analyse)
    rep.analysed['file skeletons'] = len(jobs)
    rep.analysed['seconds for the skeletons'] = round(time.time() - t0, 1)
    for r in res:
        if r is not None:
            rep.visited |= set(r[1])
            rep.partitions += r[2]

    def one(cases):
        def go():
            for c in cases:
                r = res[index[c['src']]]
                if r is None:
                    rep.unsure(c['name'], 'no result')
                    continue
                r = r[0]
                if r[0] == 'unanchored':
                    raise AnalysisError(r[1])
                if r[0] == 'undecided':
                    rep.unsure(c['name'], r[1])
                    continue
                if r[0] == 'raise':
                    if r[1] in ('AttributeError', 'TypeError', 'NotImplementedError', 'SitesException', 'StreamException'):
                        rep.unsure(c['name'], f'{r[1]} {r[2]}')       # may be the model's fault
                    else:
                        rep.bad(c['name'], c['where'], f'the file is not read: {r[1]} {r[2]}')
                    continue
                for asp, want in c['want'].items():
                    got = r[1][asp]
                    if c.get('keep') and asp in c['keep']:
                        got = [x for x in got if any(k in x for k in c['keep'][asp])]
                    d = compare(got, want)
                    if d is None:
                        rep.ok(f"{c['name']}: {asp}")
                    elif d == 'unknown':
                        rep.unsure(f"{c['name']}: {asp}", 'unknown statements')
                    else:
                        rep.bad(f"{c['name']}: {asp}", c['where'],
                                f"missing {d[0][:4]}; instead {d[1][:4]}; file {c['src']!r}")
        return go
    for name, rule, cases, minimum in fams:
        rep.family(name, rule, one(cases), minimum)
