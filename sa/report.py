"""Collects rule instances, verdicts and evidence for one property run."""
from __future__ import annotations
import json
import os
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Family:
    """One rule and its instances."""
    def __init__(self, name: str, rule: str, minimum: int):
        self.name = name
        self.rule = rule
        self.minimum = minimum
        self.decided = 0
        self.undecided: list[str] = []
        self.samples: list[str] = []
        self.error: str | None = None
        self.extra: dict = {}


class Report:
    def __init__(self, prop: str, tier: str):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.families: list[Family] = []
        self.findings: list[dict] = []
        self.analysed: dict[str, object] = {}
        self.assumptions: list[str] = []
        self._fam: Family | None = None
        self.visited: set[str] = set()
        self.partitions = 0

    # -------------------------------------------------------- families
    def family(self, name: str, rule: str, fn, minimum: int = 1) -> None:
        """Run fn(); a vanished anchor leaves the family unanchored."""
        from sa.core import AnalysisError
        f = Family(name, rule, minimum)
        self.families.append(f)
        self._fam = f
        t0 = time.time()
        try:
            fn()
        except AnalysisError as e:
            f.error = f'unanchored: {e}'
        except RecursionError as e:
            f.error = f'analysis bound: {e!r}'
        except Exception as e:   # imprecision in the engine must not become an alarm
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
            f.error = f'engine: {type(e).__name__}: {e}'
        if f.error is None and f.decided < f.minimum:
            f.error = f'only {f.decided} instances decided (confirmed by hand: at least {f.minimum})'
        self._fam = None
        f.extra['seconds'] = round(time.time() - t0, 2)
        if os.environ.get('VP_DEBUG'):
            print(f'   [{name}] {f.extra["seconds"]}s', flush=True)

    def ok(self, instance: str) -> None:
        f = self._fam
        f.decided += 1
        if len(f.samples) < 6:
            f.samples.append(instance)

    def bad(self, instance: str, where: str, detail: str) -> None:
        f = self._fam
        f.decided += 1
        key = f'{f.name}|{instance}'
        if any(x['key'] == key for x in self.findings):
            return
        self.findings.append({'key': key, 'rule': f.rule, 'instance': instance, 'where': where, 'detail': detail})

    def unsure(self, instance: str, why: str = '') -> None:
        self._fam.undecided.append(f'{instance}: {why}' if why else instance)

    def expect(self, cond: bool, instance: str, where: str, detail: str = '') -> bool:
        if cond:
            self.ok(instance)
        else:
            self.bad(instance, where, detail)
        return cond

    def use(self, ip) -> None:
        """Record what an interpreter analysed."""
        self.visited |= set(ip.visited)
        self.partitions += ip.total_paths

    # -------------------------------------------------------- ending
    def finish(self, level: str, explanation: str, known: list[dict]) -> int:
        if os.environ.get('VP_VISITED'):
            with open(os.environ['VP_VISITED'], 'w') as fp:
                fp.write('\n'.join(sorted(self.visited)))
        live = [f for f in self.families if f.error is None]
        dead = [f for f in self.families if f.error is not None]
        decided = sum(f.decided for f in self.families)
        known_keys = {k['key']: k for k in known if k.get('property') == self.prop and k.get('status') == 'known'}
        new = [x for x in self.findings if x['key'] not in known_keys]
        old = [x for x in self.findings if x['key'] in known_keys]
        print(f'property {self.prop} ({self.tier}): {len(self.families)} rules, {decided} instances decided')
        for f in self.families:
            st = f'{f.decided} decided' if f.error is None else f'NOT DECIDED ({f.error})'
            und = f', {len(f.undecided)} undecided' if f.undecided else ''
            print(f'  rule {f.name}: {st}{und}')
            if f.undecided and os.environ.get('VP_DEBUG'):
                for u in f.undecided[:20]:
                    print('      undecided', u)
        for k, v in self.analysed.items():
            print(f'  analysed {k}: {v}')
        cov = {
            'explanation': explanation,
            'rules': [{'name': f.name, 'rule': f.rule, 'decided': f.decided, 'undecided': f.undecided[:10],
                       'n_undecided': len(f.undecided), 'samples': f.samples, 'error': f.error, **f.extra}
                      for f in self.families],
            'instances_decided': decided,
            'functions_analysed': sorted(self.visited)[:400],
            'n_functions_analysed': len(self.visited),
            'partitions': self.partitions,
            'analysed': self.analysed,
            'samples': [s for f in self.families for s in f.samples[:2]],
        }
        if level in ('exploration', 'fault_enumeration'):
            cov.update(evaluations=decided, distinct_nontrivial=decided,
                       rule='one case per rule instance found in the source')
        if level == 'proof':
            n = decided + sum(len(f.undecided) for f in self.families)
            cov.update(obligations=n, discharged=decided - len(self.findings),
                       checker_cmd=f'python3-vt check.py {self.prop}', trusted_base=['the analyser in /verif/sa'])
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{self.prop}.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, default=str)
        for x in old:
            k = known_keys[x['key']]
            print(f'KNOWN-FINDING: property={self.prop} {k.get("what") or x["detail"]} [{x["key"]}]')
        if new:
            rp = os.path.join('evidence', f'{self.prop}.violations.json')
            with open(os.path.join(HERE, rp), 'w') as fp:
                json.dump(new, fp, indent=1, default=str)
            for x in new[:40]:
                print(f'  {x["where"]}: {x["instance"]}\n      {x["detail"]}\n      rule: {x["rule"]}  key: {x["key"]}')
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        if not self.families or 2 * len(dead) > len(self.families):
            print(f'ANALYSIS-BROKEN property={self.prop}: {len(dead)} of {len(self.families)} rules lost their anchors')
            return 2
        return 0
