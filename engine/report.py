"""Evidence, known findings and verdict lines, shared by every engine."""
import json, os, re, shutil, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.violations = []
        self.findings = []
        self.errors = []
        self.notes = []
        self.dir = f'{ROOT}/evidence/replays/{prop}'
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.known = []
        f = ROOT + '/known-findings.txt'
        if os.path.exists(f):
            for l in open(f):
                m = re.match(r'finding: property=(\S+) at=(\S+) msg="([^"]*)" (.*)', l.strip())
                if m and m.group(1) == prop:
                    self.known.append(m.groups()[1:])

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def left(self, total):
        return total - (time.time() - self.t0)

    def violation(self, at, msg, detail, payload):
        """at: the harness (call site/input family) that fails"""
        for a, m, text in self.known:
            if a == at and msg.startswith(m):
                if text not in self.findings:
                    self.findings.append(text)
                return
        path = f'{self.dir}/{len(self.violations)}.json'
        json.dump({'property': self.prop, 'at': at, 'message': msg, 'detail': detail, 'replay': payload}, open(path, 'w'), indent=1)
        self.violations.append((at, msg, detail, path))

    def finish(self, level, coverage, assumptions):
        cov = dict(coverage)
        if self.notes:
            cov['not_decided'] = self.notes
        if self.findings:
            cov['known_findings'] = self.findings
        if self.violations:
            cov['violations_found'] = [{'at': a, 'message': m, 'detail': d} for a, m, d, p in self.violations]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{ROOT}/evidence/{self.prop}.json', 'w'), indent=1)
        for t in self.findings:
            print(f'KNOWN-FINDING: property={self.prop} {t}')
        seen = set()
        for a, m, d, p in self.violations:
            if (a, m) in seen:
                continue
            seen.add((a, m))
            print(f'# {a}: {m}: {d}'[:400].replace('\n', ' '))
            print(f'VIOLATION property={self.prop} replay={p}')
        for e in self.errors:
            print('ERROR', e, file=sys.stderr)
        print(f'{self.prop} {self.tier}: {len(seen)} violations, {len(self.findings)} known findings, {len(self.notes)} reduced bounds, '
              f'{len(self.errors)} errors, {ev["wall_s"]} s')
        sys.stdout.flush()
        if self.violations:
            return 1
        return 2 if self.errors else 0
