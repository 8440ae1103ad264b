"""Obligation bookkeeping, evidence and exit codes."""

import json
import os
import pathlib
import re
import sys
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / 'evidence'
KNOWN = ROOT / 'known_findings.txt'


def known_findings(pid):
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    """Collects obligations for one property."""

    def __init__(self, pid, rule, floor=1, level='other', assumptions=()):
        self.pid = pid
        self.rule = rule
        self.floor = floor
        self.level = level
        self.assumptions = list(assumptions)
        self.items = []
        self.t0 = time.time()
        self.extra = {}

    def ok(self, key, where='', detail=''):
        self.items.append(('ok', key, where, detail))

    def bad(self, key, where, detail):
        self.items.append(('bad', key, where, detail))

    def unsure(self, key, where='', detail=''):
        self.items.append(('undecided', key, where, detail))

    def judge(self, key, verdict, where='', detail=''):
        """verdict: True / False / None."""
        {True: self.ok, False: self.bad, None: self.unsure}[verdict](
            key, where, detail)

    # -- output ------------------------------------------------------------
    def finish(self, tier='quick'):
        known = known_findings(self.pid)
        bad, seen, dup = [], {}, set()
        for status, key, where, detail in self.items:
            if status != 'bad' or (key, where) in dup:
                continue
            dup.add((key, where))
            k = re.sub(r'\s+', '_', key + '|' + detail)
            if k not in known:
                k = re.sub(r'\s+', '_', key)
            if k in known:
                seen[k] = (where, detail)
            else:
                bad.append((key, where, detail))
        decided = [i for i in self.items if i[0] != 'undecided']
        undecided = [i for i in self.items if i[0] == 'undecided']
        EVIDENCE.mkdir(exist_ok=True)
        replay = EVIDENCE / f"{self.pid}.violations.json"
        if bad:
            replay.write_text(json.dumps(
                [{'rule': self.rule, 'construct': k, 'where': w, 'detail': d}
                 for k, w, d in bad], indent=1, ensure_ascii=False))
        elif replay.exists():
            replay.unlink()
        coverage = {
            'explanation': self.rule,
            'obligations': len(self.items),
            'decided': len(decided),
            'discharged': sum(1 for i in self.items if i[0] == 'ok'),
            'known_findings': sorted(seen),
            'undecided': [f"{k} ({w}) {d}"[:300] for _, k, w, d
                          in undecided][:80],
            'sites': [f"{k} @ {w}" for s, k, w, d in self.items
                      if s == 'ok'][:400],
        }
        coverage.update(self.extra)
        data = {
            'property': self.pid,
            'tier': tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level,
            'coverage': coverage,
            'wall_s': round(time.time() - self.t0, 3),
            'assumptions': self.assumptions,
            'violations': [f"{k} @ {w}: {d}"[:500] for k, w, d in bad],
        }
        (EVIDENCE / f"{self.pid}.json").write_text(
            json.dumps(data, indent=1, ensure_ascii=False, default=str))
        for k in sorted(seen):
            print(f"KNOWN-FINDING: property={self.pid} {known[k]} "
                  f"[{k}] at {seen[k][0]}")
        if bad:
            for k, w, d in bad:
                print(f"  {w}: {k}: {d}")
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        if len(decided) < self.floor:
            print(f"ERROR property={self.pid}: only {len(decided)} of "
                  f"{len(self.items)} obligations could be decided "
                  f"(floor {self.floor}); anchors moved?", file=sys.stderr)
            for _, k, w, d in undecided[:20]:
                print(f"  undecided {w} {k}: {d}", file=sys.stderr)
            return 2
        print(f"OK property={self.pid} decided={len(decided)} "
              f"undecided={len(undecided)}")
        return 0
