#!/usr/bin/env python3-vt
"""Decides one property by abstract interpretation of /repo's current source.

  python3-vt check.py --property I01 --tier quick

Exit 0: no obligation of the property is violated.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>" otherwise.  Exit 2: nothing could be
decided (the analysis is broken for this tree).
"""

import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from absint import core, props  # noqa: E402
from absint import interp as it  # noqa: E402

FINDINGS = os.path.join(HERE, 'known_findings.txt')


def run_group(job):
  group, tier = job
  rep = core.Report(tier)
  err = None
  t = time.time()
  try:
    mod = importlib.import_module('absint.groups.' + props.MODULE_OF[group.split('.')[0]])
    mod.GROUPS[group](rep)
  except it.AnchorMissing as e:
    err = f'anchor missing: {e}'
  except it.PyExc as e:
    err = f'source raises {e.tname()}: {str(e.exc)[:200]}'
  except Exception:  # pylint: disable=broad-except
    err = traceback.format_exc()[-1500:]
  funcs = collections.Counter()
  sites = set()
  for ip in rep.interps:
    for k, v in ip.functions_seen.items():
      funcs[k] += v
    sites |= ip.callsites
  return dict(
      group=group, err=err, paths=rep.paths, secs=time.time() - t,
      obls=[(o.group, o.rule, o.construct, o.case, o.status, o.msg, o.where(),
             [(a, m, core.where_of(l) or o.construct) for a, m, l in o.soft])
            for o in rep.obls],
      funcs=dict(funcs), sites=sorted(sites))


def read_findings():
  known = []
  if os.path.exists(FINDINGS):
    for line in open(FINDINGS):
      line = line.strip()
      if line.startswith('known: '):
        f = dict(p.split('=', 1) for p in line[7:].split(' | '))
        known.append(f)
  return known


def src_digest():
  h = hashlib.sha256()
  for root, dirs, files in os.walk(os.path.join(it.REPO, 'autobound')):
    dirs.sort()
    for f in sorted(files):
      if f.endswith('.py'):
        h.update(open(os.path.join(root, f), 'rb').read())
  return h.hexdigest()[:16]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('--property', required=True)
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--jobs', type=int, default=8)
  a = ap.parse_args()
  t0 = time.time()
  pid = a.property
  prop = props.PROPS[pid]
  selectors = props.selectors(pid)
  groups = sorted({g for g, _, _ in selectors}, key=lambda g: -props.COST.get(g, 1))
  with multiprocessing.Pool(min(a.jobs, len(groups))) as pool:
    res = list(pool.imap_unordered(run_group, [(g, a.tier) for g in groups]))
  res.sort(key=lambda r: groups.index(r['group']))

  picked = {}        # (group, rule, construct, case) -> [status, msg, where, own]
  for r in res:
    for g, rule, construct, case, status, msg, where, soft in r['obls']:
      for sg, rules, aspects in selectors:
        if sg != g or rules is not None and not any(
            rule == x or (x.endswith('*') and rule.startswith(x[:-1])) for x in rules):
          continue
        key = (g, rule, construct, case)
        st, m, w = status, msg, where
        if st == 'violated' and prop.get('strict') and 'sound' not in aspects:
          st, m = 'undecided', 'another guarantee is violated here: ' + msg[:80]
        if st != 'violated':
          for asp, sm, sw in soft:
            if asp in aspects:
              st, m, w = 'violated', sm, sw
              break
        old = picked.get(key)
        if old is None or (st == 'violated' and old[0] != 'violated'):
          picked[key] = (st, m, w)
  stat = collections.Counter(v[0] for v in picked.values())
  viol = collections.OrderedDict()
  for (g, rule, construct, case), (st, m, w) in picked.items():
    if st == 'violated':
      viol.setdefault(f'{rule}@{construct}', []).append((case, m, w, g))
  known = read_findings()
  unlisted, seen_known = collections.OrderedDict(), {}
  for key, items in viol.items():
    for item in items:
      hit = None
      for f in known:
        if f['property'] == pid and f['key'] == key and f.get('case', '') in item[0]:
          hit = f
      if hit:
        seen_known.setdefault((hit['key'], hit.get('case', '')), hit)
      else:
        unlisted.setdefault(key, []).append(item)
  for hit in seen_known.values():
    print(f"KNOWN-FINDING: property={pid} {hit['key']} {hit.get('what', '')}")

  errors = {r['group']: r['err'] for r in res if r['err']}
  funcs = collections.Counter()
  sites = set()
  for r in res:
    for k, v in r['funcs'].items():
      funcs[k] += v
    sites |= set(map(tuple, r['sites']))
  rules = collections.Counter()
  for (g, rule, construct, case), (st, m, w) in picked.items():
    rules[rule] += 1
  ev_dir = os.environ.get('AUTOBOUND_EVIDENCE') or os.path.join(HERE, 'evidence')
  os.makedirs(ev_dir, exist_ok=True)
  replay = os.path.join(ev_dir, f'{pid}.violations.json')
  und = collections.Counter()
  for (g, rule, construct, case), (st, m, w) in picked.items():
    if st == 'undecided':
      und[f'{rule}@{construct}: {m}'] += 1
  ev = {
      'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
      'level': 'other',
      'coverage': {
          'explanation': (
              'Abstract interpretation of the source of /repo/autobound (parsed with '
              'ast on this run; nothing of it is imported or executed).  Each '
              'obligation is one rule applied to one public construct on one abstract '
              'state (cell of sign/position classes x operand shapes x kinds of '
              'coefficients); it is discharged when the abstract result certifies the '
              'rule for every concrete state of the cell.  ' + prop.get('how', '')),
          'source_digest': src_digest(),
          'obligations': len(picked),
          'discharged': stat['ok'],
          'undecided': stat['undecided'],
          'violated_obligations': stat['violated'],
          'abstract_paths': sum(r['paths'] for r in res),
          'functions_analysed': len(funcs),
          'functions': sorted(funcs),
          'call_sites_analysed': len(sites),
          'rules_applied': dict(rules),
          'groups': {r['group']: {'obligations': len(r['obls']),
                                  'seconds': round(r['secs'], 1)} for r in res},
          'undecided_reasons': dict(und.most_common(40)),
          'analysis_errors': errors,
      },
      'assumptions': props.ASSUMPTIONS + prop.get('assumptions', []),
      'wall_s': round(time.time() - t0, 2),
      'violations': sum(map(len, unlisted.values())),
  }
  with open(os.path.join(ev_dir, f'{pid}.json'), 'w') as f:
    json.dump(ev, f, indent=1)

  print(f'{pid} ({a.tier}): {len(picked)} obligations, {stat["ok"]} discharged, '
        f'{stat["undecided"]} undecided, {stat["violated"]} violated; {len(funcs)} '
        f'functions, {len(sites)} call sites, {ev["wall_s"]} s')
  for g, e in errors.items():
    print(f'analysis error in {g}: {e}')
  for k, n in und.most_common(8):
    print(f'undecided ({n}): {k[:300]}')
  if unlisted:
    with open(replay, 'w') as f:
      json.dump([{'rule_at': k, 'case': c, 'message': m, 'where': w, 'group': g,
                  'rerun': f'python3-vt check.py --property {pid} --tier {a.tier}'}
                 for k, items in unlisted.items() for c, m, w, g in items], f, indent=1)
    for k, items in list(unlisted.items())[:12]:
      c, m, w, g = items[0]
      print(f'violated: {k} [{c}] at {w}: {m[:400]} ({len(items)} obligations)')
    print(f'VIOLATION property={pid} replay={replay}')
    return 1
  if os.path.exists(replay):
    os.remove(replay)
  own = [v for k, v in picked.items() if k[0] in {g for g, *_ in prop['own']}]
  if not own or all(v[0] == 'undecided' for v in own):
    print('nothing could be decided')
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
