"""check driver. usage: run.py PROPERTY [--tier quick|thorough]"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import z3

import loader
import rt
import sym
import hsym
import explore

QUICK_DEADLINE = 400
THOROUGH_DEADLINE = 700


def replay(harness_name, harness_path, tier, recs, work, limit=None, timeout=120):
    """runs records in one fresh JVM; returns (list of results, timed_out)"""
    d = tempfile.mkdtemp(dir=work)
    inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
    json.dump([{'case': r['case'], 'inputs': r['inputs'], 'fill': r.get('fill')} for r in recs], open(inp, 'w'))
    cmd = loader.JAVA + [os.path.join(HERE, 'jyh.py'), harness_name, harness_path, tier, inp, outp]
    if limit:
        cmd.append(str(limit))
    timed = False
    p = subprocess.Popen(cmd, env=loader.jython_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        err = p.communicate(timeout=timeout)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        timed, err = True, b''
    out = []
    if os.path.exists(outp):
        for l in open(outp):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    if not out and not timed:
        out = [{'fatal': err.decode('utf-8', 'replace')[-2000:], 'phase': 'start'}]
    shutil.rmtree(d, ignore_errors=True)
    return out, timed


def probe(hname, hpath, tier, probes, work, cand):
    """paths the engine could not follow to their end: their inputs are tried in the real code, a violation becomes a candidate"""
    per, pick = {}, []
    probes.sort(key=lambda c: c['fill'])
    for c in probes:
        if per.get(c['case'], 0) < 24 and len(pick) < 900:
            per[c['case']] = per.get(c['case'], 0) + 1
            pick.append(c)
    if not pick:
        return 0
    from concurrent.futures import ThreadPoolExecutor
    n = min(6, 1 + len(pick) // 20)
    chunks = [pick[i::n] for i in range(n)]
    done = 0
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda ch: replay(hname, hpath, tier, ch, work, limit=90, timeout=150), chunks))
    for ch, (res, timed) in zip(chunks, rs):
        for x in res:
            if 'i' not in x:
                continue
            done += 1
            if x['violations']:
                c = ch[x['i']]
                inp = dict(c['inputs'])
                inp.update(x.get('filled', {}))
                cand.append({'case': c['case'], 'inputs': inp, 'label': x['violations'][0], 'detail': 'path not followed: ' + c['detail'],
                             'soft': True})
    return done


def obs_equal(a, b):
    if a == ['?'] or b == ['?']:
        return True
    if isinstance(a, list) and isinstance(b, list):
        if a and b and a[0] in ('u', 's') and b[0] in ('u', 's') and a[0] != b[0]:
            # str and unicode of the same ASCII text are interchangeable in Python 2
            ta = ''.join(map(chr, a[1])) if a[0] == 'u' else bytes.fromhex(a[1]).decode('latin-1')
            tb = ''.join(map(chr, b[1])) if b[0] == 'u' else bytes.fromhex(b[1]).decode('latin-1')
            return ta == tb
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    return a == b


def load_known(prop):
    """known findings: list of (label substring, case substring, text)"""
    out = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'):
                continue
            d = json.loads(l)
            if d['property'] == prop and d.get('status') == 'open':
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--case') + 1] if '--case' in sys.argv else None
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        rc = run(prop, tier, work, t0, only)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('ERROR property=%s engine failure' % prop)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, work, t0, only):
    deadline = t0 + (QUICK_DEADLINE if tier == 'quick' else THOROUGH_DEADLINE)
    hs = glob.glob(os.path.join(VERIF, 'harness', prop.lower() + '_*.py'))
    if len(hs) != 1:
        raise Exception('no harness for ' + prop)
    hpath = hs[0]
    hname = os.path.basename(hpath)[:-3]
    L = loader.Loader(work)
    extra = {os.path.basename(p)[:-3]: p for p in [hpath] + glob.glob(os.path.join(VERIF, 'harness', 'lib_*.py'))}
    L.parse(extra)
    t_parse = time.time() - t0
    load_fail = None
    try:
        sym.set_ctx(None)
        mod = L.find(hname)
        hcases = mod.cases(tier)
        if hasattr(mod, 'setup'):
            class C0(object):
                steps = 0
            mod.setup()
    except Exception as e:
        traceback.print_exc()
        load_fail = e
    if load_fail is not None:
        # does the real code fail as well?
        res, timed = replay(hname, hpath, tier, [], work)
        if res and res[0].get('phase') == 'load':
            print('the code under test does not load: %s' % res[0]['fatal'][-600:])
            return report_violation(prop, tier, hname, hpath, {'case': '(setup)', 'inputs': {}}, 'code does not load', work)
        names = [n for r in res or [] for n in r.get('cases', [])]
        print('harness set-up failed in the engine only: %s' % load_fail)
        if not names:
            print('ERROR property=%s nothing decided: the harness does not run' % prop)
            return 2
        # no path could be followed: all that is left is trying inputs in the real code
        hcases, info = [], {}
        t_setup = time.time() - t0
        recs = [{'case': n, 'status': 'unsupported', 'inputs': {}, 'more': [{}] * 11, 'detail': 'set-up: %s' % load_fail}
                for n in names if not only or only in n]
        cov = [0] * (len(L.functions) + 1)
    cases = []
    for c in hcases:
        if only and only not in c[0]:
            continue
        cases.append((c[0], c[1], c[2] if len(c) > 2 else ()))
    if load_fail is None:
        t_setup = time.time() - t0
        info = dict(getattr(mod, 'INFO', {}))
        recs, cov = explore.explore(cases, os.path.join(work, 'paths.jsonl'), len(L.functions) + 1, tier, deadline,
                                    log_checks=(tier == 'thorough'))
    t_explore = time.time() - t0 - t_setup
    by = {}
    for r in recs:
        by[r['status']] = by.get(r['status'], 0) + 1
    errs = [r for r in recs if r['status'] == 'engine-error']
    for r in errs[:3]:
        print('engine error in case %s: %s' % (r['case'], r.get('detail')))
    labels = {}
    for r in recs:
        for l, n in (r.get('labels') or {}).items():
            labels[l] = labels.get(l, 0) + n
    # ---------------- violations: replay against the real code
    cand = []
    for r in recs:
        for v in r.get('violations') or []:
            cand.append({'case': r['case'], 'inputs': v['inputs'], 'label': v['label'], 'detail': v.get('detail', '')})
    probes = []
    for r in recs:
        if r['status'] == 'steplimit' and r.get('inputs') is not None:
            cand.append({'case': r['case'], 'inputs': r['inputs'], 'label': '(steplimit)', 'detail': r.get('detail', ''), 'soft': True})
        elif r['status'] == 'unsupported' and r.get('inputs') is not None:
            for k, x in enumerate([r['inputs']] + r.get('more', [])):
                probes.append({'case': r['case'], 'inputs': x, 'label': '(unsupported)', 'detail': r.get('detail', ''), 'fill': k})
    probed = probe(hname, hpath, tier, probes, work, cand)
    known = load_known(prop)
    seen, todo = {}, []
    for c in cand:
        k = (c['label'], c['case'])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 1:
            todo.append(c)
    hard = [c for c in todo if not c.get('soft')][:24]
    # a second input for each failing check, should the first one not reproduce
    n2 = {}
    for c in cand:
        k = (c['label'], c['case'])
        n2[k] = n2.get(k, 0) + 1
        if not c.get('soft') and n2[k] == 2 and len(hard) < 24:
            hard.append(c)
    soft = [c for c in todo if c.get("soft")][:24]
    found, spurious, matched = [], [], {}
    pend = hard + soft
    if pend:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            results = list(ex.map(lambda c: replay(hname, hpath, tier, [c], work, timeout=90), pend))
        for c, (res, timed) in zip(pend, results):
            viol = None
            if timed:
                viol = 'does not terminate (replay stopped after 90 s)' if c['label'] == '(steplimit)' else None
            elif 'fatal' in res[0]:
                # only code that cannot be imported is a violation; a replay that could not run says nothing
                viol = 'code does not load' if res[0].get('phase') == 'load' else None
            else:
                vs = res[0].get('violations')
                if vs:
                    viol = vs[0]
                    c['replay_detail'] = res[0].get('detail', '')
            if viol:
                c['real'] = viol
                k = match_known(known, c, viol)
                if k is not None:
                    matched.setdefault(k['id'], (k, c))
                else:
                    found.append(c)
            elif not c.get('soft'):
                c['replayed'] = res[:1]
                spurious.append(c)
    # ---------------- witness replays: trace validation and vacuity guard
    oks = [r for r in recs if r['status'] == 'ok' and r.get('inputs') is not None]
    wit, need = pick_witnesses(oks, 160 if tier == 'quick' else 500)
    validated, mismatches, covered = 0, [], set()
    if wit and not found:
        n = 3 if len(wit) > 40 else 1
        chunks = [wit[i::n] for i in range(n)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda ch: replay(hname, hpath, tier, ch, work, limit=60 if tier == 'quick' else 120, timeout=240), chunks))
        for ch, (res, timed) in zip(chunks, rs):
            for x in res:
                if 'fatal' in x:
                    print('INCOMPLETE property=%s a replay did not run: %s' % (prop, x['fatal'][-800:]))
                    continue
                if 'i' not in x:
                    continue
                r = ch[x['i']]
                bad = None
                if x['violations']:
                    bad = 'violates %s in the real code' % x['violations'][0]
                elif x['status'] == 'assume':
                    bad = 'assumption fails in the real code'
                elif x['missing']:
                    bad = 'asks for other inputs in the real code'
                elif not obs_equal([o for o in r.get('observes', [])], x['observes']):
                    bad = 'observed values differ: model %s real %s' % diff_obs(r.get('observes', []), x['observes'])
                if bad:
                    mismatches.append((r, x, bad))
                else:
                    validated += 1
                    covered.update(x['labels'])
    real_mis = []
    for r, x, bad in mismatches[:60 if os.environ.get('VERIF_FULL') else 8]:
        # state shared between replays in one JVM can interfere: confirm alone
        res, timed = replay(hname, hpath, tier, [r], work, timeout=90)
        if not timed and 'i' in res[0] and not res[0]['violations'] and res[0]['status'] == 'ok' and \
                obs_equal(r.get('observes', []), res[0]['observes']):
            validated += 1
            covered.update(res[0]['labels'])
            continue
        if not timed and 'i' in res[0] and res[0]['violations']:
            # the solver's path said ok, the real code violates: an engine gap, but a real violation
            c = {'case': r['case'], 'inputs': r['inputs'], 'label': res[0]['violations'][0], 'real': res[0]['violations'][0],
                 'detail': 'found by witness replay'}
            k = match_known(known, c, c['real'])
            if k is None:
                found.append(c)
            else:
                matched.setdefault(k['id'], (k, c))
            continue
        real_mis.append((r, bad))
    # ---------------- verdict
    queries = sum(r.get('queries', 0) for r in recs)
    solver = sum(r.get('solver_s', 0) for r in recs)
    sent = sum(r.get('sent', 0) for r in recs)
    conc = sum(r.get('concrete', 0) for r in recs)
    dec = sum(r.get('decisions', 0) for r in recs)
    done = by.get('ok', 0)
    incomplete = {k: v for k, v in by.items() if k in ('unsupported', 'inconclusive', 'budget', 'steplimit', 'engine-error')}
    funcs = sorted(set(L.functions[i] for i in range(len(L.functions)) if cov[i] and not L.functions[i].startswith(tuple(extra))))
    second = None
    if tier == 'thorough':
        second = cross_check(recs, work)
    wall = time.time() - t0
    status = 'pass'
    rc = 0
    for k, (kf, c) in sorted(matched.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    if found:
        status, rc = 'fail', 1
        for c in found[:5]:
            report_violation(prop, tier, hname, hpath, c, c['real'], work)
    elif done == 0 and probed and not errs:
        # the code could not be followed at all; nothing is claimed beyond the inputs tried in the real code
        pass
    elif errs and not done or done == 0 or (sent + conc) == 0:
        status, rc = 'error', 2
        print('ERROR property=%s nothing decided (%s)' % (prop, by))
    elif second and second['disagree']:
        status, rc = 'error', 2
        print('ERROR property=%s second solver disagrees: %s' % (prop, second))
    if not found:
        # gaps of the engine: what it claims about a path is not what the real code does. Such paths are undecided, never a verdict.
        for c in spurious[:3]:
            print('INCOMPLETE property=%s counterexample to "%s" in case %s does not reproduce in the real code: %s -> %s' %
                  (prop, c['label'], c['case'], json.dumps(c['inputs'])[:600], json.dumps(c.get('replayed'))[:400]))
        for r, bad in real_mis[:40 if os.environ.get('VERIF_FULL') else 3]:
            print('INCOMPLETE property=%s model and real code disagree in case %s: %s inputs %s' %
                  (prop, r['case'], bad, json.dumps(r['inputs'])[:500]))
        if spurious:
            incomplete['spurious-counterexample'] = len(spurious)
        if real_mis:
            incomplete['model-mismatch'] = len(real_mis) + max(0, len(mismatches) - 8)
        un = set(labels) - covered - {'uncaught exception'}
        if un and not matched:
            incomplete['check-without-replayed-witness'] = len(un)
            print('INCOMPLETE property=%s checks never reached in a replayed witness: %s' % (prop, sorted(un)[:5]))
    if incomplete:
        kinds = {}
        for r in recs:
            if r['status'] in incomplete and r['status'] != 'ok':
                d = '%s: %s' % (r['status'], (r.get('detail') or '')[:160])
                kinds[d] = kinds.get(d, 0) + 1
        print('INCOMPLETE property=%s not decided: %s %s' % (prop, json.dumps(incomplete), json.dumps(kinds)[:60000 if os.environ.get('VERIF_FULL') else 1500]))
        if rc == 0:
            status = 'pass-incomplete'
    write_evidence(prop, tier, status, dict(
        info=info, by=by, queries=queries, solver=solver, sent=sent, conc=conc, dec=dec, funcs=funcs, cases=[c[0] for c in cases], probed=probed,
        validated=validated, labels=labels, incomplete=incomplete, wall=wall, second=second, recs=recs, hpath=hpath,
        found=found, matched=[k['what'] for k, c in matched.values()], t_parse=t_parse, t_setup=t_setup, t_explore=t_explore))
    print('property=%s tier=%s status=%s cases=%d paths=%d decisions=%d queries=%d checks(solver)=%d checks(path)=%d solver_s=%.1f '
          'replayed=%d wall=%.1fs %s' % (prop, tier, status, len(cases), len(recs), dec, queries, sent, conc, solver, validated, wall,
                                        json.dumps(by)))
    return rc


def diff_obs(a, b):
    for x, y in zip(a, b):
        if not obs_equal(x, y):
            return (json.dumps(x)[:300], json.dumps(y)[:300])
    return (str(len(a)) + ' values', str(len(b)) + ' values')


def match_known(known, c, viol):
    for k in known:
        if k['check'] == viol and re.match(k.get('case', '.*') + r'\Z', c['case']):
            inp = k.get('inputs')
            if inp and any(c['inputs'].get(n) != v for n, v in inp.items()):
                continue
            return k
    return None


def pick_witnesses(oks, limit):
    """a sample that touches every label and as many cases as possible"""
    out, labels, per = [], {}, {}
    for r in oks:
        new = [l for l in r.get('labels', {}) if labels.get(l, 0) < 2]
        if new:
            out.append(r)
            for l in r['labels']:
                labels[l] = labels.get(l, 0) + 1
            per[r['case']] = per.get(r['case'], 0) + 1
    ids = set(map(id, out))
    rest = [r for r in oks if id(r) not in ids]
    rest.sort(key=lambda r: per.get(r['case'], 0))
    k = 0
    while len(out) < limit and rest:
        nxt = []
        for r in rest:
            if len(out) >= limit:
                break
            if per.get(r['case'], 0) <= k:
                out.append(r)
                per[r['case']] = per.get(r['case'], 0) + 1
            else:
                nxt.append(r)
        rest = nxt
        k += 1
    return out, labels


def report_violation(prop, tier, hname, hpath, c, label, work):
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, '%s-%d.json' % (prop, n))):
        n += 1
    p = os.path.join(d, '%s-%d.json' % (prop, n))
    json.dump({'property': prop, 'tier': tier, 'harness': hname, 'case': c['case'], 'check': label, 'inputs': c['inputs'],
               'detail': c.get('detail', ''), 'replay_detail': c.get('replay_detail', ''),
               'how': 'python3-vt /verif/engine/replay.py ' + p}, open(p, 'w'), indent=1, sort_keys=True)
    print('counterexample: case=%s check="%s" inputs=%s %s' % (c['case'], label, json.dumps(c['inputs'])[:400], c.get('replay_detail', '')))
    print('VIOLATION property=%s replay=%s' % (prop, p))
    return 1


def cross_check(recs, work):
    """re-decide a sample of the assertion queries with cvc5"""
    sample = []
    for r in recs:
        for q in r.get('smt') or []:
            sample.append(q)
    sample.sort(key=lambda q: (len(q[1]), q[0]))
    pick = []
    seen = {}
    for q in sample:
        if seen.get(q[0], 0) < 2:
            seen[q[0]] = seen.get(q[0], 0) + 1
            pick.append(q)
    step = max(1, len(sample) // 40)
    pick += sample[::step][:40]
    agree = dis = unk = 0
    t = time.time()
    from concurrent.futures import ThreadPoolExecutor

    def one(iq):
        i, (label, smt, r) = iq
        if time.time() - t > 120:
            return None
        f = os.path.join(work, 'q%d.smt2' % i)
        open(f, 'w').write('(set-logic ALL)\n' + smt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=20000', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
            o = p.stdout.decode().strip().split('\n')[0]
        except subprocess.TimeoutExpired:
            o = 'unknown'
        os.unlink(f)
        return (o, r, label)
    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(one, list(enumerate(pick))):
            if x is None or x[0] not in ('sat', 'unsat'):
                unk += 1
            elif x[0] == x[1]:
                agree += 1
            else:
                dis += 1
    return {'solver': 'cvc5', 'queries': len(pick), 'agree': agree, 'disagree': dis, 'undecided': unk}


def write_evidence(prop, tier, status, d):
    info = d['info']
    samples = []
    seen = set()
    for r in d['recs']:
        if r['status'] == 'ok' and r.get('inputs') is not None and r['case'] not in seen and len(samples) < 6:
            seen.add(r['case'])
            samples.append({'case': r['case'], 'inputs': r['inputs'], 'labels': sorted(r['labels'])})
    cov = {
        'states': len(d['recs']), 'transitions': d['dec'],
        'traces_validated_against_impl': d['validated'], 'samples': samples,
        'explanation': 'states = symbolic execution paths explored to their end, each standing for every input that follows it; '
                       'transitions = branch decisions put to the solver; traces validated = path models re-run in the real code '
                       'under Jython with identical observed values',
        'functions_encoded': d['funcs'], 'cases': len(d['cases']),
        'queries': d['queries'], 'solver': 'z3 ' + z3.get_version_string(), 'solver_s': round(d['solver'], 2),
        'assertions_decided_by_solver_query': d['sent'], 'assertions_decided_by_path_condition': d['conc'],
        'paths_by_status': d['by'], 'incomplete': d['incomplete'],
        'bounds': info.get('bounds', ''), 'outside_bounds': info.get('outside', ''), 'stubs': info.get('stubs', ''),
        'inputs_tried_in_real_code_for_undecided_paths': d['probed'], 'checks': d['labels'], 'parse_s': round(d['t_parse'], 2), 'setup_s': round(d['t_setup'], 2),
        'explore_s': round(d['t_explore'], 2), 'result': status,
    }
    if d['second']:
        cov['second_solver'] = d['second']
    if d['matched']:
        cov['known_findings'] = d['matched']
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUME + list(info.get('assumptions', [])), 'wall_s': round(d['wall'], 2), 'violations': len(d['found'])}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    json.dump(ev, open(p, 'w'), indent=1, sort_keys=True)


ASSUME = [
    'the Python 2 semantics and the library models of engine/rt.py and engine/shims.py agree with Jython 2.7 (validated by the replayed traces)',
    'z3 and the Jython runtime are trusted',
]


if __name__ == '__main__':
    main()
