"""python -m mc.main <ID> --tier quick|thorough [--replay FILE] [--part NAME]

Runs all parts of one check in the environment prepared by check.py.
"""
import argparse
import importlib
import json
import os
import sys
import time
import warnings

from . import engine


def load(pid, tier):
    mod = importlib.import_module('mc.checks.' + pid.lower())
    return mod, mod.parts(tier)


def write_replay(home, pid, tier, v):
    d = os.path.join(home, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}-{}.json'.format(pid, v['part'], v['worker']))
    with open(path, 'w') as f:
        json.dump({
            'property': pid, 'tier': tier, 'part': v['part'],
            'message': v['message'],
            'choices': v['choices'],
            'prefixes': [list(p) for p in v['prefixes']],
            'worker': v['worker'], 'n_workers': v['n_workers'], 'batch_number': v['batch_number'],
            'reproduced': v.get('reproduced'),
            'how_to_replay': 'python3 /verif/check.py {} --tier {} --replay {}'.format(pid, tier, path),
        }, f, indent=1)
    return path


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default='quick')
    p.add_argument('--replay')
    p.add_argument('--part')
    args = p.parse_args()
    pid = args.property.upper()
    t0 = time.time()
    warnings.simplefilter('ignore')
    if os.environ.get('MC_COVER'):
        from . import cover
        cover.start(os.environ['MC_COVER'], os.environ['MC_SRC'])

    import eventio
    src = os.environ['MC_SRC']
    if not os.path.realpath(eventio.__file__).startswith(os.path.realpath(src) + os.sep):
        print('wrong package: {}'.format(eventio.__file__), file=sys.stderr)
        return 2
    work = os.environ['MC_WORK']
    home = os.environ['MC_HOME']

    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        mod, parts = load(pid, r['tier'])
        part = {q.name: q for q in parts}[r['part']]
        message = engine.replay_batch(part, r['prefixes'], os.path.join(work, 'w%d' % r['worker']))
        if message is None:
            message = engine.replay_history(
                part, r['worker'], r['n_workers'], r['batch_number'], os.path.join(work, 'w%d' % r['worker']))
        if message is None:
            print('not reproduced: the property holds on this case')
            return 0
        print(message)
        print('VIOLATION property={} replay={}'.format(pid, args.replay))
        return 1

    mod, parts = load(pid, args.tier)
    if args.part:
        parts = [q for q in parts if q.name.startswith(args.part)]
    violations = []
    coverage = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'parts': []}
    for part in parts:
        t1 = time.time()
        st, vs = engine.run_part(part, work)
        # states of the model where the part names them, else the distinct nodes of the choice tree
        states = len(st.states) or st.nodes
        coverage['states'] += states
        coverage['transitions'] += st.choices + st.steps
        coverage['traces_validated_against_impl'] += st.executions
        coverage['parts'].append({
            'part': part.name, 'what': part.note, 'deviation_bound': part.bound,
            'executions': st.executions, 'choice_tree_nodes': st.nodes,
            'model_states': len(st.states), 'choices_made': st.choices, 'steps_compared': st.steps,
            'distinct_outcomes': len(st.outcomes), 'longest_execution': st.max_len,
            'wall_s': round(time.time() - t1, 2),
            'completed': not vs,
        })
        coverage['samples'] += [{'part': part.name, 'choices': s} for s in st.samples[:2]]
        print('{}/{}: {} executions, {} states, {} steps, {} outcomes, {:.1f} s'.format(
            pid, part.name, st.executions, states, st.steps, len(st.outcomes), time.time() - t1), flush=True)
        violations += vs
        if vs:
            break

    path = None
    if violations:
        v = violations[0]
        part = {q.name: q for q in parts}[v['part']]
        try:
            v['reproduced'] = engine.replay_batch(part, v['prefixes'], os.path.join(work, 'r')) is not None
        except engine.HarnessError:
            v['reproduced'] = False
        path = write_replay(home, pid, args.tier, v)
    coverage['exhaustive'] = not violations
    evidence = {
        'property': pid, 'tier': args.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking', 'coverage': coverage,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    if not args.part:
        os.makedirs(os.path.join(home, 'evidence'), exist_ok=True)
        with open(os.path.join(home, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    if violations:
        print(violations[0]['message'])
        print('VIOLATION property={} replay={}'.format(pid, path), flush=True)
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
