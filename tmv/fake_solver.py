"""Stand-in for Anthony Cassandra's pomdp-solve, used as `pomdp-solve` on PATH.

It records its arguments, working directory and a copy of the model file, then writes what the
plan (TMV_SOLVER_PLAN, a JSON file) tells it to write. Only ever writes in the directory it is started in
and beside the plan.
"""
import json
import os
import sys


def main():
    plan_path = os.environ.get('TMV_SOLVER_PLAN')
    if not plan_path:
        sys.exit(3)
    with open(plan_path) as f:
        plan = json.load(f)
    args = sys.argv[1:]
    record = {'argv': args, 'cwd': os.getcwd(), 'listing': sorted(os.listdir('.')), 'model': None}
    if '-pomdp' in args:
        path = args[args.index('-pomdp') + 1]
        record['model_path'] = path
        try:
            with open(path) as f:
                record['model'] = f.read()
        except OSError as e:
            record['model_error'] = str(e)
    with open(plan_path + '.record', 'w') as f:
        json.dump(record, f)
    out = args[args.index('-o') + 1] if '-o' in args else 'missing-o'
    for ext, text in plan.get('write', {}).items():
        with open(out + '.' + ext, 'w') as f:
            f.write(text)
    if plan.get('kill'):
        os.kill(os.getpid(), plan['kill'])
    print(plan.get('say', ''))
    sys.exit(plan.get('exit', 0))


main()
