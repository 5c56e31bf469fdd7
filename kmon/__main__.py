import sys

from kmon import core

if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'worker':
        core.worker(args[0], args[1], int(args[2]), int(args[3]), int(args[4]), args[5])
    elif cmd == 'replay':
        sys.exit(core.replay(args[0]))
    elif cmd == 'check':
        sys.exit(core.main(args[0], args[1]))
    elif cmd == 'case':      # kmon case C03 <index> [tier]: print and run one case
        import json, os
        core.import_kajiki()
        check = core.load_check(args[0])
        tier = args[2] if len(args) > 2 else 'quick'
        if hasattr(check, 'start'):
            check.start(tier)
        case = core.draw(check, core.rng_for(int(os.environ.get('VERIF_SEED', '1')), check.ID,
                                             int(args[1])), int(args[1]), tier)
        for k, v in case.items():
            print('%s: %s' % (k, v if isinstance(v, str) else json.dumps(v, default=repr)))
        mon = core.run_case(check, case)
        for f in mon.failures:
            print(f)
