#!/opt/veriftools/pyvenv/bin/python3
"""Usage: check.py <property id> | check.py replay <file>   (tier and seed from VERIF_TIER, VERIF_SEED, or --tier/--seed)"""
import os, resource, sys, json, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'py'))


def main():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    a = sys.argv[1:]
    tier, seed = os.environ.get('VERIF_TIER') or 'quick', int(os.environ.get('VERIF_SEED') or 1)
    args = []
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--seed':
            seed = int(a.pop(0))
        else:
            args.append(x)
    if tier not in ('quick', 'thorough') or not args:
        print(__doc__)
        return 2
    import engine, registry
    try:
        if args[0] == 'setup':
            return registry.setup()
        if args[0] == 'replay':
            return registry.replay(json.load(open(args[1])))
        c = engine.Check(args[0], tier, seed)
        try:
            registry.CHECKS[args[0]](c)
        except engine.ToolError:
            if not c.violation:
                raise
        return c.finish()
    except engine.ToolError as e:
        print('NO VERDICT: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        print('NO VERDICT: the check itself failed')
        return 2
    finally:
        engine.cleanup()


if __name__ == '__main__':
    sys.exit(main())
