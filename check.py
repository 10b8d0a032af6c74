#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: decide one property.  VERIF_SEED, VERIF_TIER (quick|thorough) are read from the environment."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import props, run


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    c = run.Check(pid, tier, seed)
    props.CHECKS[pid](c)
    if c.quick:
        c.again(props.CHECKS[pid])
    return c.go()


sys.exit(main())
