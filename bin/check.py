#!/opt/veriftools/pyvenv/bin/python3
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vcg import runner
from contracts.registry import REG
def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a[0]
    sys.exit(runner.Check(prop, REG[prop], tier, seed).run())
main()
