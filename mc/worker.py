import sys
from mc.harness import run_cases
if __name__ == '__main__':
    mod, tier, seed, out = sys.argv[1:5]
    run_cases(mod, sys.argv[5:], tier, int(seed), out)
