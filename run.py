#!/opt/venv/bin/python
"""Entry point of every check: see DESIGN.md.

run.py check ID [--tier quick|thorough]   decide one property
run.py replay FILE                        re-run one saved case, without Hypothesis
run.py all [--tier ...]                   every check in turn
run.py selftest                           the simulator against itself and a few known programs
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "harness"), HERE]

if __name__ == "__main__":
    import runner
    sys.exit(runner.main(sys.argv[1:]))
