import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.kernel import build, RULE
from checks.driver import main
from checks.contract import ASSUME

sys.exit(main("C17", build, RULE, level="other", libm=True, assumptions=ASSUME))
