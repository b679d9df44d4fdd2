import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
from consts import FR, FQ, BLSP, BLSR
PRIMES = {FR: 4, FQ: 4, BLSR: 4, BLSP: 6}
