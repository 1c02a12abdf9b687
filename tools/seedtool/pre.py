import sys; sys.path.insert(0,'/tmp/seedtool')
from mkseed import mkseed
PRE='''import copy, math
import numpy as np
from ellalgo.cutting_plane import *
from ellalgo.ell import Ell
from ellalgo.ell_stable import EllStable
from ellalgo.ell_calc import EllCalc
from ellalgo.ell_calc_core import EllCalcCore
from ellalgo.ell_config import CutStatus, Options
'''
S=[]
def seed(*a): S.append(a)
PO='''import numpy as np, math, copy
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle, create_lowpass_case
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitRbOracle, ProfitQOracle
from ellalgo.oracles.spectral_fact import spectral_fact, inverse_spectral_fact
from ellalgo.conjugate_gradient import conjugate_gradient
'''
from concurrent.futures import ThreadPoolExecutor
def go():
    with ThreadPoolExecutor(4) as ex: list(ex.map(lambda s: mkseed(*s), S))
