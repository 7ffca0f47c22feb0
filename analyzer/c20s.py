"""C20: the writing half."""
from ser import *


def jobs(tier, prog):
    Writer.deep = tier == 'thorough'
    return ['r_s_scalar', 'r_s_mut']
