"""C02: the writing half."""
from ser import *


def jobs(tier, prog):
    Writer.deep = tier == 'thorough'
    return ['r_s_string', 'r_s_chars', 'r_s_mut']
