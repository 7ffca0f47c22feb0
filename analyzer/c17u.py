"""C17: the position of the stream reader."""
from utf8 import *


class Positions(Utf8):
    positions = True
    many_shapes, many_values = 3, 2


MONITOR = Positions


def jobs(tier, prog):
    return ['r_u_reader']
