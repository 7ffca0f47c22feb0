"""C13: the standard implementations."""
from stdj import *
