from stdj import *
MONITOR = Faulty
