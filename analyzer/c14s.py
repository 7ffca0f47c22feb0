from ser import *


class Faults(Writer):
    faults = True

    def initial(self, root):
        m = Writer.initial(self, root)
        if root == 'r_s_struct':
            self.maxdepth, self.scalars = 2, [0, 13]
        return m


MONITOR = Faults
