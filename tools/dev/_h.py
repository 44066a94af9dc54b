HEAD = '''
import datetime as dt
import logging
import os
import sys
import tempfile

import numpy as np

import ocbpy

logging.disable(logging.CRITICAL)
'''
DMSP = HEAD + '''

def dmsp(rows, cls=None, **kwargs):
    """Load rows of (time, radius, x, y, fom) as a DMSP-SSJ boundary."""
    with tempfile.TemporaryDirectory() as tdir:
        fname = os.path.join(tdir, "b.ocb")
        with open(fname, "w") as fout:
            fout.write("#sc date time r x y fom x_1 y_1 x_2 y_2\\n")
            for row in rows:
                fout.write("16 {:%Y-%m-%d %H:%M:%S} {:.3f} {:.4f} {:.4f} {:.3f}"
                           " 1.0 2.0 3.0 4.0\\n".format(*row))
        return (ocbpy.OCBoundary if cls is None else cls)(
            filename=fname, instrument="dmsp-ssj", **kwargs)


start = dt.datetime(2010, 3, 4, 10, 0, 0)
'''
