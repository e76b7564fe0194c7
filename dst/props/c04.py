from . import _durable

REAL = ["pyuvdata (Python and compiled extensions)", "h5py/HDF5", "astropy.io.fits", "Miriad C library", "casacore", "kernel tmpfs"]
_durable.setup(globals(), "uvflag".split(","))
