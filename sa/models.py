"""The library model used by the interpreter: values, containers, numpy, FITS, builtins, standard library."""
from .core import *
from .values import Values
from .containers import Containers
from .models_np import Numpy
from .models_fits import Fits
from .models_py import Py
from .models_obj import ObjModels
from .models_ext import Ext


class Models(Values, Containers, Numpy, Fits, Py, ObjModels, Ext):
    json_hook = None

    def __init__(self, interp):
        self.I = interp
        self.vns = {}
        self.vnrev = []
        self.vfs = {}
        self.writes = []
        self.ext_over = {}
