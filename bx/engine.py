from .interp import *
from .ev import EvMixin, Exit, fn_bool
from .loops import LoopMixin
from .models import LibMixin


class Engine(LibMixin, LoopMixin, EvMixin, Interp):
    pass
