"""Facade collected by the interpreter."""
from .npcore import *
from .pymodel import *
from .pyops import *
from .npfun import *
from .npfun import mod_attr, check_module
