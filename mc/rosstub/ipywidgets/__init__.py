from . import widgets
from .widgets import *
