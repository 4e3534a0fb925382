from . import parent
