from . import ros3d
