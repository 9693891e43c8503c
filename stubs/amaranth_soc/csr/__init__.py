from .bus import *
