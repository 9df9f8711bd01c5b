from ._estimation import *
