from ...circuits import *
