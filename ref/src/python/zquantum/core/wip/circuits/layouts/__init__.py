from ....circuits.layouts import *
