from ._initialize import *
