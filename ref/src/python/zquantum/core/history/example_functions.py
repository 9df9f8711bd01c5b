from typing import Optional
import numpy as np
from ..interfaces.functions import FunctionWithGradient, FunctionWithGradientStoringArtifacts, StoreArtifact

def sum_of_squares(params):
    return sum((x ** 2 for x in params))
function_1 = FunctionWithGradient(function=lambda params: params[0] ** 2 - params[0] * params[1], gradient=lambda params: np.array([2 * params[0] - params[1], -params[0]]))

class Function2:

    def __init__(self, multiplier):
        self.multiplier = multiplier

    def __eq__(self, other):
        return type(self) == type(other) and self.multiplier == other.multiplier

    def __call__(self, params):
        return self.multiplier * (params[0] - params[0] * params[1] + params[2] ** 2)

    def gradient(self, params):
        return self.multiplier * np.array([1 - params[1], -params[0], 2 * params[2]])

def function_3(params: int, store_artifact=None):
    bitstring = bin(params)[2:]
    if store_artifact:
        store_artifact('bitstring', bitstring)
    return 2 * params

def function_4(params: int, store_artifact: Optional[StoreArtifact]=None) -> int:
    bitstring = bin(params)[2:]
    if store_artifact:
        store_artifact('bitstring', bitstring, force=params % 2 == 0)
    return 2 * params

class Function5:

    def __init__(self, alpha):
        self.alpha = alpha

    def __eq__(self, other):
        return type(self) == type(other) and self.alpha == other.alpha

    def __call__(self, params: np.ndarray, store_artifact=None):
        if params[0] > 0 and store_artifact:
            store_artifact('something', params[0] + params[1])
        return self.alpha * params[0] * params[1] * params[2]

    def gradient(self, params):
        return self.alpha * np.array([params[1] * params[2], params[0] * params[2], params[0] * params[1]])
function_6 = FunctionWithGradientStoringArtifacts(function=Function5(5), gradient=Function5(5).gradient)
