import copy
from typing import Any, Callable, Dict, Generic, List, NamedTuple, TypeVar
from typing_extensions import overload
from ..interfaces.functions import CallableStoringArtifacts, CallableWithGradient, CallableWithGradientStoringArtifacts, StoreArtifact, has_store_artifact_param
from .save_conditions import SaveCondition, always
T = TypeVar('T')
S = TypeVar('S')
NATIVE_RECORDER_ATTRIBUTES = ('predicate', 'history', 'target', 'call_number', 'gradient')

class ArtifactCollection(dict):
    forced: bool = False

class HistoryEntryWithArtifacts(NamedTuple):
    call_number: int
    params: Any
    value: Any
    artifacts: Dict[str, Any]

class HistoryEntry(NamedTuple):
    call_number: int
    params: Any
    value: Any

def copy_recorder(recorder_to_copy):
    attributes_dict = {'target': recorder_to_copy.target, 'save_condition': recorder_to_copy.predicate}
    recorder_copy = type(recorder_to_copy)(**attributes_dict)
    recorder_copy.call_number = recorder_to_copy.call_number
    recorder_copy.history = recorder_to_copy.history
    if 'gradient' in vars(recorder_to_copy):
        recorder_copy.gradient = copy.copy(recorder_to_copy.gradient)
    return recorder_copy

def deepcopy_recorder(recorder_to_copy, memo):
    attributes_dict = {'target': copy.deepcopy(recorder_to_copy.target, memo=memo), 'save_condition': copy.deepcopy(recorder_to_copy.predicate, memo=memo)}
    recorder_copy = type(recorder_to_copy)(**attributes_dict)
    recorder_copy.call_number = recorder_to_copy.call_number
    recorder_copy.history = copy.deepcopy(recorder_to_copy.history, memo=memo)
    if 'gradient' in vars(recorder_to_copy):
        recorder_copy.gradient = copy.deepcopy(recorder_to_copy.gradient, memo=memo)
    return recorder_copy

class SimpleRecorder(Generic[S, T]):

    def __init__(self, target: Callable[[S], T], save_condition: SaveCondition):
        self.predicate = save_condition
        self.target = target
        self.history: List[HistoryEntry] = []
        self.call_number = 0

    def __call__(self, params: S) -> T:
        return_value = self.target(params)
        if self.predicate(return_value, params, self.call_number):
            self.history.append(HistoryEntry(self.call_number, copy.copy(params), return_value))
        self.call_number += 1
        return return_value

    def __getattr__(self, item):
        return getattr(self.target, item)

    def __setattr__(self, key, value):
        if key in NATIVE_RECORDER_ATTRIBUTES:
            return object.__setattr__(self, key, value)
        return setattr(self.target, key, value)
    __copy__ = copy_recorder
    __deepcopy__ = deepcopy_recorder

class SimpleRecorderWithGradient(SimpleRecorder):

    def __init__(self, target: CallableWithGradient, save_condition: SaveCondition):
        super().__init__(target, save_condition)
        self.gradient = recorder(target.gradient, save_condition)

class ArtifactRecorder(Generic[S, T]):

    def __init__(self, target: CallableStoringArtifacts[S, T], save_condition: SaveCondition):
        self.predicate = save_condition
        self.target = target
        self.history: List[HistoryEntryWithArtifacts] = []
        self.call_number = 0

    def __call__(self, params: S) -> T:
        artifacts = ArtifactCollection()
        return_value = self.target(params, store_artifact=store_artifact(artifacts))
        if self.predicate(return_value, params, self.call_number) or artifacts.forced:
            self.history.append(HistoryEntryWithArtifacts(self.call_number, copy.copy(params), return_value, artifacts))
        self.call_number += 1
        return return_value

    def __getattr__(self, name):
        return getattr(self.target, name)

    def __setattr__(self, name, value):
        if name in ('predicate', 'history', 'target', 'call_number', 'gradient'):
            return object.__setattr__(self, name, value)
        return setattr(self.target, name, value)
    __copy__ = copy_recorder
    __deepcopy__ = deepcopy_recorder

class ArtifactRecorderWithGradient(ArtifactRecorder):

    def __init__(self, target: CallableWithGradientStoringArtifacts, save_condition: SaveCondition):
        super().__init__(target, save_condition)
        self.gradient = recorder(target.gradient, save_condition)

def store_artifact(artifacts) -> StoreArtifact:

    def _store(artifact_name: str, artifact: Any, force: bool=False) -> None:
        artifacts[artifact_name] = artifact
        if force:
            artifacts.forced = True
    return _store

@overload
def recorder(function: CallableWithGradientStoringArtifacts, save_condition: SaveCondition=always) -> ArtifactRecorderWithGradient:
    pass

@overload
def recorder(function: CallableStoringArtifacts[S, T], save_condition: SaveCondition=always) -> ArtifactRecorder[S, T]:
    pass

@overload
def recorder(function: CallableWithGradient, save_condition: SaveCondition=always) -> SimpleRecorderWithGradient:
    pass

@overload
def recorder(function: Callable[[S], T], save_condition: SaveCondition=always) -> SimpleRecorder[S, T]:
    pass

def recorder(function, save_condition: SaveCondition=always):
    with_artifacts = has_store_artifact_param(function)
    with_gradient = isinstance(function, CallableWithGradient)
    if with_artifacts and with_gradient:
        return ArtifactRecorderWithGradient(function, save_condition)
    elif with_artifacts:
        return ArtifactRecorder(function, save_condition)
    elif with_gradient:
        return SimpleRecorderWithGradient(function, save_condition)
    else:
        return SimpleRecorder(function, save_condition)
