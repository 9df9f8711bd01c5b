import warnings
from typing import Callable, Optional

class TranslationFailed(Exception):
    pass

def _translate_if_needed(obj, old_type, translate_old_to_wip, deprecation_msg=None, considered_iterables=None):
    considered_iterables = [] if not considered_iterables else considered_iterables
    if isinstance(obj, old_type):
        try:
            if deprecation_msg:
                warnings.warn(deprecation_msg, DeprecationWarning)
            return translate_old_to_wip(obj)
        except Exception:
            raise TranslationFailed(f'Translation of {obj} failed. Please report this as a bug and provide minimal example that triggers this error.')
    elif type(obj) in considered_iterables:
        return type(obj)((_translate_if_needed(o, old_type, translate_old_to_wip, deprecation_msg, considered_iterables) for o in obj))
    return obj

def compatible_with_old_type(old_type, translate_old_to_wip, deprecation_msg: Optional[str]=None, fallback_function=None, consider_iterable_types=None):

    def _compatible_with_old_type(wrapped: Callable):

        def _inner(*args, **kwargs):
            try:
                new_args = tuple((_translate_if_needed(obj, old_type, translate_old_to_wip, deprecation_msg, consider_iterable_types) for obj in args))
                new_kwargs = {key: _translate_if_needed(obj, old_type, translate_old_to_wip, deprecation_msg, consider_iterable_types) for key, obj in kwargs.items()}
                return wrapped(*new_args, **new_kwargs)
            except TranslationFailed as err:
                if fallback_function:
                    warnings.warn(f'Translation from {old_type} failed, and fallback function will be used. Please report this as a bug and provide minimal example that leads to this error.')
                    return fallback_function(*args, **kwargs)
                raise err
        return _inner
    return _compatible_with_old_type
