import abc
import copy
import itertools
import re
import warnings
import sympy
from zquantum.core.openfermion.config import EQ_TOLERANCE
COEFFICIENT_TYPES = (int, float, complex, sympy.Expr)

class SymbolicOperator(metaclass=abc.ABCMeta):

    @staticmethod
    def _issmall(val, tol=EQ_TOLERANCE):
        if isinstance(val, sympy.Expr):
            if sympy.simplify(abs(val) < tol) == True:
                return True
            return False
        if abs(val) < tol:
            return True
        return False

    @abc.abstractproperty
    def actions(self):
        pass

    @abc.abstractproperty
    def action_strings(self):
        pass

    @abc.abstractproperty
    def action_before_index(self):
        pass

    @abc.abstractproperty
    def different_indices_commute(self):
        pass
    __hash__ = None

    def __init__(self, term=None, coefficient=1.0):
        if not isinstance(coefficient, COEFFICIENT_TYPES):
            raise ValueError('Coefficient must be a numeric type.')
        self.terms = {}
        if isinstance(term, str) and '[' in term:
            self._long_string_init(term, coefficient)
            return
        if term is None:
            return
        if isinstance(term, (list, tuple)):
            term = self._parse_sequence(term)
        elif isinstance(term, str):
            term = self._parse_string(term)
        else:
            raise ValueError('term specified incorrectly.')
        coefficient, term = self._simplify(term, coefficient=coefficient)
        self.terms[term] = coefficient

    def _long_string_init(self, long_string, coefficient):
        pattern = '(.*?)\\[(.*?)\\]'
        for match in re.findall(pattern, long_string, flags=re.DOTALL):
            coef_string = re.sub('\\s+', '', match[0])
            if coef_string and coef_string[0] == '+':
                coef_string = coef_string[1:].strip()
            if coef_string == '':
                coef = 1.0
            elif coef_string == '-':
                coef = -1.0
            else:
                try:
                    if 'j' in coef_string:
                        if coef_string[0] == '-':
                            coef = -complex(coef_string[1:])
                        else:
                            coef = complex(coef_string)
                    else:
                        coef = float(coef_string)
                except ValueError:
                    raise ValueError('Invalid coefficient {}.'.format(coef_string))
            coef *= coefficient
            term = self._parse_string(match[1])
            coef, term = self._simplify(term, coefficient=coef)
            if term not in self.terms:
                self.terms[term] = coef
            else:
                self.terms[term] += coef

    def _validate_factor(self, factor):
        if len(factor) != 2:
            raise ValueError('Invalid factor {}.'.format(factor))
        index, action = factor
        if action not in self.actions:
            raise ValueError('Invalid action in factor {}. Valid actions are: {}'.format(factor, self.actions))
        if not isinstance(index, int) or index < 0:
            raise ValueError('Invalid index in factor {}. The index should be a non-negative integer.'.format(factor))

    def _simplify(self, term, coefficient=1.0):
        if self.different_indices_commute:
            term = sorted(term, key=lambda factor: factor[0])
        return (coefficient, tuple(term))

    def _parse_sequence(self, term):
        if not term:
            return ()
        elif isinstance(term[0], int):
            self._validate_factor(term)
            return (tuple(term),)
        else:
            for factor in term:
                self._validate_factor(factor)
            return tuple(term)

    def _parse_string(self, term):
        factors = term.split()
        processed_term = []
        for factor in factors:
            if self.action_before_index:
                if not factor[-1].isdigit():
                    raise ValueError('Invalid factor {}.'.format(factor))
                index_start = len(factor) - 1
                while index_start > 0 and factor[index_start - 1].isdigit():
                    index_start -= 1
                if factor[index_start - 1] == '-':
                    raise ValueError('Invalid index in factor {}. The index should be a non-negative integer.'.format(factor))
                index = int(factor[index_start:])
                action_string = factor[:index_start]
            else:
                if factor[0] == '-':
                    raise ValueError('Invalid index in factor {}. The index should be a non-negative integer.'.format(factor))
                if not factor[0].isdigit():
                    raise ValueError('Invalid factor {}.'.format(factor))
                index_end = 1
                while index_end <= len(factor) - 1 and factor[index_end].isdigit():
                    index_end += 1
                index = int(factor[:index_end])
                action_string = factor[index_end:]
            if action_string in self.action_strings:
                action = self.actions[self.action_strings.index(action_string)]
            else:
                raise ValueError('Invalid action in factor {}. Valid actions are: {}'.format(factor, self.action_strings))
            processed_term.append((index, action))
        return tuple(processed_term)

    @property
    def constant(self):
        return self.terms.get((), 0.0)

    @constant.setter
    def constant(self, value):
        self.terms[()] = value

    @classmethod
    def zero(cls):
        return cls(term=None)

    @classmethod
    def identity(cls):
        return cls(term=())

    def __str__(self):
        if not self.terms:
            return '0'
        string_rep = ''
        for term, coeff in sorted(self.terms.items()):
            if self._issmall(coeff):
                continue
            tmp_string = '{} ['.format(coeff)
            for factor in term:
                index, action = factor
                action_string = self.action_strings[self.actions.index(action)]
                if self.action_before_index:
                    tmp_string += '{}{} '.format(action_string, index)
                else:
                    tmp_string += '{}{} '.format(index, action_string)
            string_rep += '{}] +\n'.format(tmp_string.strip())
        return string_rep[:-3]

    def __repr__(self):
        return str(self)

    def __imul__(self, multiplier):
        if isinstance(multiplier, COEFFICIENT_TYPES):
            for term in self.terms:
                self.terms[term] *= multiplier
            return self
        elif isinstance(multiplier, self.__class__):
            result_terms = dict()
            for left_term in self.terms:
                for right_term in multiplier.terms:
                    left_coefficient = self.terms[left_term]
                    right_coefficient = multiplier.terms[right_term]
                    new_coefficient = left_coefficient * right_coefficient
                    new_term = left_term + right_term
                    new_coefficient, new_term = self._simplify(new_term, coefficient=new_coefficient)
                    if new_term in result_terms:
                        result_terms[new_term] += new_coefficient
                    else:
                        result_terms[new_term] = new_coefficient
            self.terms = result_terms
            return self
        else:
            raise TypeError('Cannot multiply {} with {}'.format(self.__class__.__name__, multiplier.__class__.__name__))

    def __mul__(self, multiplier):
        if isinstance(multiplier, COEFFICIENT_TYPES + (type(self),)):
            product = copy.deepcopy(self)
            product *= multiplier
            return product
        else:
            raise TypeError('Object of invalid type cannot multiply with ' + type(self) + '.')

    def __iadd__(self, addend):
        if isinstance(addend, type(self)):
            for term in list(addend.terms):
                self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]
                if self._issmall(self.terms[term]):
                    del self.terms[term]
        elif isinstance(addend, COEFFICIENT_TYPES):
            self.constant += addend
        else:
            raise TypeError('Cannot add invalid type to {}.'.format(type(self)))
        return self

    def __add__(self, addend):
        summand = copy.deepcopy(self)
        summand += addend
        return summand

    def __radd__(self, addend):
        return self + addend

    def __isub__(self, subtrahend):
        if isinstance(subtrahend, type(self)):
            for term in list(subtrahend.terms):
                self.terms[term] = self.terms.get(term, 0.0) - subtrahend.terms[term]
                if self._issmall(self.terms[term]):
                    del self.terms[term]
        elif isinstance(subtrahend, COEFFICIENT_TYPES):
            self.constant -= subtrahend
        else:
            raise TypeError('Cannot subtract invalid type from {}.'.format(type(self)))
        return self

    def __sub__(self, subtrahend):
        minuend = copy.deepcopy(self)
        minuend -= subtrahend
        return minuend

    def __rsub__(self, subtrahend):
        return -1 * self + subtrahend

    def __rmul__(self, multiplier):
        if not isinstance(multiplier, COEFFICIENT_TYPES):
            raise TypeError('Object of invalid type cannot multiply with ' + type(self) + '.')
        return self * multiplier

    def __truediv__(self, divisor):
        if not isinstance(divisor, COEFFICIENT_TYPES):
            raise TypeError('Cannot divide ' + type(self) + ' by non-scalar type.')
        return self * (1.0 / divisor)

    def __div__(self, divisor):
        return self.__truediv__(divisor)

    def __itruediv__(self, divisor):
        if not isinstance(divisor, COEFFICIENT_TYPES):
            raise TypeError('Cannot divide ' + type(self) + ' by non-scalar type.')
        self *= 1.0 / divisor
        return self

    def __idiv__(self, divisor):
        return self.__itruediv__(divisor)

    def __neg__(self):
        return -1 * self

    def __pow__(self, exponent):
        if not isinstance(exponent, int) or exponent < 0:
            raise ValueError('exponent must be a non-negative int, but was {} {}'.format(type(exponent), repr(exponent)))
        exponentiated = self.__class__(())
        for _ in range(exponent):
            exponentiated *= self
        return exponentiated

    def __eq__(self, other):
        return self.isclose(other)

    def __ne__(self, other):
        return not self == other

    def __iter__(self):
        for term, coefficient in self.terms.items():
            yield self.__class__(term=term, coefficient=coefficient)

    def isclose(self, other, tol=EQ_TOLERANCE):
        if not isinstance(self, type(other)):
            return NotImplemented
        for term in set(self.terms).intersection(set(other.terms)):
            a = self.terms[term]
            b = other.terms[term]
            if not (isinstance(a, sympy.Expr) or isinstance(b, sympy.Expr)):
                term_tol = tol * max(1, abs(a), abs(b))
            else:
                term_tol = tol
            if self._issmall(a - b, term_tol) is False:
                return False
        for term in set(self.terms).symmetric_difference(set(other.terms)):
            if term in self.terms:
                if self._issmall(self.terms[term], tol) is False:
                    return False
            elif self._issmall(other.terms[term], tol) is False:
                return False
        return True

    def compress(self, abs_tol=EQ_TOLERANCE):
        new_terms = {}
        for term in self.terms:
            coeff = self.terms[term]
            if isinstance(coeff, sympy.Expr):
                if sympy.simplify(abs(sympy.im(coeff)) <= abs_tol) == True:
                    coeff = sympy.re(coeff)
                if sympy.simplify(abs(sympy.re(coeff)) <= abs_tol) == True:
                    coeff = 1j * sympy.im(coeff)
                if sympy.simplify(abs(coeff) <= abs_tol) != True:
                    new_terms[term] = coeff
                continue
            if abs(coeff.imag) <= abs_tol:
                coeff = coeff.real
            if abs(coeff.real) <= abs_tol:
                coeff = 1j * coeff.imag
            if abs(coeff) > abs_tol:
                new_terms[term] = coeff
        self.terms = new_terms

    def induced_norm(self, order=1):
        norm = 0.0
        for coefficient in self.terms.values():
            norm += abs(coefficient) ** order
        return norm ** (1.0 / order)

    def many_body_order(self):
        if not self.terms:
            return 0
        else:
            return max((len(term) for term, coeff in self.terms.items() if self._issmall(coeff) is False))

    @classmethod
    def accumulate(cls, operators, start=None):
        total = copy.deepcopy(start or cls.zero())
        for operator in operators:
            total += operator
        return total

    def get_operators(self):
        for term, coefficient in self.terms.items():
            yield self.__class__(term, coefficient)

    def get_operator_groups(self, num_groups):
        if num_groups < 1:
            warnings.warn('Invalid num_groups {} < 1.'.format(num_groups), RuntimeWarning)
            num_groups = 1
        operators = self.get_operators()
        num_groups = min(num_groups, len(self.terms))
        for i in range(num_groups):
            yield self.accumulate(itertools.islice(operators, len(range(i, len(self.terms), num_groups))))
