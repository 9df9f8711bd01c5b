"""Writes known_findings.json (by hand-maintained lists; never run by a check)."""
import json, os
FIXED = [
 ("C04", "6969cb8", "save_optimization_results wrote a schema entry into the caller's result object"),
 ("C04", "c9487dd", "save_parameter_grid_evaluation overwrote the caller's ValueEstimate values"),
 ("C03", "d351647", "MockOptimizer wrote the optimum into the caller's initial parameters"),
 ("C02", "9774f68", "iterating an operator kept the position on the operator itself (nested iteration broke)"),
 ("C06", "6f19cab", "batch_circuits appended to the circuit set it was given"),
 ("C06", "c956d7e", "steps popped entries out of the specification dictionaries they were given"),
 ("C03", "c45e448", "compute_group_variances modified the prior expectation values it was given"),
 ("C02", "9d695db", "PolynomialTensor addition shared components with the right operand"),
 ("C02", "3743f02", "PolynomialTensor subtraction shared components with the right operand"),
 ("C02", "2855bd6", "a += a and a -= a raised (dictionary changed size during iteration)"),
 ("C07", "c027b58", "gate parameters were matched to qubits in sorted, not in given order"),
 ("C08", "ce17f39", "custom gates whose matrices differ in shape could compare equal"),
 ("C09", "ea1d96d", "parameters of custom gates were restored without the gate's own symbols"),
 ("C09", "9d7a302", "definitions of custom gates inside controlled or inverted gates were not saved"),
 ("C10", "812e5a0", "loading a measurement estimate saved without frame measurements failed"),
 ("C11", "17a8f5a", "circuits beyond the list of sample counts were silently not run"),
 ("C12", "082a79f", "each save dropped the records made before"),
 ("C13", "44afa98", "tasks beyond the list of symbol maps were silently dropped"),
 ("C17", "b3af541", "copies of recorders with gradient lost the recorded gradient calls"),
 ("C18", "56886a8", "a rejected amplitude assignment left the state modified"),
 ("C21", "f193414", "translating an unsupported expression gave None"),
 ("C22", "1504ad7", "operator comparison loosened its tolerance from term to term"),
 ("C22", "b906cf6", "compress dropped symbolic coefficients with negative parts"),
 ("C23", "d02cb70", "freezing orbitals compared indices by identity and ignored prune"),
 ("C24", "f5d17a9", "computing the molecular RDM truncated the cached RDMs"),
 ("C26", "9063e67", "higher-order Trotter derivatives repeated circuits for the whole time"),
 ("C26", "94c7d36", "decomposed circuits lost the number of qubits of the original"),
 ("C26", "425efb5", "U3 decomposition failed on operations that have no gate"),
 ("C29", "c99ad3d", "symbol substitution in gate parameters was sequential"),
 ("C29", "2372821", "wavefunction binding was sequential"),
 ("C29", "9c531ff", "custom gate matrices substituted parameters sequentially"),
 ("C31", "e9f9155", "the summing step failed on an undefined name for operators given as files"),
 ("C31", "77220f1", "concatenating circuits saved a circuit as a circuit set, which fails"),
 ("C31", "73a45ca", "two steps loaded operators that were given as objects"),
 ("C32", "f143962", "an unknown layer type silently gave None"),
 ("C33", "a8bedcf", "dec2bin accepted 2**length for length digits"),
 ("C24", "faa592f", "number-preserving matrices failed on targets beyond a truncated basis"),
 ("C24", "bc6993b", "get_sparse_operator ignored n_qubits for polynomial tensors"),
 ("C10", "be7af92", "a zero operator saved as plain text loaded as another operator"),
 ("C33", "cc425f3", "compare_unitary divided by zero for a zero first entry"),
]
FINDINGS = [
 {"property": "C22",
  "key": "sign of the operand in what is stored|openfermion.ops.representations.polynomial_tensor."
         "PolynomialTensor.__isub__:terms",
  "what": "subtracting a tensor stores components missing on the left without negating them "
          "(an existing test, test_different_keys_sub, expects exactly that)"}]
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    json.dump({"findings": FINDINGS,
               "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
              open(os.path.join(here, "known_findings.json"), "w"), indent=1)
