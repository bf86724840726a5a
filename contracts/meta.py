"""Which contract modules decide which property, and what is trusted."""

COMMON_ASSUMPTIONS = [
    "floating point arithmetic is treated as exact real arithmetic (rounding, overflow, NaN and infinities of intermediate results are not modelled)",
    "exp, log, sqrt, pow, tanh and sigmoid are uninterpreted functions constrained by standard axioms",
    "random generators are arbitrary: every draw is an unconstrained value of its support (normal: any real, uniform: [0,1))",
]
PY_TRUSTED = [
    "z3 5.3.2 / cvc5 1.1.2 / the rational normaliser of vc/solver.py",
    "the meaning given to torch functions on symbolic tensors (pyvc/tensor.py), cross-checked on every run by evaluating each contract on real torch tensors",
    "CPython executes the functions of /repo/src itself (no extraction, no translation)",
    "inside aihwkit modules float()/int()/max()/min()/math.* are replaced by versions that accept symbolic values",
]
PY_BOUND = "python contracts: all real values, draws and execution paths, for the tensor shapes enumerated in the contract cases"
CC_TRUSTED = [
    "g++ 13 and the ABI: the translation units of /repo/src/rpucuda are compiled unchanged with the scalar type of their templates replaced by the verifier's scalar (cc/prelude.h)",
    "BLAS routines are replaced by their textbook definition (cc/prelude.h); random generators by arbitrary draws of their support (cc/rng.h)",
    "the driver of the C++ functions (cc/k_*.cpp) passes inputs and outputs through the public classes of rpucuda",
]
CC_BOUND = "C++ contracts: all real values, draws and execution paths, for the array sizes enumerated in the contract cases"

PROPS = {
    "C01": dict(py=["c01"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C02": dict(py=["c02"], trusted=PY_TRUSTED, bounds=[PY_BOUND, "split_sizes: sizes up to 259"]),
    "C03": dict(py=["c03"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C04": dict(py=["c04"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C05": dict(py=["c05"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C06": dict(py=["c06"], cc=["tile"], trusted=CC_TRUSTED, bounds=[CC_BOUND]),
    "C07": dict(py=["c07"], trusted=PY_TRUSTED, bounds=[PY_BOUND, "calibration: concrete data"]),
    "C13": dict(py=["c13"], cc=["weight"], trusted=PY_TRUSTED + CC_TRUSTED, bounds=[PY_BOUND, CC_BOUND]),
    "C14": dict(py=["c14"], cc=["weight"], trusted=PY_TRUSTED + CC_TRUSTED, bounds=[PY_BOUND, CC_BOUND]),
    "C12": dict(py=["c12"], cc=["weight"], trusted=PY_TRUSTED + CC_TRUSTED, bounds=[PY_BOUND, CC_BOUND]),
    "C15": dict(py=["c15"], cc=["tile"], trusted=CC_TRUSTED + PY_TRUSTED, bounds=[CC_BOUND, PY_BOUND]),
    "C31": dict(py=["c31"], cc=["tile"], trusted=CC_TRUSTED + PY_TRUSTED, bounds=[CC_BOUND, PY_BOUND]),
    "C32": dict(py=["c32"], cc=["tile"], trusted=CC_TRUSTED + PY_TRUSTED, bounds=[CC_BOUND, PY_BOUND]),
    "C16": dict(py=["c16"], cc=["tile"], trusted=CC_TRUSTED + PY_TRUSTED, bounds=[CC_BOUND, PY_BOUND]),
    "C17": dict(py=["c17"], cc=["tile", "pulse"], trusted=CC_TRUSTED, bounds=[CC_BOUND]),
    "C18": dict(py=["c18"], cc=["tile"], trusted=CC_TRUSTED, bounds=[CC_BOUND]),
    "C20": dict(py=["c20"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C21": dict(py=["c21"], trusted=PY_TRUSTED, bounds=[PY_BOUND, "sequences of up to 5 steps, up to 3 layers"]),
    "C22": dict(py=["c22"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C23": dict(py=["c23"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C24": dict(py=["c24"], cc=["tile"], trusted=CC_TRUSTED + PY_TRUSTED, bounds=[CC_BOUND, PY_BOUND]),
    "C25": dict(py=["c25"], cc=["tile"], trusted=CC_TRUSTED + PY_TRUSTED, bounds=[CC_BOUND, PY_BOUND]),
    "C26": dict(py=["c26"], cc=["tile"], trusted=CC_TRUSTED, bounds=[CC_BOUND]),
    "C19": dict(py=["c19"], cc=["tile"], trusted=CC_TRUSTED, bounds=[CC_BOUND]),
    "C27": dict(py=["c27"], cc=["tile"], trusted=CC_TRUSTED + PY_TRUSTED, bounds=[CC_BOUND, PY_BOUND]),
    "C28": dict(py=["c28"], cc=["tile", "bind"], trusted=CC_TRUSTED + [
        "torch::Tensor and pybind11 are replaced by the definitions in cc/mock (strided views of a storage with guard cells; calls by position and keyword); rpu_base_tiles.cpp itself is compiled unchanged"], bounds=[CC_BOUND]),
    "C29": dict(py=["c29"], trusted=PY_TRUSTED, bounds=[PY_BOUND, "refusal of writes and reads: every method of torch.Tensor with a fixed list of arguments, on real tensors"]),
    "C30": dict(py=["c30"], trusted=PY_TRUSTED, bounds=[PY_BOUND, "models: eleven nested, split, shared and recurrent models", "options of load_state_dict and another scaling in a replaced configuration: drawn weights"]),
    "C11": dict(py=["c11"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C10": dict(py=["c10"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C09": dict(py=["c09"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
    "C08": dict(py=["c08"], trusted=PY_TRUSTED, bounds=[PY_BOUND]),
}

TECH = "contracts on the real functions; path-exploring symbolic execution; obligations discharged by rational normaliser, z3 and cvc5"
LEVEL_NOTE = ("each obligation holds for all real values, all random draws and all paths of the functions under contract; tensor "
              "shapes and option combinations are the enumerated contract cases; floating point is treated as real arithmetic")
