"""levels.json: what is claimed per property"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
BASE = ("Every obligation is regenerated from /repo's source on each run and discharged for all values of the symbolic inputs. "
        "Machine arithmetic is treated as mathematical; dense linear algebra, FFT and array primitives are trusted by their documented contracts. "
        "A bounded companion replays the property on the real code (not counted as proved). ")
NCZ = "deductive verification: contracts on the real functions, symbolic execution with loop rules, discharged by exact non-commutative algebra and z3"
T = {
 "P01": (NCZ + " and Lean", "Energy identity of every layer (Poynting derivative, both factorizations named), junctions, sums over the orders; mean value theorem assumed."),
 "P02": (NCZ, "Loop invariants over a symbolic number of layers for the recursion of the scattering matrices."),
 "P03": (NCZ, "Curl and divergence equations as identities of the operators, for every kind of layer."),
 "P04": (NCZ, "Star product, associativity by loop invariants, cut layers."),
 "P05": (NCZ, "Every public method is executed from every cache state; the results are those of a fresh simulation; frame conditions on user arrays."),
 "P06": (NCZ, "Sums over a symbolic number of orders; dictionaries and order access by index."),
 "P07": (NCZ, "Poynting identity for arbitrary amplitudes."),
 "P08": (NCZ, "Trigonometric identities exact; the mode amplitudes for incidence towards the stack."),
 "P09": (NCZ, "2 x 2 lattices with symbolic entries."),
 "P10": (NCZ + " (linear arithmetic over monomials, rational function identities) and Lean (Gauss circle bound for lattices)", "Any lattice and any number of harmonics; argsort is an arbitrary sorting permutation; keys closer than the code's own tolerance are taken to be equal."),
 "P11": ("deductive verification: recursive contract of the rasterization (frame and termination included) discharged by z3, affine maps by rational function identities", "shapely's predicates and affine maps are trusted by their documented contracts; points exactly on a boundary are free."),
 "P12": (NCZ, "Discrete Fourier transform by definition on symbolic grids."),
 "P13": (NCZ, "Constant profiles and 1D/2D descriptions give the same operators, hence the same diffraction given invertible continuity systems."),
 "P14": (NCZ, "Eigen equation modulo the contract of eig; branch by z3 on the sign of the imaginary part."),
 "P15": (NCZ, "All patterns of copies over the layer operations; the loop over the layers by invariant."),
 "P16": ("deductive verification by exhaustive closure: the real modules are executed in every reachable selection state (finite), the post-condition is checked on each transition",
         "External libraries are stubs; a name that is no back end is an opaque string. States are enumerated completely (the closure is finite), so sequences of any length are covered."),
 "P17": (NCZ + " and Lean", "Inductive loop invariant for the refinement loop; any number of workers by the contract of joblib.Parallel."),
 "P18": ("deductive verification: contracts discharged by z3, exact algebra and Lean", "tanh and powers by their stated properties; multi_simp for any number of materials (generic entry of the matrix, M M^-1 = 1), also unrolled for 2 to 8."),
 "P19": (NCZ, "Any length of the list, any number of workers, by the contract of joblib.Parallel."),
 "P20": (NCZ, "Isotropic layers (the anisotropic case is a documented gap of the code)."),
 "P21": (NCZ, "Symbolic grids and numbers of orders; index arithmetic modulo the grid by z3."),
 "P22": (NCZ, "Every path of the constructors: which inputs raise and which do not."),
 "P25": (NCZ, "Every contracted function of the computation is executed under each of the five back ends and satisfies the same determining contract in each; precision and rounding are only seen by the bounded companion, which compares the five real back ends. The array primitives of the five libraries are trusted by their documented contracts."),
 "P23": (NCZ, "External optimisers, interpolators and FFT only assumed to return finite arrays of the right shape; norm bounds up to the code's own regularisation."),
}
EXTRA = {}
if os.path.exists(os.path.join(H, "levels_extra.json")):
    EXTRA = json.load(open(os.path.join(H, "levels_extra.json")))
out = {k: dict(level="proof", technique=t, note=BASE + n) for k, (t, n) in T.items()}
out["P24"] = dict(level="other", technique="contract verification of the gradient wrapper and the array constructor (executed over tensors with ghost dependence), differentiability of every executed operation by symbolic execution; bounded comparison with finite differences",
                  note="The obligations show that the gradient is requested for the right point, variable and value, and that every function of the computation, over symbolic arguments, uses only recorded differentiable operations of the library. The derivative rules of torch and autograd are trusted, so the numerical equality itself is only checked by the bounded companion (central differences of the real code, not counted as proved).")
out.update(EXTRA)
json.dump(out, open(os.path.join(H, "levels.json"), "w"), indent=1)
