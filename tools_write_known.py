"""Regenerates known_findings.jsonl (all repaired; 'fixed' entries suppress nothing)."""
import json
FIXED = [
 ("C02", "4b3541c", "scaling a SketchContainer used an undefined variable: s * c of a streaming sketch raised NameError"),
 ("C22", "f09495c", "CPTensor.size was a method, so the size of a CP tensor and of every sum containing one was not a number"),
 ("C05", "71316ae", "hmt_sketch(return_drm=True) raised NameError"),
 ("C14", "17121ff", "TensorTrain.svdvals crashed for ranks larger than the dimensions allow"),
 ("C22", "04a120d", "power_decay_tensor raised NameError"),
 ("C22", "6867193", "sqrt_tensor((2,3,4)) had shape (3,2,4): the first two dimensions were swapped"),
 ("C13", "1969949", "MPO * c changed the MPO itself in place (also breaks C18)"),
 ("C06", "49ecd2d", "transposed DRMs and sketches had the wrong shape and rank order when the shape is not a palindrome"),
 ("C03", "04e8491", "a sliced TensorTrainDRM ignored its slice for dense and Tucker tensors, so blocked sketches of them were wrong"),
 ("C03", "bcbbcda", "SparseSignDRM.slice lost or overran non-zeros per row (also breaks C10: requested number of non-zeros)"),
 ("C12", "65f68e5", "SparseTensor.gather after modifying entries returned the old entries"),
 ("C07", "ce030c1", "DenseGaussianDRM did not use its own seed and reseeded the global generator (also breaks C08, C03)"),
 ("C07", "85bbe6a", "SparseTensor.random(seed=) reseeded numpy's global generator (also breaks C08)"),
 ("C07", "dd543e7", "seeded sketches depended on PYTHONHASHSEED of the process"),
 ("C12", "07ecc49", "error(fast=True, relative=True) between two zero tensors was nan"),
 ("C19", "e3feb21", "pairwise rounding of a sum of one tensor train did not round it"),
 ("C09", "4df5af0", "lazy Gaussian matrices repeated rows for shapes with over 2^31 entries (flat index overflow)"),
 ("C09", "dcf7b9c", "a lazy Gaussian entry was infinite when the hash gave 0"),
 ("C10", "5c7f49c", "sparse sign matrix written out of bounds for more non-zeros than the rank"),
 ("C21", "ab5c416", "increase_rank tested for CanSlice instead of CanIncreaseRank and failed later with AttributeError"),
 ("C20", "b2d7578", "TT-GMRES compared the squared residual with the tolerance, and failed on zero residuals"),
 ("C05", "f3561ac", "an integer or list rank was rejected when the DRM was passed explicitly"),
 ("C07", "701f64f", "seeded random numbers depended on the number of processors of the machine"),
 ("C01", "acc4be7", "sketches of dense and Tucker tensors with the tensor-train DRM did not match those of other formats with the same values (also breaks C02)"),
 ("C07", "62792c5", "seeded orthogonal sketches advanced the global random generator"),
 ("C23", "0b14928", "experiments were run again after reopening the log (None, tuples, classes), and a stop during saving could lose the whole log"),
 ("C13", "9d14411", "a scaled Tucker tensor shared its list of factors with the original"),
 ("C16", "09adb58", "trim_ranks stopped after 100 sweeps: e.g. shape (5,1,...,1,5) of order 152 with ranks (5,...,5,1) was not trimmed to 1"),
 ("C16", "b0eb7bb", "numpy integer dimensions overflowed when trimming ranks"),
 ("C12", "179c061", "error(rmse=True) was nan or wrong for tensors with more than 2^63 entries (overflow of the number of entries)"),
 ("C12", "2994e84", "TensorTrain.gather returned zeros for negative indices and for indices outside the tensor"),
 ("C17", "34f5d3d", "pseudo-inverses of rank-deficient matrices kept singular values that are rounding errors"),
    ("C12", "a98c1c7", "gathering entries of (and so dot products with) a CP tensor whose first factor holds integers and another floats raised UFuncTypeError"),
    ("C17", "b643330", "the oblique projector of rank-deficient matrices inverted rounding errors: P X differed from X by up to several percent, for instance for rank-1 X and Y of shape (70, 3) (numpy seed 0)"),
    ("C16", "45a06fa", "trim_ranks of NumPy integer ranks overflowed: shape (2**40,)*4 with ranks np.array([2**62]*3) was trimmed to (0, 0, 0)"),
]
with open("/verif/known_findings.jsonl", "w") as f:
    for p, c, t in FIXED:
        f.write(json.dumps({"kind": "fixed", "property": p, "commit": c, "text": f"fixed: property={p} {c} {t}"}) + "\n")
print(len(FIXED))
