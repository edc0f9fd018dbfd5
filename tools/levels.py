DEFAULT = ("exploration",
           "contracts evaluated at run time on the real code (bounded stand-in)",
           "The function contracts are evaluated on the real code for generated inputs with "
           "independent dense oracles; bounded, nothing is counted as proved.")
_T = ("contract-based deductive verification of the extracted source (vc/: symbolic execution with "
      "invariant inference, term normal form and z3); the same contracts evaluated at run time as "
      "bounded stand-in")


def _n(what):
    return ("proof", _T, what + " Library calls are replaced by assumed contracts, arithmetic is exact "
            "(see DESIGN.md); not covered parts are evaluated at run time and labelled bounded.")


LEVELS = {
    "C01": _n("All formats and shapes of operands, for any number of parameters, any shapes and any number of "
              "columns, relative to the contract of _matmat."),
    "C02": _n("The mini-batch accumulation for any number and sizes of mini-batches, relative to the contract of "
              "_matmat_batch."),
    "C03": _n("Full blocks and one to three blocks for any number and shapes of parameters, mini-batches of any "
              "number and size, any model and loss; longer lists of blocks are evaluated at run time."),
    "C04": _n("Any model, loss, parameters, mini-batches and columns."),
    "C05": _n("The three losses, both reductions, any shapes of predictions and any mini-batches."),
    "C06": _n("The three losses, both reductions, any shapes, mini-batches, numbers of samples and seeds; sequences "
              "of three products."),
    "C07": _n("Any model, loss, parameters, mini-batches and columns."),
    "C09": _n("Any model and loss, both reductions, any mini-batches and parameters; two calls in sequence."),
    "C10": _n("Arbitrary contents of every pass over the data; the closeness of two tensors is an unknown relation "
              "which holds for equal tensors."),
    "C11": _n("Networks of one supported layer (linear layers with any number of sequence axes, convolutions) and of two "
              "layers with some parameters, all Fisher types, both approximations, the three losses, both reductions, any "
              "mini-batches and sizes, relative to the contracts of C25 and C26."),
    "C12": _n("Networks of two supported layers of any sizes, parameters in any order, any columns, relative to the "
              "contract of _compute_kfac."),
    "C13": _n("Networks of two supported layers of any sizes, every order of accesses in the contract, relative to the "
              "contract of _compute_kfac and of the library's determinants."),
    "C14": _n("Networks of two supported layers of any sizes, all damping modes, any values, relative to the contract of "
              "_compute_kfac and of the library's Cholesky and eigen-decompositions."),
    "C15": _n("Networks of two supported layers of any sizes, every stage of the saved operator, relative to the "
              "contract of _compute_kfac; the determinism check after restoring is evaluated at run time."),
    "C16": _n("A network of one supported layer of any sizes, failures of the data source, the model or the loss for an "
              "arbitrary set of the mini-batches (any number and sizes of them), all triggering operations; MSELoss with "
              "mean reduction; a failure is followed by one product."),
    "C17": _n("Any operator size, index lists, and number of columns."),
    "C19": _n("Any operator size and any number of samples."),
    "C20": _n("Any operator size, subspace dimension and number of samples."),
    "C23": _n("Any dimension, rank and number of columns."),
    "C24": _n("A network of three layers with arbitrary functions, any feature sizes and any number of columns."),
    "C25": _n("Any number of classes, any predictions and labels."),
}
NOTES = "See DESIGN.md."
