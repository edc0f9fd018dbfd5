"""Writes /verif/properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
TB="curvlinops/_torch_base.py"
p("C01","All input formats of a matrix product represent one linear map",
 "Multiplying a PyTorch linear operator onto a vector or a matrix, given as one flat tensor or as a list of tensors with the parameters' shapes, always applies the same linear map, where the flat format is the concatenation of the flattened list entries. The result has the format (flat or list, vector or matrix) of the input, and the input itself is left unchanged. Every object that is neither a valid vector nor a valid matrix in one of the two formats is rejected with a ValueError before the map is applied.",
 ["inputs"],"for all numbers of blocks, block shapes of any rank, numbers of columns (including one), operators (any linear map, in and out spaces may differ), and all invalid inputs",
 "The tests multiply a handful of fixed shapes; they cannot cover every list length, rank, column count, and every malformed input.",
 [TB],[("format check and pre-processing","PyTorchLinearOperator.__matmul__"),("post-processing","PyTorchLinearOperator._check_output_and_postprocess")])
p("C02","Data set matrix is the correctly normalised sum over mini-batches",
 "The matrix represented by a curvature operator on a data set is the sum of its mini-batch matrices, weighted with one for a sum-reduced loss, and with the mini-batch's share of the total number of data points for a mean-reduced loss. Hence it does not depend on how the data points are split into mini-batches, also if these have different sizes. The number of data points is the sum of the mini-batch sizes, as measured by the user's batch size function if there is one, unless the user specifies it.",
 ["inputs","configurations"],"for all numbers of mini-batches, all (uneven) mini-batch sizes, both reductions, all block structures and numbers of columns, with and without user-specified data set and batch size",
 "Tests use a few data sets with two or three mini-batches; partition invariance must hold for every split.",
 [TB],[("accumulation","CurvatureLinearOperator._matmat"),("normalization","CurvatureLinearOperator._get_normalization_factor"),("data set size","CurvatureLinearOperator.__init__")])
p("C03","Hessian operator multiplies with the (block-diagonal) loss Hessian",
 "For every vector or matrix, the Hessian operator's product equals the matrix of second derivatives of the empirical risk with respect to the parameters applied to it, column by column. If block sizes are given, second derivatives between parameters of different blocks are treated as zero, and all others are exact. Block sizes that are not positive or do not sum to the number of parameter tensors, and block sizes for operators that do not support them, are rejected with a ValueError.",
 ["inputs","configurations"],"for all twice differentiable models and losses, parameter lists, block partitions, mini-batch partitions, reductions, and matrices",
 "Tests compare against automatic differentiation for a few small models and block sizes; the identity must hold for every model, partition and matrix.",
 ["curvlinops/hessian.py",TB,"curvlinops/utils.py"],[("mini-batch product","HessianLinearOperator._matmat_batch"),("splitting into blocks","split_list")])
p("C04","GGN operator multiplies with the generalised Gauss-Newton matrix",
 "For every vector or matrix, the GGN operator's product equals the sum over data of the model's transposed Jacobian times the loss Hessian with respect to the model's output times the Jacobian, applied to it column by column with the loss function's reduction taken into account.",
 ["inputs","configurations"],"for all models, twice differentiable losses, parameter lists, mini-batch partitions, reductions, and matrices",
 "Tests compare with automatic differentiation for a few small models; the identity must hold for every model and matrix.",
 ["curvlinops/ggn.py",TB],[("mini-batch product","GGNLinearOperator._matmat_batch")])
p("C05","Empirical Fisher is the averaged outer product of per-term gradients",
 "The empirical Fisher operator represents the sum over all loss terms of the outer product of the gradients of the un-reduced term, divided by the number of loss terms (and the output dimension for losses that also average over it) for mean reduction and undivided for sum reduction. This holds for square, cross-entropy and binary cross-entropy losses, also if the model predicts sequences or images, and unsupported losses are rejected.",
 ["inputs","configurations"],"for all models, parameter values, labels, mini-batch partitions, additional output dimensions, supported losses, reductions, and matrices",
 "Tests compare against a reference implementation for a few small models and data sets.",
 ["curvlinops/gradient_moments.py",TB],[("mini-batch product","EFLinearOperator._matmat_batch")])
p("C06","Monte-Carlo Fisher represents a fixed matrix of sampled gradients",
 "For a fixed seed, the Monte-Carlo Fisher operator represents one fixed matrix: all products (repeated, column by column, before or after other products, with the adjoint) use the same sampled labels. This matrix is the average over the drawn samples of the outer products of the gradients of the un-reduced per-term losses with labels drawn from the model's predictive distribution, with the same scaling as the empirical Fisher.",
 ["inputs","configurations","histories"],"for all models, parameter values, mini-batch partitions, sample counts, seeds, supported losses, reductions, matrices, and sequences of products",
 "Tests check convergence of a few small cases; they cannot cover every history of products, sample count and model.",
 ["curvlinops/fisher.py",TB],[("seeding","FisherMCLinearOperator._matmat"),("mini-batch product","FisherMCLinearOperator._matmat_batch"),("sampling","FisherMCLinearOperator.sample_grad_output")])
p("C07","Jacobian and transposed Jacobian operators are exact and mutually adjoint",
 "The Jacobian operator's product stacks the mini-batches' Jacobian-vector products in the order in which the data are presented, and the transposed Jacobian operator sums the mini-batches' vector-Jacobian products with the matching rows of its input. The two represent transposes of the same matrix and each one's adjoint represents the other.",
 ["inputs"],"for all models with outputs of any rank, parameter lists, mini-batch partitions (also uneven), and matrices",
 "Tests use a few small networks; row offsets must be right for every sequence of mini-batch sizes.",
 ["curvlinops/jacobian.py",TB],[("forward product","JacobianLinearOperator._matmat"),("transposed product","TransposedJacobianLinearOperator._matmat"),("adjoints","JacobianLinearOperator._adjoint")])
p("C08","SciPy export and adjoint represent the same matrix",
 "An operator exported to SciPy multiplies vectors and matrices, and with its adjoint, as the PyTorch operator does, for input arrays of any real data type that PyTorch supports and any memory layout. The export has the operator's shape and the requested data type (SciPy's default if there is none), and the computation uses the device and data type of the operator's parameters. Parameters on several devices or with several data types are rejected.",
 ["inputs","configurations"],"for all operators (square or not, self-adjoint or not), numbers of columns, NumPy data types of the input, and requested data types",
 "Tests export a few operators and multiply single-precision or double-precision matrices.",
 [TB],[("export","PyTorchLinearOperator.to_scipy"),("conversion","PyTorchLinearOperator._scipy_compatible"),("adjoint","PyTorchLinearOperator.adjoint")])
p("C09","Total gradient and loss are the empirical risk and its gradient",
 "The operators' total gradient and loss equal the empirical risk on the whole data set, with the loss function's reduction over all data points, and its derivative with respect to each parameter. The result does not depend on the partition into mini-batches, and operators without a loss function reject the request.",
 ["inputs","configurations"],"for all models, losses, numbers and sizes of mini-batches, and reductions",
 "Tests compare a few small data sets.",
 [TB],[("accumulation","CurvatureLinearOperator.gradient_and_loss"),("per-batch quantities","CurvatureLinearOperator.data_prediction_loss_gradient")])
p("C10","Determinism check accepts deterministic setups and rejects others",
 "Constructing an operator with the determinism check succeeds whenever model and data yield the same quantities in every pass, and for operators without a fixed data order also if the mini-batches are presented in another order. It fails with a RuntimeError whenever two passes differ in the total loss or gradient or two products with the same vector differ, and for operators that require a fixed data order also if any mini-batch's data, prediction, loss or gradient differs. After the check the operator is on the device it was on before.",
 ["inputs","histories","configurations"],"for all sequences of passes over data and model, whether they agree or differ in some mini-batch of some pass, for operators with and without fixed order and with and without loss",
 "Tests provoke a few specific kinds of non-determinism; which batch and quantity differs is arbitrary.",
 [TB,"curvlinops/utils.py"],[("comparison of two passes","CurvatureLinearOperator._check_deterministic"),("tolerance comparison","allclose_report")])
K="curvlinops/kfac.py"
p("C11","KFAC's Kronecker factors are the defined covariances of inputs and gradients",
 "For each layer, the first Kronecker factor equals the uncentered covariance of the layer's inputs and the second one that of the would-be gradients with respect to the layer's outputs, as defined by the chosen Fisher type, weight-sharing approximation, joint or separate treatment of weights and biases, and loss function with its reduction. The factors do not depend on how the data are split into mini-batches.",
 ["inputs","configurations"],"for all layer inputs, output gradients, mini-batch partitions, shared dimensions, output dimensions, Fisher types, approximations, losses and reductions",
 "Tests compare KFAC with the exact matrix on a few networks where they coincide; scaling errors for uneven batches or unusual combinations of settings can stay unnoticed.",
 [K,"curvlinops/kfac_utils.py"],[("input covariance","KFACLinearOperator._hook_accumulate_input_covariance"),("gradient covariance","KFACLinearOperator._accumulate_gradient_covariance"),("backward passes","KFACLinearOperator._compute_loss_and_backward")])
p("C12","KFAC product is block-diagonal with Kronecker-factored blocks",
 "Multiplying with KFAC applies to each layer's weight (flattened over its trailing dimensions) and bias the Kronecker product of the layer's two factors, jointly if requested and both are present, and separately otherwise with the second factor alone for biases. Blocks are located by the position of the parameters in the user's list, whatever its order, and no layer influences another one.",
 ["inputs","configurations"],"for all numbers of layers, weight ranks and sizes, presence of weights and biases, positions in the parameter list, factors, and numbers of columns",
 "Tests compare a few networks and parameter orders.",
 [K],[("product","KFACLinearOperator._matmat"),("parameter positions","KFACLinearOperator.compute_parameter_mapping")])
p("C13","KFAC's trace, determinants and norm are those of its matrix",
 "KFAC's trace, determinant, log determinant and Frobenius norm equal those of the matrix it represents, for joint and separate treatment of weights and biases and for layers where only one of the two is considered. Repeated access returns the same value, also after products, and the value belongs to the current Kronecker factors.",
 ["inputs","configurations","histories"],"for all numbers of layers, factor sizes and values, presence of weights and biases, and orders of access",
 "Tests compare a few networks with dense matrices.",
 [K],[("trace","KFACLinearOperator.trace"),("determinant","KFACLinearOperator.det"),("log determinant","KFACLinearOperator.logdet"),("norm","KFACLinearOperator.frobenius_norm")])
I="curvlinops/inverse.py"
p("C14","Inverse KFAC inverts each damped block as configured",
 "Multiplying with inverse KFAC applies to each layer's weight and bias the Kronecker product of the inverses of the damped factors (one value, one per factor, or the heuristic split bounded from below), or for exact damping the inverse of the damped Kronecker product, jointly or separately as KFAC itself does. Results do not depend on caching, on the order of products, or on the format of the input, and the multiplied object is not modified. Contradictory damping settings are rejected with a ValueError.",
 ["inputs","configurations","histories"],"for all numbers of layers, factors, damping values and strategies, presence of weights and biases, positions, caching on or off, and sequences of products",
 "Tests compare some settings for a few networks; sequences of products, all positions and damping combinations are not covered.",
 [I],[("product","KFACInverseLinearOperator._matmat"),("damping","KFACInverseLinearOperator._compute_damping"),("inversion","KFACInverseLinearOperator._compute_inverse_factors")])
p("C15","State dictionaries restore KFAC and its inverse exactly",
 "An operator restored from the state dictionary of KFAC or inverse KFAC is configured like the saved one and represents the same matrix, with the same derived quantities, without passing over the data again if the Kronecker factors had been computed. A state dictionary with another loss function, another reduction, or with Kronecker factors that do not belong to the operator's layers is rejected with a ValueError.",
 ["histories","configurations"],"for all settings, states before and after computing factors, inverses or derived quantities, and all mismatching state dictionaries",
 "Tests save and load a few operators at one point of their history.",
 [K,I],[("saving and loading KFAC","KFACLinearOperator.state_dict/load_state_dict/from_state_dict"),("saving and loading the inverse","KFACInverseLinearOperator.state_dict/load_state_dict/from_state_dict")])
p("C16","A failing KFAC computation leaves no trace",
 "If computing the Kronecker factors fails at any mini-batch, because of the data, the model or the loss, the exception is propagated, no hook stays on the model, and no partially accumulated factors are used afterwards: a later product computes them from scratch and gives the same result as if the failure had not happened. Likewise, a successful computation leaves no hooks on the model.",
 ["fault_sequences","histories"],"for all mini-batches at which the data source, the forward pass or the loss fails, and all operations that trigger the computation",
 "Tests do not inject faults.",
 [K],[("computation of the factors","KFACLinearOperator._compute_kfac")])
p("C17","Submatrix operator is the selected rows and columns",
 "The submatrix operator multiplies vectors and matrices of every number of columns with the selected rows and columns of the original operator, in the order of the index lists, and its adjoint is the adjoint operator's submatrix with rows and columns exchanged. Index lists with non-integers, duplicates, or out-of-bounds values are rejected with a ValueError, and a rejected re-definition leaves the operator as it was.",
 ["inputs","histories"],"for all operators, index lists (any order and length), vectors, matrices, and sequences of re-definitions",
 "Tests draw a few random index lists for small matrices.",
 ["curvlinops/submatrix.py"],[("definition","SubmatrixLinearOperator.set_submatrix"),("product","SubmatrixLinearOperator._matvec"),("adjoint","SubmatrixLinearOperator._adjoint")])
p("C18","Iterative inverses apply exactly the configured solver",
 "The Neumann inverse equals the scaled truncated Neumann series with the configured number of terms, raises an error as soon as NaNs show up if asked to check, and does not modify its input. The CG and LSMR inverses solve with the original operator, the given right-hand side, column by column for matrices, and exactly the hyperparameters the user has set, where un-set ones have SciPy's defaults. Inverses are formed of square operators.",
 ["inputs","configurations","histories"],"for all operators, right-hand sides, numbers of terms, scales, hyperparameter settings and re-settings",
 "Tests compare a few well-conditioned matrices to their inverse with explicitly chosen hyperparameters.",
 [I],[("Neumann iteration","NeumannInverseLinearOperator._matvec"),("CG","CGInverseLinearOperator._matvec"),("LSMR","LSMRInverseLinearOperator._matvec")])
p("C19","Hutchinson estimators return the defined quadratic forms",
 "Each sample of the trace, diagonal and squared Frobenius norm estimators is the defined function of the operator and one freshly drawn vector of the requested distribution with one entry per column of the operator; entries are independent with zero mean and unit variance. Operators of wrong shape (where squareness is required) and unknown distributions are rejected with a ValueError.",
 ["inputs","histories"],"for all operators, draws, distributions, and sequences of samples",
 "Tests check that averages over many samples come close to the exact value, with tolerances.",
 ["curvlinops/trace/hutchinson.py","curvlinops/diagonal/hutchinson.py","curvlinops/norm/hutchinson.py","curvlinops/sampling.py"],
 [("trace","HutchinsonTraceEstimator.sample"),("diagonal","HutchinsonDiagonalEstimator.sample"),("norm","HutchinsonSquaredFrobeniusNormEstimator.sample"),("sampling","random_vector")])
p("C20","Hutch++ combines an exact subspace trace with a projected estimate",
 "Each Hutch++ sample is the exact trace of the operator in the cached subspace plus the quadratic form of a freshly drawn vector with the subspace projected out, so its mean over draws is the operator's trace. The subspace is an orthonormal basis of the operator's products with random vectors of the requested number and distribution, computed once and reused by all later samples. Non-square operators and subspaces that are too large are rejected with a ValueError.",
 ["inputs","histories"],"for all operators, basis dimensions, draws, distributions, and sequences of samples",
 "Tests check averages over many samples with tolerances.",
 ["curvlinops/trace/meyer2020hutch.py","curvlinops/sampling.py"],[("sample","HutchPPTraceEstimator.sample"),("subspace","HutchPPTraceEstimator.maybe_compute_and_cache_subspace")])
S="curvlinops/papyan2020traces/spectrum.py"
p("C21","Lanczos spectral densities follow their definition",
 "The estimated spectral densities (plain and logarithmic) are the average over the requested number of independent Lanczos runs of the Gaussian mixture defined by the run's quadrature nodes and weights, evaluated on a grid spanning the spectral boundaries enlarged by the margin, with the defined width, and normalised for the operator's original scale. The cached versions give the same function of the runs for every sequence of calls with different settings, and draw new runs only when more are requested than before. User-specified boundaries are used as given and only missing ones are estimated.",
 ["inputs","configurations","histories"],"for all operators, numbers of runs, Lanczos vectors and grid points, boundaries, margins, widths, and sequences of calls",
 "Tests compare a few settings against densities of small matrices with tolerances.",
 [S],[("density of one run","lanczos_approximate_spectrum_from_iter"),("logarithmic density","lanczos_approximate_log_spectrum_from_iter"),("average","lanczos_approximate_spectrum"),("cache","LanczosApproximateSpectrumCached"),("boundaries","approximate_boundaries")])
p("C22","Lanczos iteration satisfies the three-term recurrence",
 "The nodes and vectors returned by the Lanczos routine are the eigen-decomposition of the symmetric tridiagonal matrix whose diagonal and off-diagonal entries are given by the three-term Lanczos recurrence for the operator, started from one random vector of unit norm. The operator is applied once per iteration.",
 ["inputs"],"for all operators, numbers of iterations, and start vectors",
 "Tests compare eigenvalues of a few small matrices.",
 [S],[("iteration","fast_lanczos")])
p("C23","Outer product and projector operators represent their sum of outer products",
 "The outer product operator multiplies vectors and matrices with any number of columns with the sum of its coefficients times the outer products of its vectors, the projector does so with unit coefficients, and both are self-adjoint.",
 ["inputs"],"for all dimensions, numbers of vectors, coefficients, vectors, and multiplied matrices",
 "Tests multiply vectors for a few fixed dimensions.",
 ["curvlinops/outer.py"],[("product","OuterProductLinearOperator._matvec"),("adjoint","OuterProductLinearOperator._adjoint")])
p("C24","Activation Hessian is the Hessian w.r.t. the selected intermediate feature",
 "The activation Hessian's product equals the second derivatives of the mini-batch loss with respect to the selected input or output of the selected layer applied to each column. Only the selected feature is recorded, no hook stays on the model, also if the forward pass fails, and more than one mini-batch, unknown layers and unknown kinds of features are rejected with a ValueError.",
 ["inputs","configurations","fault_sequences"],"for all models, losses, layers, features, matrices, and points of failure in the forward pass",
 "Tests compare a few networks, and do not inject faults.",
 ["curvlinops/experimental/activation_hessian.py"],[("product","ActivationHessianLinearOperator._matmat_batch"),("recording","store_activation")])
U="curvlinops/kfac_utils.py"
p("C25","Loss Hessian square root squares to the loss Hessian",
 "The square root computed for one data point's prediction and label, multiplied with its own transpose, equals the Hessian of the loss with respect to the prediction with the documented scaling per reduction, for square, cross-entropy and binary cross-entropy losses. Predictions or labels for several data points, labels that are not binary, and unsupported losses are rejected.",
 ["inputs","configurations"],"for all predictions, labels, numbers of outputs, supported losses and reductions",
 "Tests draw a few random predictions.",
 [U],[("square root","loss_hessian_matrix_sqrt")])
p("C26","Extracted patches reproduce the convolution they belong to",
 "The patches extracted from a convolution's input contain for each output location exactly the (zero-padded) input values that the kernel touches there, averaged over channel groups, in the order of the flattened kernel, and the averaged patches are their mean over output locations. String-valued and numeric paddings with the same meaning give the same patches.",
 ["inputs","configurations"],"for all input and kernel sizes, strides, paddings, dilations, groups, batch sizes and channel numbers",
 "Tests compare a list of fixed convolution settings.",
 [U],[("patches","extract_patches"),("averaged patches","extract_averaged_patches")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
