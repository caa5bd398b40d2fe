"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Homogeneous and affine coordinates describe the same projective point",
     "Converting homogeneous coordinates to affine coordinates in a patch and back gives the same "
     "projective point (the original vector divided by its patch coordinate), and converting affine "
     "to homogeneous to affine coordinates in the same patch is the identity. When no patch is given, the "
     "chosen patch is one whose coordinate has maximal modulus, so that all returned affine coordinates "
     "have modulus at most one. The two index maps between homogeneous and affine positions are mutually "
     "inverse away from the patch coordinate and agree with where the coordinates are actually placed.",
     ["inputs"], "every complex vector with non-zero patch coordinate, every patch, every index",
     "The tests convert a handful of fixed random vectors; a wrong shift that only shows for the last patch or "
     "for one index order needs all patches and all values.",
     ["cyjax/projective.py", "cyjax/util.py"],
     [("hom_to_affine", "cyjax/projective.py"), ("affine_to_hom", "cyjax/projective.py"),
      ("index_hom_to_affine / index_affine_to_hom", "cyjax/projective.py")],
     ["hom_to_affine", "affine_to_hom", "index_hom_to_affine", "index_affine_to_hom"])

prop("C02", "Changing affine charts never changes the projective point",
     "Re-expressing affine coordinates in another patch gives coordinates of the same projective point. "
     "Consequently changing to a patch and back is the identity, going through an intermediate patch is the "
     "same as going directly, and changing to the patch one is already in does nothing.",
     ["inputs"], "every point of the overlap, every ordered pair of patches including equal ones, every intermediate patch",
     "Tests compare one random point for some pairs of patches and never use equal patches.",
     ["cyjax/projective.py", "cyjax/util.py"],
     [("change_chart", "cyjax/projective.py")], ["change_chart"])

prop("C03", "Removing and inserting array entries behaves like Python lists",
     "The traceable remove operation returns exactly the entry at the given position and the remaining entries in "
     "their original order. The traceable insert operations place the new entries (one value, several values, a "
     "column or several columns) so that they start at the given position (for negative positions, counted "
     "backwards in the result, so that they end there), and keep all other entries in order.",
     ["inputs"], "every array content and size within bounds, every valid position, positive or negative",
     "Tests use single small arrays and positions; the roll arithmetic has different cases for sign and size.",
     ["cyjax/util.py"],
     [("pop", "cyjax/util.py"), ("insert_1d", "cyjax/util.py"), ("insert_col", "cyjax/util.py")],
     ["pop", "insert_1d", "insert_col"])

prop("C04", "Fubini-Study metric is the chart-independent Hessian of its potential",
     "The Fubini-Study metric returned for any affine point equals the mixed second derivative of the returned "
     "Fubini-Study potential, whether or not conjugate coordinates are passed explicitly, and is Hermitian and positive definite. "
     "Transforming it with the Jacobian of a chart change gives the metric in the new chart. The potential "
     "in homogeneous coordinates differs from the affine one exactly by the logarithm of the squared modulus of the "
     "patch coordinate.",
     ["inputs"], "every affine point, every pair of charts, with and without explicit conjugates, any leading batch shape",
     "Tests compare one formula at random points; transposed or conjugated index order is invisible there because "
     "the comparison uses the same order.",
     ["cyjax/projective.py", "cyjax/differential.py"],
     [("fs_metric", "cyjax/projective.py"), ("fs_potential", "cyjax/projective.py")],
     ["fs_metric", "fs_potential"])

prop("C05", "All ways of evaluating a polynomial give the same value",
     "Evaluating a polynomial numerically, symbolically followed by substitution, through the generated "
     "batched evaluation function, and as the sum of monomials from its extracted coefficients and powers (in every "
     "supported evaluation mode) gives the value of the polynomial it was built from. Arguments may be passed "
     "positionally or by keyword and symbols may be replaced by any other symbols, including permuted ones.",
     ["inputs", "programs"], "every polynomial of bounded degree in bounded many grouped variables and parameters with any complex coefficients, every point",
     "Tests evaluate three or four fixed polynomials at one point each.",
     ["cyjax/polynomial.py"],
     [("Poly.__call__", "cyjax/polynomial.py"), ("Poly.transform_eval", "cyjax/polynomial.py"),
      ("compute_monomials", "cyjax/polynomial.py"), ("Poly.to_coeffs_and_powers", "cyjax/polynomial.py")],
     ["Poly.__call__", "Poly.transform_eval", "compute_monomials", "to_coeffs_and_powers"])

prop("C06", "Polynomial arithmetic and conversions are pointwise exact",
     "Sum, difference and product of polynomials (and with scalars and symbols) evaluate to the sum, difference and "
     "product of the operands' values for a combined variable ordering that contains each index once, in increasing order. "
     "The derivative evaluates to the derivative of the value. Building a polynomial from coefficients, parameters "
     "and powers and extracting them again loses nothing.",
     ["inputs", "programs"], "every pair of polynomials within the bounds, including different variable groups, indices and parameters; every point",
     "Tests use one pair of polynomials per operation.",
     ["cyjax/polynomial.py"],
     [("Poly.__mul__/__add__/__sub__", "cyjax/polynomial.py"), ("Poly.diff", "cyjax/polynomial.py"),
      ("Poly.from_coeffs_and_powers / to_coeffs_and_powers", "cyjax/polynomial.py")],
     ["Poly arithmetic", "Poly.diff", "from_coeffs_and_powers", "to_coeffs_and_powers"])

prop("C07", "Affine evaluation of homogeneous polynomials equals inserting 1",
     "Evaluating a homogeneous polynomial with affine coordinates in a patch gives the value of the polynomial at the "
     "homogeneous coordinates obtained by inserting 1 at the patch position, for one or several projective factors and "
     "for patches given as Python integers or as traced values. The Fermat and Dwork families evaluate to the sum of "
     "powers, plus (for Dwork) the chosen factor times the modulus times the product of coordinates, in every patch.",
     ["inputs", "programs"], "every homogeneous polynomial within the bounds, every patch (combination), every affine point and parameter value",
     "Tests use one Dwork/Fermat instance where all patches coincide by symmetry, so a wrong patch dispatch is invisible.",
     ["cyjax/polynomial.py"],
     [("HomPoly.affine_poly / transform_eval", "cyjax/polynomial.py"), ("DworkPoly, FermatPoly", "cyjax/polynomial.py")],
     ["HomPoly.__call__", "HomPoly.transform_eval", "VarietySingle.defining"])

prop("C08", "Univariate coefficients reassemble the polynomial",
     "Splitting a polynomial along one of its variables yields one coefficient for each order from the degree "
     "in that variable down to zero, such that the sum of coefficient times power reproduces the polynomial at every point. "
     "The coefficients do not depend on the split-off variable.",
     ["inputs", "programs"], "every polynomial within the bounds, every choice of split variable, every point",
     "Tests check one polynomial; missing middle orders or a constant coefficient need special shapes.",
     ["cyjax/polynomial.py"], [("univariate_coefficients", "cyjax/polynomial.py")],
     ["univariate_coefficients"])

prop("C09", "Embedding Jacobian is tangent to the variety and pulls metrics back",
     "The gradient of the defining equation is its exact holomorphic derivative in the given patch. The rows of the embedding Jacobian are annihilated by "
     "that gradient and are the identity on the independent coordinates, for every choice of dependent coordinate; "
     "if none is given the coordinate with the largest gradient modulus is chosen and reported. "
     "Induced metrics equal Jacobian times ambient metric times conjugate transposed Jacobian, whether or not conjugate coordinates are passed.",
     ["inputs"], "every homogeneous defining polynomial within bounds, every point, parameter value, patch, dependent index and ambient metric",
     "Tests use the Dwork quintic at one point; symmetric in patches and with one dependent index.",
     ["cyjax/differential.py", "cyjax/variety.py"],
     [("jacobian_embed", "cyjax/differential.py"), ("induced_metric", "cyjax/differential.py"),
      ("VarietySingle.grad_defining/best_dependent/jacobian_embed/induced_metric/induced_fs", "cyjax/variety.py")],
     ["jacobian_embed", "induced_metric", "VarietySingle.*"])

prop("C10", "Sampled and solved points lie on the variety, in the requested number",
     "Points returned by intersection sampling satisfy the defining equation and exactly the requested number is "
     "returned, for homogeneous as well as affine output and with or without weights. Solving the defining equation for one coordinate keeps the given "
     "coordinates in place and inserts values for which the equation holds, one point per root.",
     ["inputs", "configurations"], "every line, every parameter value, every defining polynomial within bounds (degree not tied to dimension), every count, patch and dependent index",
     "Tests sample the Dwork quintic with one random key and use a degree equal to the number of coordinates.",
     ["cyjax/variety.py", "cyjax/polynomial.py"],
     [("VarietySingle.sample_intersect", "cyjax/variety.py"), ("VarietySingle.solve_defining", "cyjax/variety.py")],
     ["sample_intersect", "solve_defining"])

prop("C11", "Sampling weights are the volume-form ratio and choice independent",
     "The weight of a point is the squared inverse modulus of the gradient component divided by the determinant of the "
     "induced Fubini-Study metric with the documented normalisation, and separate output returns exactly numerator and denominator of it. "
     "It does not depend on which coordinate is treated as dependent nor, on the variety of a degree-(n+1) polynomial, on the affine patch, and is positive.",
     ["inputs"], "every point of the variety, patch, dependent coordinate, volume factor and defining polynomial within bounds",
     "Tests compare two dependent choices at random points for one family and one normalisation.",
     ["cyjax/variety.py"],
     [("VarietySingle.sample_intersect_weights", "cyjax/variety.py")], ["sample_intersect_weights"])

prop("C12", "Monomial bases are complete, distinct and evaluated correctly",
     "The full monomial basis lists every exponent vector of the given degree exactly once and its size matches the "
     "size formula. Evaluated sections are the products of coordinates with these exponents where the coordinate of the given patch counts as 1, "
     "the same for both evaluation methods (non-zero coordinates for the logarithmic one), every patch and for homogeneous input.",
     ["inputs", "configurations"], "every dimension and degree within bounds, every coordinate vector, patch",
     "Tests compare sizes and one point; the evaluation method and patch index handling have separate code.",
     ["cyjax/donaldson.py", "cyjax/util.py"],
     [("monomial_basis, monomial_basis_size", "cyjax/donaldson.py"), ("MonomialBasisFull", "cyjax/donaldson.py")],
     ["monomial_basis", "MonomialBasisFull.__call__", "monomial_basis_size"])

prop("C13", "The reduced section basis spans all sections on the variety",
     "The reduced monomial basis consists of distinct monomials of the requested degree, has as many elements as the quotient by the "
     "multiples of the defining polynomial, and no non-zero combination of its elements is a multiple of "
     "the defining polynomial for generic coefficients. Below the polynomial's degree nothing is removed.",
     ["inputs", "configurations"], "every combination vector, every defining polynomial support within bounds, every degree within bounds",
     "Tests compare only the number of elements for the Dwork family.",
     ["cyjax/donaldson.py"],
     [("reduced_monomial_basis", "cyjax/donaldson.py"), ("MonomialBasisReduced", "cyjax/donaldson.py")],
     ["reduced_monomial_basis", "MonomialBasisReduced"])

prop("C14", "The algebraic metric is the pulled-back Hessian of its Kahler potential",
     "The Kahler potential is the logarithm of the sections contracted with the matrix, divided by pi times the degree, and the metric is its "
     "mixed second derivative pulled back to the variety with the embedding Jacobian. For Hermitian matrices the metric is Hermitian and closed (Kahler), "
     "and diagonal matrices may be given as vectors. The reported patch and dependent index are those used.",
     ["inputs"], "every Hermitian matrix, point, parameter value, patch, dependent index and defining polynomial within bounds",
     "Tests use the identity or one random matrix at one Dwork point.",
     ["cyjax/donaldson.py"],
     [("GeometricObjects.psi*/g_proj/g_loc", "cyjax/donaldson.py"), ("AlgebraicMetric.kahler_potential/metric", "cyjax/donaldson.py")],
     ["AlgebraicMetric.kahler_potential", "AlgebraicMetric.metric", "GeometricObjects"])

prop("C15", "Metric values agree on patch overlaps and for all local coordinates",
     "For the same point of the variety, the metrics computed in two affine patches, or with two dependent coordinates, are related by the "
     "Jacobian of the coordinate change. Kahler potentials in two patches differ by the logarithm of the squared modulus of the transition "
     "coordinate, divided by pi. Scaling the matrix by a positive number leaves the metric unchanged.",
     ["inputs"], "every pair of patches and dependent coordinates, every point of the variety, Hermitian matrix and positive scale",
     "The README promises this for every point; tests look at one point, one matrix.",
     ["cyjax/donaldson.py", "cyjax/projective.py", "cyjax/differential.py"],
     [("GeometricObjects", "cyjax/donaldson.py"), ("AlgebraicMetric.metric", "cyjax/donaldson.py")],
     ["AlgebraicMetric.metric", "AlgebraicMetric.kahler_potential"])

prop("C16", "Derivative tensors equal the derivatives they name",
     "Every tensor of first, second, third and fourth derivatives offered by the computational graph (of the section contraction, of the ambient metric, of the embedding "
     "Jacobian and of the local metric) equals the corresponding holomorphic and antiholomorphic derivative, for matrix and vector "
     "(diagonal) Hermitian coefficients.",
     ["inputs"], "every jet of the sections, every Hermitian matrix, every gradient and Hessian of the defining polynomial, every dependent index",
     "Tests compare with automatic differentiation at one point; index symmetrisation errors can cancel for special data.",
     ["cyjax/donaldson.py"],
     [("GeometricObjects derivative nodes", "cyjax/donaldson.py")], ["GeometricObjects"])

prop("C17", "Ricci curvature is minus the Hessian of log det of the metric",
     "The Ricci tensor equals minus the mixed second derivative of the logarithm of the determinant of the local metric, pulled back "
     "to the variety, and the Ricci scalar is its trace with the inverse metric.",
     ["inputs"], "every 4-jet of the potential and 2-jet of the defining equation at the point, every dependent index",
     "Tests evaluate at one point for one matrix.",
     ["cyjax/donaldson.py"],
     [("GeometricObjects.ricci_proj/ricci_loc/ricci_scalar", "cyjax/donaldson.py")],
     ["AlgebraicMetric.ricci", "AlgebraicMetric.ricci_scalar"])

prop("C18", "The eta ratio is the volume-form ratio and choice independent",
     "Eta equals the determinant of the local metric times the squared modulus of the gradient component of the dependent coordinate. "
     "It is real for Hermitian matrices, unchanged under positive rescaling of the matrix and independent of the choice of dependent coordinate and, on the variety of a degree-(n+1) polynomial, of the patch.",
     ["inputs"], "every point of the variety, Hermitian matrix, parameter, patch, dependent coordinate within bounds",
     "Tests use one point of the Dwork family.",
     ["cyjax/donaldson.py"], [("GeometricObjects.eta", "cyjax/donaldson.py"), ("AlgebraicMetric.eta", "cyjax/donaldson.py")],
     ["AlgebraicMetric.eta"])

prop("C19", "Donaldson's step implements the balanced-metric map",
     "One Donaldson step returns the transposed inverse of the number of sections over the volume times the weighted Monte Carlo mean of section products divided by their contraction with the "
     "Hermitian part of the input matrix, over all points of all batches. The result is Hermitian, scales linearly with the input matrix and the volume, "
     "and each batch uses its own random key.",
     ["inputs", "configurations"], "all sampled points, weights, matrices, volumes and numbers of batches and points within bounds",
     "The existing tests never run the step.",
     ["cyjax/donaldson.py"], [("AlgebraicMetric.donaldson_step", "cyjax/donaldson.py")], ["AlgebraicMetric.donaldson_step"])

prop("C20", "Sigma accuracy is the normalised weighted deviation of eta",
     "The sigma measure of a sample is the weighted mean of |1 - eta vol_CY/vol_K| with both volumes estimated from the same sample and weights. "
     "It is non-negative, zero when eta is constant on the sample, and unchanged when the matrix is scaled by a positive number.",
     ["inputs"], "all eta values and positive weights of a sample within bounds, every positive scale",
     "Not covered by the existing tests beyond running.",
     ["cyjax/donaldson.py"], [("AlgebraicMetric.sigma_accuracy", "cyjax/donaldson.py")], ["AlgebraicMetric.sigma_accuracy"])

prop("C21", "Cholesky parametrisation yields Hermitian positive matrices",
     "Every real parameter vector decodes to a Hermitian positive semi-definite matrix equal to M M-dagger with the documented upper-triangular "
     "layout; its determinant is the squared product of the diagonal parameters. The initial parameters without fluctuation decode to the identity and "
     "fluctuations only change the diagonal.",
     ["inputs"], "every real parameter vector for matrix sizes within bounds",
     "There is no test for it.",
     ["cyjax/ml.py"], [("cholesky_decode, cholesky_from_param, hermitian_param_init", "cyjax/ml.py")],
     ["cholesky_decode", "cholesky_from_param", "hermitian_param_init"])

prop("C22", "Variance loss measures deviation of eta from its weighted mean",
     "The loss of a sample is the sample mean of weight times squared relative deviation of eta from its weighted mean, plus the sample mean of log(1 + eta^2) over the points with negative eta. "
     "For positive weights and positive eta it is non-negative, zero exactly if eta is constant, and unchanged under a common positive scale of eta. Its gradient treats the weighted mean as constant.",
     ["inputs"], "all eta values and positive weights of a sample within bounds",
     "There is no test for it.",
     ["cyjax/ml.py"], [("variance_eta_loss", "cyjax/ml.py")], ["variance_eta_loss"])

prop("C23", "The batch sampler hands out every generated batch once with fresh keys",
     "Along every history of next calls the sampler returns batches generated from pairwise different random keys, in generation order, "
     "each exactly once, including across buffer refills. Parameters and points of a batch use independent keys, points belong to the parameters returned with them, and all arrays have the promised batch sizes.",
     ["histories", "configurations"], "every history of calls within the bound, every buffer size and batch size within bounds, every seed",
     "There is no test for it; refill and wrap-around only show after several calls.",
     ["cyjax/ml.py", "cyjax/util.py"],
     [("BatchSampler", "cyjax/ml.py"), ("PRNGSequence", "cyjax/util.py")], ["BatchSampler.__next__", "PRNGSequence.__next__"])

prop("C24", "Random samplers stay in their documented domain",
     "Disk samples have modulus between the two radii, unit-angle samples modulus one, sphere samples unit norm, and projective samples lie on the unit sphere or in "
     "the affine patch of largest coordinate. Overlap samples are bounded by the patch size in both charts, and inverting the random number that drives the shared coordinate "
     "gives the mirrored point of the other chart, so the distribution is symmetric under the chart change. "
     "Different entries of a sample use different random numbers.",
     ["inputs"], "every value of the underlying uniform/normal random numbers, all shapes, radii and patch pairs within bounds",
     "Tests sample a few keys; boundary cases and correlations between coordinates are invisible.",
     ["cyjax/random.py"],
     [("uniform_components, uniform_angle, uniform_angle_unit, real_sphere, complex_sphere, uniform_projective, projective_overlap", "cyjax/random.py")],
     ["cyjax.random.*"])

prop("C25", "Monte Carlo integration averages integrand times weight",
     "The integral estimate is the sample mean of integrand times weight and the reported variance is the sample variance of that product "
     "divided by the number of samples, also for array-valued integrands. Batched integration over batches equals plain integration over all its samples, and every batch is "
     "sampled with its own key; no key is used twice.",
     ["inputs", "configurations"], "all integrand values and weights, numbers of batches and samples within bounds",
     "The tests only integrate a constant or nothing at all.",
     ["cyjax/util.py"], [("mc_integrate, mc_integrate_batched", "cyjax/util.py")],
     ["mc_integrate", "mc_integrate_batched", "VarietySingle.compute_vol"])

prop("C26", "The complex Hessian differentiates the right arguments in the right order",
     "For every potential the generated function returns the matrix of second derivatives with the holomorphic derivative as first and the antiholomorphic "
     "derivative as second index, for every choice of argument positions, and passes all other arguments through unchanged.",
     ["inputs", "programs"], "every 2-jet of the potential, every pair of argument positions within bounds",
     "Tests use the symmetric Fubini-Study potential only.",
     ["cyjax/differential.py"], [("complex_hessian", "cyjax/differential.py")], ["complex_hessian"])

prop("C27", "Batched calls equal element-wise calls",
     "Calling variety, metric, section and projective functions with leading batch dimensions on any combination of their "
     "arguments returns, at each batch position, the value of the call with the corresponding single arguments.",
     ["inputs", "configurations"], "every batch content, bounded batch shapes, every combination of batched and unbatched arguments covered",
     "Tests batch the points only and compare shapes.",
     ["cyjax/variety.py", "cyjax/donaldson.py", "cyjax/projective.py", "cyjax/differential.py", "cyjax/polynomial.py"],
     [("argument-rank declarations for automatic vectorisation", "cyjax/*.py")],
     ["VarietySingle.*", "AlgebraicMetric.*", "MonomialBasisFull.__call__", "projective functions"])

prop("C28", "Axis shuffling only permutes along the chosen axis",
     "Shuffling an axis returns an array of the same shape in which every slice at fixed leading indices is a permutation of the original slice along the chosen "
     "axis, entries of the trailing dimensions stay together, and different leading indices use different keys.",
     ["inputs", "schedules"], "every array content, every permutation drawn by the generator, axis and shape within bounds",
     "Tests check one random array.",
     ["cyjax/util.py"], [("shuffle_axis", "cyjax/util.py")], ["shuffle_axis"])

prop("C29", "The moduli network sees the documented features and treats inputs independently",
     "The inputs of the first layer are the selected features: absolute values, real and imaginary parts of all products of the chosen powers of the moduli, and angles. "
     "The network output for a batch of moduli is the stack of outputs for the single moduli, for every weight and every feature selection. With its initial parameters the network without random fluctuation returns the same "
     "parameters for every modulus, and these decode to a multiple of the identity (the identity without sigmoid suppression).",
     ["inputs", "configurations"], "every moduli value, every network weight, feature selection and layer layout within bounds",
     "There is no test for it.",
     ["cyjax/ml.py"], [("HNetMLP", "cyjax/ml.py")], ["HNetMLP.apply"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
