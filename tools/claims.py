NA.update({
 "C40": "equality up to rounding error quantifies over floating-point results of eigenvalue and linear solvers; no static bound on rounding through them is in reach (the exact-arithmetic identities it rests on are decided by C01, C03, C05, C07)",
 "C41": "a limit statement about the Fourier method as the number of harmonics grows: numerical analysis of the method, not a fact of the source",
 "C42": "compares floating-point derivatives with finite differences; needs the numeric values of eigenvector derivatives (the structural part, that no operation severs the derivative, is C15)",
 "C43": "agreement up to rounding depends on the numerical libraries behind the backends, whose source is not part of the repository (that all branches denote the same function is C14)",
 "C44": "the tangent field is the minimiser of a functional found by an iterative optimiser: its smoothness depends on run-time convergence",
 "C45": "reciprocity within rounding error of truncated Fourier systems is a numerical statement about solver output",
 "C46": "what is displayed is decided by matplotlib/pyvista; their drawing semantics is outside the source analysed",
})
NA.update({
 "C20": "the sampled points are permuted by np.unique on the run-time values of an unbounded refinement loop that calls a user function; relating the permutation of the merged points to the order in which the new ones are evaluated needs reasoning about sorted float arrays of unknown content, and the end of the loop depends on rounding: no sound static argument of this kind was built",
})
