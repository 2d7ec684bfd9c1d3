BASE = 'Trusted: z3/cvc5, the symbolic values of pyvc, library contracts for numpy/scipy listed in the evidence (cross-checked concretely on every run), reals for floats. '
CLAIMS = {
 'C03': ('proof', BASE + 'All sample sizes, parameters, limits and levels for normal, lognormal, uniform, Weibull (incl. per-realization parameters); multilinear CDFs bounded to 2-4 points.'),
 'C04': ('proof', BASE + 'All values, parameters and limits for normal, lognormal, uniform, Weibull; multilinear CDFs bounded to 2-4 points.'),

 'C01': ('proof', BASE + 'Scalars, arrays of any length, all unit names and all pairs.'),
 'C02': ('proof', BASE + 'All families, parameters, limits and factors.'),
 'C05': ('exploration', BASE + 'Deterministic variables proved; data-driven variables bounded-symbolic: data of 1-4 values with symbolic values and levels.'),
 'C09': ('exploration', 'Bounded-symbolic: all pairs of configuration trees of stated depth and width with opaque (arbitrary) values, real merge code.'),
 'C10': ('exploration', 'Bounded-symbolic: all configuration trees and paths of stated depth with opaque (arbitrary) values, real access code.'),
 'C11': ('exploration', 'Bounded-symbolic: tables of stated sizes with symbolic cells, real conversion code.'),

 'C12': ('exploration', 'Bounded-symbolic: tables of stated sizes with symbolic cells and units through the real conversion code; plus contract evaluation of real save/load round trips.'),
 'C13': ('exploration', 'Bounded: contracts evaluated on the real code over every text of up to three characters of a small alphabet, enumerated and random location and direction texts and asset models against an independent reading.'),
 'C14': ('exploration', 'Bounded: contracts evaluated on the real batch code (small cases enumerated exhaustively) and full damage calculations against an independent expectation.'),
 'C15': ('exploration', 'Bounded-symbolic: stated group, block and limit state layouts with symbolic demands, capacities and damage state choices through the real evaluation code; plus contract evaluation of full calculations.'),
 'C16': ('exploration', 'Bounded-symbolic: stated layouts with symbolic quantities and all damage states through the real code; plus contract evaluation of full calculations.'),
 'C17': ('exploration', 'Bounded-symbolic: stated layouts with symbolic damage states through the real task code; plus contract evaluation of whole processes in full calculations.'),
 'C18': ('exploration', 'Bounded-symbolic: stated layouts with symbolic demands and multipliers through the real lookup code; combined demands and full calculations by contract evaluation.'),
 'C19': ('exploration', 'Bounded-symbolic: stated layouts through the real code; plus contract evaluation of full calculations against an independent expectation.'),
 'C20': ('exploration', 'Bounded-symbolic: stated requests with arbitrary values through the real cloning code; plus contract evaluation of loading, generation and full calculations.'),
 'C28': ('exploration', BASE + 'The adjustment operation on capacities is proved; the rest is contract evaluation of full calculations.'),
 'C21': ('exploration', 'Bounded-symbolic: the unit consequence for any quantity and parameters and the quantities and economies of scale of stated layouts through the real code; plus contract evaluation of full loss calculations (damage consequences and loss functions) against an independent expectation.'),
 'C22': ('exploration', 'Bounded-symbolic: stated layouts of losses with arbitrary values through the real aggregation; plus contract evaluation over random loss samples, units and decision variables.'),
 'C23': ('exploration', 'Bounded-symbolic: stated layouts with arbitrary losses, replacement consequences and thresholds through the real aggregation; plus contract evaluation over random loss samples.'),
 'C24': ('exploration', 'Bounded-symbolic: every combination of decision variables for stated sizes with symbolic losses through the real aggregation code; plus contract evaluation of the real aggregation over random components, locations, decision variables and combination tables (2 and 3 components) against an independent multilinear interpolation.'),
 'C25': ('exploration', 'Bounded-symbolic: tables of stated size with arbitrary values and factor through the real scaling code, and every kind of rule of a scaling specification on arbitrary losses; plus contract evaluation of random scaling specifications.'),
 'C26': ('exploration', 'Bounded-symbolic: every overlap of two or three parameter sources with symbolic parameters through the real loading code; plus contract evaluation over random lists of overlapping parameter sources (tables and files) against an independent selection and unit conversion.'),
 'C27': ('exploration', 'Bounded-symbolic: two demand types, stated settings with arbitrary demand values, limits, fitted parameters and added uncertainty through the real calibration code (the fitting procedure replaced by its contract); plus contract evaluation of random configurations and of the closed-form fits.'),
 'C06': ('exploration', 'Bounded-symbolic: registries of 1-4 variables with stated anchors for any sample size and any draws of the generator (stratification discharged for the generic realization); plus contract evaluation of random registries of all families with sets, anchors and repeated sampling.'),
 'C07': ('exploration', 'Bounded-symbolic: up to 4 variables in every order with arbitrary coefficients, every subset, and the transformation of 2-3 variables for any sample size, levels and coefficients (scipy cholesky by contract); plus contract evaluation of singular and random matrices, demand models and cost-time correlation (coefficients of large samples within sampling error) and of box probabilities of up to 3 variables against the multivariate normal distribution.'),
 'C08': ('exploration', 'Bounded: contract evaluation of complete random assessments: repeated, interleaved, with disturbed or refused global generators, and in processes with different hash seeds.'),
 'C29': ('exploration', 'Bounded-symbolic: the state of one file and its version record through the real update code (download and hash by contract); plus contract evaluation of random histories of updates, use and damage with every interruption point, against a model server. Two known findings recorded.'),
 'C30': ('exploration', BASE + 'Bounded-symbolic: the weighted average for up to 3 neighbours with arbitrary locations and values; plus contract evaluation of mapping, selection of buildings and complete regional runs.'),
 'C31': ('exploration', 'Bounded-symbolic: grouping, condensing and aggregation of tables of stated layouts with arbitrary amounts and missing columns through the real saving code; plus contract evaluation of the real saving code over random result tables and output settings against independent sums, statistics and labels.'),
 'C32': ('exploration', 'Bounded-symbolic: the variables of two limit states, quantities or demands with arbitrary parameters and limits through the real model code; plus contract evaluation of complete random models under midpoint sampling against inverse distribution functions computed from the input tables.'),
 'C33': ('exploration', 'Bounded-symbolic: the unit of every type of demand is inferred, and a demand of any values added to samples of stated size with arbitrary unit factors through the real code; plus contract evaluation of complete demand calculations with random units, limits, errors and sizes.'),
 'C34': ('exploration', 'Bounded-symbolic: the replacement consequences of every method with arbitrary medians and the loss maps of every approach through the real loss calculation, with the loss and asset models by their interfaces; plus contract evaluation of complete random damage and loss calculations, step by step, against an independent expectation from the sampled capacities; the default library enters by contract (table header).'),
 'C35': ('exploration', 'Bounded: contract evaluation of the real parsing and run code over random configurations with the steps of the calculation recorded at their interfaces.'),
 'C36': ('exploration', 'Bounded-exhaustive: every reference to a method or former name of the library, every default table and every list of up to two databases of consequences; plus contract evaluation of the real reference and database code over random references and over complete random calculations with a generated model library in place of the downloaded one.'),
 'C37': ('exploration', 'Bounded: contract evaluation of the real parsing, run and auto-population code over random configurations and generated configuration scripts, with the steps of the calculation recorded at their interfaces.'),
 'C38': ('exploration', 'Bounded-symbolic: the likelihood of one quantity with arbitrary data, parameters and limits, and its parts (limit probabilities proved) through the real code, with the density of the multivariate normal by contract; plus contract evaluation of random joint likelihoods and fits against an independent likelihood. That the optimizer reaches the maximum is only evaluated, for data of moderate scale.'),
 'C39': ('exploration', 'Bounded-symbolic: LossModel.calculate and both loss models executed from any earlier state (arbitrary results of an earlier calculation) with arbitrary quantities and unit consequences; plus contract evaluation of complete calculations after random histories in the same object after resuming from saved files, and in one call, against a new assessment or the individual steps with the same random numbers. Histories are sampled, not enumerated.'),
 'C40': ('exploration', 'Bounded-exhaustive: the real argument parsing runs for every combination of the listed words in two orders; the functions that are started are replaced by their signatures and record what they are given. Command lines are enumerated from lists, not arbitrary text.'),
}
NA = {}
