import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Unit conversion is exact, consistent and never guesses",
"Converting values between two units of one quantity multiplies every value by the ratio of the two published unit factors, so converting there and back returns the original values and converting through an intermediate unit changes nothing; the container type is preserved and the caller's values are left untouched. The scale factor of a composite unit string such as '10 ft2' is its leading number times the factor of the unit. Units that are unknown, or that are listed under different quantities, are refused with an error instead of being converted.",
["inputs"],"all values (float, list, array of any length), all pairs/triples of units and categories in the unit table, all unit strings with an optional leading number",
"Tests convert a handful of literal values; linearity, round trip and transitivity quantify over all reals, all arrays and all unit pairs, and a wrong factor for an untested pair goes unnoticed.",
["pelicun/base.py","pelicun/assessment.py","pelicun/settings/default_units.json"],
[("convert_units","pelicun/base.py"),("parse_units","pelicun/base.py"),("AssessmentBase.calc_unit_scale_factor / scale_factor","pelicun/assessment.py")],["return values and raised errors of the conversion functions"])
p("C02","Changing units of a distribution equals changing units of its samples",
"Rescaling the parameters and truncation limits of a supported distribution by a positive factor describes exactly the rescaled random variable: its samples are the original samples times the factor and its probabilities at rescaled values are unchanged. Dimensionless dispersion parameters are not touched, and the caller's parameter and limit arrays are not modified. Marginal definitions given in user units therefore represent the same physical quantity after their conversion to base units, and probability distribution families that cannot be rescaled are refused.",
["inputs"],"all families, all parameter values, all positive factors, all combinations of present/absent truncation limits, all probability levels",
"Tests check parameter values for a few factors; that the scaled variable IS the scaled variable (quantile-wise, with truncation) is a statement over all parameters and all probabilities.",
["pelicun/uq.py","pelicun/model/pelicun_model.py"],
[("scale_distribution","pelicun/uq.py"),("PelicunModel._convert_marginal_params","pelicun/model/pelicun_model.py")],["scaled theta and limits, converted marginal tables"])
p("C03","Sampled values follow the specified (truncated) distribution",
"For every continuous distribution family the value drawn for a probability level is the quantile of the specified distribution conditioned on its truncation limits: it always lies within the limits (a missing limit does not constrain), never decreases when the probability level grows, and mapping it back through the distribution's probability function returns the level. Truncation limits that leave no probability mass are refused. Drawing values does not modify the probability levels or the parameters supplied.",
["inputs"],"all parameter values valid for the family (constant or per-realization), all one- or two-sided truncation limits, all probability levels strictly between 0 and 1, samples of any size",
"Tests compare a few quantiles against scipy at fixed parameters; limits, monotonicity and the inverse relation are universally quantified over parameters and levels.",
["pelicun/uq.py"],
[("inverse_transform of Normal/LogNormal/Uniform/Weibull/Multilinear RVs","pelicun/uq.py"),("parameter mapping in Normal_STD / Normal_COV, rv_class_map","pelicun/uq.py")],["RandomVariable.inverse_transform"])
p("C04","Cumulative probabilities form a valid distribution function",
"For every continuous family, the reported cumulative probability is always between 0 and 1, never decreases with the value, is 0 at or below the lower and 1 at or above the upper truncation limit, and between the limits equals the untruncated probability renormalised by the mass between them. It is defined (never NaN) for every real value, including values and limits outside the natural support of the family. The query does not modify its inputs.",
["inputs"],"all valid parameters, all one- or two-sided truncation limits, all real values, arrays of any length",
"Tests evaluate the function at a few points; validity is quantified over all reals and all parameter/limit combinations.",
["pelicun/uq.py"],[("cdf of Normal/LogNormal/Uniform/Weibull/Multilinear RVs","pelicun/uq.py")],["RandomVariable.cdf"])
p("C05","Discrete and data-driven variables reproduce exactly the given data",
"An empirical variable only returns values from the provided data, each getting an equal share of the probability range, in order; a coupled-empirical variable returns the provided data in its original order, cyclically repeated up to the requested length; a deterministic variable returns its value for every realization; and a multinomial variable returns category k exactly when the probability level falls in the k-th interval of the cumulative probabilities, with the last category taking the remainder. Producing a sample never changes the probability levels, which other variables may share. Invalid probability tables are refused.",
["inputs"],"all data vectors and probability tables of any length, all probability levels in [0,1), all requested sample sizes",
"Tests use one or two tiny vectors; interval boundaries, cyclic lengths that are or are not multiples, and side effects on shared levels are not covered.",
["pelicun/uq.py"],[("Empirical/CoupledEmpirical/Deterministic/Multinomial inverse_transform","pelicun/uq.py")],["inverse_transform results and the level array afterwards"])
p("C06","Sampling covers every variable consistently and stratifies as requested",
"Generating a sample gives every registered variable exactly the requested number of realizations; variables anchored to another one use exactly the same probability levels as their anchor, all others their own. With Latin hypercube sampling, uncorrelated variables receive exactly one level in each of the equally sized strata (at the midpoint for the midpoint method), and all levels are within [0,1). A variable name can be registered only once.",
["inputs","histories"],"all registries of variables with any anchoring, all sample sizes, all sampling methods, all generator states",
"Tests run single seeds with few variables; stratification and anchoring quantify over all permutations, sizes and random draws.",
["pelicun/uq.py"],[("RandomVariableRegistry.generate_sample","pelicun/uq.py"),("BaseRandomVariable.uni_sample / anchor","pelicun/uq.py")],["uni_sample and sample of each variable"])
p("C07","Correlations attach to the variables they were specified for",
"The correlation matrix given with a list of random variables keeps, for every pair of variable names, the coefficient specified for that pair, no matter how the variables are ordered, and restricting it to a subset of names returns the coefficients of those names in the requested order. Imposing the correlation transforms the standard normal scores of the variables by a factor of that matrix (so that uncorrelated scores obtain exactly the requested covariance) and leaves the levels of variables outside of the set untouched. An identity matrix leaves the levels unchanged. The probability that the variables of the set, or of a subset in any order, fall between given bounds is that of the joint distribution with these correlations.",
["inputs"],"all lists of variables in any order with any names, all correlation matrices, all subsets and orders, all uniform samples",
"Tests use already sorted names or symmetric cases; the permutation argument quantifies over all orders.",
["pelicun/uq.py"],[("RandomVariableSet.__init__/Rho/apply_correlation","pelicun/uq.py")],["Rho() and uni_sample after apply_correlation"])
p("C08","A fixed seed makes every result reproducible",
"With a fixed seed in the options, the same sequence of inputs and calls always produces identical demand, asset, damage and loss results, regardless of global random state, of other random number use in the process, and of the hash seed of the interpreter. All randomness is drawn from the generator owned by the assessment. Different assessments do not influence each other.",
["configurations","histories"],"all seeds, all assessments, all interpreter hash seeds and global random states",
"Tests run in one process with a fixed hash seed; dependence on set iteration order or global state cannot show up.",
["pelicun/base.py","pelicun/uq.py","pelicun/model/loss_model.py","pelicun/model/damage_model.py","pelicun/model/demand_model.py"],
[("Options.seed / rng","pelicun/base.py"),("RandomVariableRegistry(rng)","pelicun/uq.py"),("all model samplers","pelicun/model")],["result tables"])
p("C09","User settings always win and defaults only fill gaps",
"The effective configuration contains every value the user specified, unchanged, and for every setting the user did not specify at any nesting level exactly the default value; nothing else is added or lost. A setting that is a group of settings in the defaults but not in the user's configuration, or the other way around, is refused with an error naming it. The stored defaults are not altered by merging or using a configuration, so one assessment's settings never leak into another.",
["configurations","histories"],"all nested user configurations against all nested defaults, all sequences of merges",
"Tests try a few fixed dictionaries; the statement is an induction over nesting depth and all key overlaps.",
["pelicun/base.py"],[("update_vals","pelicun/base.py"),("merge_default_config","pelicun/base.py"),("Options","pelicun/base.py")],["merged dictionary, Options attributes"])
p("C10","Configuration paths read back what was written and nothing else changes",
"Reading a configuration path returns the stored value, or the given default when any part of the path is missing, without changing the configuration. Writing a path makes exactly that path return the new value while every other path, unless one of the two leads through the other, keeps its value; the write-only-if-empty mode never overwrites a value already specified at that path. A path counts as unspecified exactly when its value is missing, None, NaN, or an empty dictionary or list.",
["configurations","histories"],"all nested dictionaries, all slash-separated paths, all values including falsy ones, lists and nested dictionaries",
"Tests read and write a few literal paths; frame conditions (nothing else changes) and falsy/list values are not covered.",
["pelicun/base.py"],[("get / update / is_unspecified / is_specified","pelicun/base.py")],["returned values and the dictionary afterwards"])
p("C11","Tables keep their data and labels when header format changes",
"Turning a multi-level header into a single-level one and back restores the same labels in the same order, and neither direction changes, reorders, drops or duplicates any data. Labels of different depth are padded with empty levels, single-level headers without separators are returned unchanged. Unless an in-place change is requested, the caller's table keeps its original header and data.",
["inputs"],"all tables with any number of rows, columns and levels, both axes, all labels free of the separator",
"Tests convert one or two literal tables.",
["pelicun/base.py"],[("convert_to_SimpleIndex / convert_to_MultiIndex","pelicun/base.py"),("dedupe_index","pelicun/base.py")],["returned and original tables"])
p("C12","Saving and loading results in any units preserves the physical values",
"A table saved in chosen units and loaded back represents the same physical quantities: every column (or row) with a unit is divided by exactly its own unit factor when saved and multiplied by it when loaded, columns without units are unaffected, and every value stays with its row and column labels. Loading reports the units found. Tables with unknown units are refused. Saving never changes the table kept in memory.",
["inputs"],"all numeric tables, all assignments of known units to columns or rows, both orientations, saving to file or returning in memory",
"Tests save one unit per table; column/unit pairing errors need several columns with different units.",
["pelicun/file_io.py","pelicun/model/demand_model.py","pelicun/model/asset_model.py","pelicun/model/damage_model.py"],
[("save_to_csv / load_data / load_from_file","pelicun/file_io.py"),("save_sample / load_sample of the models","pelicun/model")],["saved files, loaded tables, in-memory tables after saving"])
p("C13","Component assignments expand to exactly the requested locations",
"Location and direction strings (single numbers, comma lists, ranges with two dashes, and the keywords all, top and roof) always resolve to exactly the set of locations they denote for the given number of stories, and invalid strings are refused. A component defined over several locations and directions yields exactly one performance group for every combination, each carrying the component's unmodified marginal parameters. Repeated definitions are kept apart by distinct identifiers, so no quantity is lost or merged.",
["inputs"],"all location/direction strings, all numbers of stories, all component tables",
"Tests use a few strings with one number of stories.",
["pelicun/model/asset_model.py"],[("_get_locations / _get_directions / load_cmp_model","pelicun/model/asset_model.py")],["component marginal table"])
p("C14","Damage calculation batches cover every performance group exactly once",
"Splitting the performance groups into calculation batches assigns every performance group with all of its blocks to exactly one batch, numbered consecutively from one, for any block batch size. A batch holds at most the requested number of blocks unless it consists of a single larger performance group. The choice of batch size never drops or duplicates components.",
["inputs","configurations"],"all component block tables, all batch sizes from one up",
"Tests check one or two tables and batch sizes.",
["pelicun/model/damage_model.py"],[("DamageModel_DS._get_pg_batches","pelicun/model/damage_model.py")],["batch table"])
p("C15","Components get the damage state of the highest limit state exceeded",
"In every realization each component block is assigned the damage state of the highest limit state whose capacity its demand exceeds, and damage state zero when no capacity is exceeded; when a limit state has several damage states, the one sampled for it is used, and damage states are numbered consecutively through the limit states in their numeric order. Capacities and the demand are compared realization by realization and with the demand assigned to that performance group. Components of one type with fewer limit states than another are not affected by the limit states they do not have. All limit state capacities of a block are sampled at the same probability level, and different blocks at levels of their own.",
["inputs"],"all capacity and demand samples, all limit state configurations (skipped limit states, ten or more of them, several damage states per limit state)",
"Tests assert shapes and a few values for regular limit state tables.",
["pelicun/model/damage_model.py"],[("_evaluate_damage_state","pelicun/model/damage_model.py"),("_create_dmg_RVs / _generate_dmg_sample","pelicun/model/damage_model.py")],["damage state table"])
p("C16","Damage quantities are conserved across damage states",
"In every realization the quantities of a performance group over all of its damage states, including the undamaged one, add up to the quantity of that group in the asset sample, with each block contributing its equal share to exactly one damage state. No damage state holds a negative quantity, and groups without damage models do not appear with invented quantities. Dropping the undamaged columns or splitting the calculation into batches does not change the remaining quantities. The reported probability of a damage state of a block is its share of the realizations where the block is applicable.",
["inputs","configurations"],"all damage state samples, all component quantities and block counts, all batch sizes",
"Tests check a few totals for one example.",
["pelicun/model/damage_model.py"],[("_prepare_dmg_quantities","pelicun/model/damage_model.py"),("DamageModel.calculate","pelicun/model/damage_model.py")],["damage sample"])
p("C17","Damage processes change only what they prescribe",
"A damage process task changes damage states only in realizations where its source component reached the triggering damage state, and only for the components and locations it targets; there the target gets exactly the prescribed damage state (or is marked not applicable). All other realizations, components and locations keep their damage, and tasks are applied in the numerical order of their identifiers. Location-matched tasks act only between source and target at the same location.",
["inputs","histories"],"all damage state samples, all task lists",
"Tests run a few tasks on one sample; the frame (nothing else changes) and ordering beyond nine tasks are not covered.",
["pelicun/model/damage_model.py"],[("_perform_dmg_task / _complete_ds_cols","pelicun/model/damage_model.py"),("DamageModel.calculate","pelicun/model/damage_model.py")],["damage sample before and after"])
p("C18","Each component is checked against the demand its parameters ask for",
"The demand used for a performance group is of the demand type its parameters name, taken at the group's location plus the parameter's offset and in the group's direction; when the demand is non-directional it is, realization by realization, the largest of the directional demands at that location times the configured multiplier. Combined demand definitions are evaluated as written from their own demands. A demand that is not available is reported instead of silently replaced.",
["inputs","configurations"],"all performance groups, offsets, directions, multipliers and demand samples",
"Tests use one configuration with symmetric demands.",
["pelicun/model/pelicun_model.py","pelicun/model/damage_model.py"],[("_get_required_demand_type","pelicun/model/pelicun_model.py"),("_assemble_required_demand_data / _verify_edps_available","pelicun/model/damage_model.py")],["assembled demand data"])
p("C19","Residual drifts stay between zero and the peak drift",
"For every peak drift sample and positive yield drift, every inferred residual drift lies between zero and the peak drift of the same realization, floor and direction, and is exactly zero where the peak drift is below the yield drift. The result has one column per peak drift column, and a yield drift given for one direction is never used for another. Constant residual-drift inputs and other demands pass through unchanged.",
["inputs"],"all peak drift samples, all yield drifts (single or per direction), all random draws",
"Tests check a couple of seeds; the bounds are for all draws of the lognormal dispersion.",
["pelicun/model/demand_model.py"],[("DemandModel.estimate_RID","pelicun/model/demand_model.py")],["returned residual drift table"])
p("C20","Cloned demands are exact copies with their own units",
"Demand cloning yields exactly the columns listed in the cloning request for each listed source and keeps all the demands not mentioned; every clone holds exactly the values of its source in every realization and has the unit of its source. A request that lists the same clone twice, or a clone with the name of another demand, is refused and leaves the sample unchanged; a request for a source that does not exist is ignored with a warning. Loading a demand sample preserves the association between each demand and its unit.",
["inputs"],"all demand samples with any column order and any mixture of units, all cloning requests",
"Tests clone in samples with sorted columns and uniform units.",
["pelicun/model/demand_model.py"],[("DemandModel.clone_demands / load_sample","pelicun/model/demand_model.py")],["sample and user_units"])
p("C21","Repair consequences are quantity times unit consequence times uncertainty",
"In every realization the repair consequence of a damaged performance group equals its damaged quantity times the median unit consequence for the cumulative quantity of the damage (constant, or interpolated between the specified quantities and constant outside of them) times the sampled relative deviation for that consequence and damage state, and it is zero where no quantity is damaged. The cumulative quantity follows the configured economies of scale across floors and across damage states. Loss-function consequences evaluate the specified function at the group's own demand and scale it with the number of its components. The parameters are those that the loss map assigns to the component, or its own ones where the map is extended to components it leaves out.",
["inputs","configurations"],"all damage samples, consequence parameters, economies-of-scale settings, demands and deviations",
"Tests compare a few numbers for one setting; the formula must hold in every cell for every configuration.",
["pelicun/model/loss_model.py","pelicun/base.py"],[("RepairModel_DS.calculate / _calc_median_consequence / prep_bounded_multilinear_median_DV / prep_constant_median_DV","pelicun/model/loss_model.py"),("RepairModel_LF._calc_median_consequence","pelicun/model/loss_model.py"),("stringterpolation","pelicun/base.py")],["loss sample"])
p("C22","Aggregate losses are the right totals of the component losses",
"In every realization the aggregate repair cost, carbon and energy equal the sum of the component losses over all components, damage states, locations and directions; the aggregate sequential repair time equals the sum, and the aggregate parallel repair time the largest of the per-location sums, so that parallel never exceeds sequential. Decision variables, realizations and units are never mixed up. Aggregation does not alter the stored detailed losses.",
["inputs"],"all loss samples with any set of decision variables, components, locations, directions",
"Tests check one example.",
["pelicun/model/loss_model.py"],[("LossModel.aggregate_losses / _aggregate_sample","pelicun/model/loss_model.py")],["aggregate table"])
p("C23","Replacement overrides other losses only where it is triggered",
"When replacement is treated as exclusive, a realization with a non-zero replacement consequence counts only that consequence and no other component loss, while realizations without replacement keep all of their losses. When a replacement threshold is given, a realization whose aggregated loss exceeds the threshold gets exactly the replacement consequences for all decision variables, and one that does not exceed it is unchanged; the reported exceedance flags agree with this. Consequences are matched per decision variable and realization.",
["inputs","configurations"],"all loss samples, replacement consequences and thresholds",
"Tests only exercise a single threshold and no exclusivity on aggregates.",
["pelicun/model/loss_model.py"],[("_make_replacement_exclusive / _apply_replacement_thresholds","pelicun/model/loss_model.py")],["aggregate table, exceedance flags"])
p("C24","Combined losses use the right combination array for every variable",
"When a combination of component losses is requested, the combined loss in every realization is the bilinear interpolation of the combination array of that decision variable at the losses of the components in the order they are listed, where losses outside of the range of the array are refused, and it replaces exactly the combined components' losses at the same location while all other losses stay as they were. The outcome does not depend on the order of columns or on the interpreter's hash seed.",
["inputs","configurations"],"all loss samples, asymmetric combination arrays, several decision variables and locations",
"Tests use a symmetric array and one decision variable.",
["pelicun/model/loss_model.py"],[("_loss_combination_add_combinable and helpers","pelicun/model/loss_model.py")],["aggregate table"])
p("C25","Consequence scaling touches only the matching results",
"Applying consequence scale factors multiplies every result that matches all conditions of a rule (decision variable, component, location, direction, ...) by exactly the rule's factor and leaves every other result bit-for-bit unchanged. Rules for values that do not occur are reported or ignored as configured, never applied elsewhere. Successive rules compose multiplicatively.",
["inputs","configurations"],"all result tables, all condition sets, all factors including non-integers",
"Tests check a few literal tables.",
["pelicun/base.py","pelicun/model/loss_model.py"],[("multiply_factor_multiple_levels","pelicun/base.py"),("LossModel.apply_consequence_scaling / consequence_scaling","pelicun/model/loss_model.py")],["scaled table"])
p("C26","First definition of a model parameter wins and incomplete ones are not used",
"When several parameter sources define the same component, the definition from the earlier source is used completely and later ones only contribute components that are not yet defined. Components that are not part of the assessment are discarded, and components whose definition is missing or flagged incomplete are excluded from the calculation and reported. Parameters given in different units are converted with the unit of their own row.",
["inputs","configurations"],"all lists of parameter tables with overlaps in any order, all component sets, all completeness flags",
"Tests load one or two literal tables.",
["pelicun/model/damage_model.py","pelicun/model/loss_model.py","pelicun/model/pelicun_model.py"],[("load_model_parameters / remove_incomplete_components / drop_unused_damage_parameters","pelicun/model"),("PelicunModel.query_error_setup, _convert_marginal_params","pelicun/model/pelicun_model.py")],["stored parameter tables"])
p("C27","Demand calibration uses the limits and units given for each demand",
"Calibration treats a demand value as censored exactly when it lies outside of the censoring limits specified for that demand, and truncated limits, censoring limits and added uncertainty apply to exactly the demands they were specified for, type-specific settings overriding the general ones. Limits are converted once from the unit they are given in. Added uncertainty is a standard deviation that increases the variance of the fitted demand (in the unit given for normal demands, in log space for lognormal ones). Only realizations within all limits are fitted and retained for empirical demands. Calibration modifies neither the stored demand sample nor the configuration, and fitting does not modify the limits it is given.",
["inputs","configurations"],"all demand samples, all calibration configurations with general and type-specific limits and units",
"Tests use a few configurations and a single unit.",
["pelicun/model/demand_model.py","pelicun/uq.py"],[("DemandModel.calibrate_model","pelicun/model/demand_model.py"),("fit_distribution_to_sample","pelicun/uq.py")],["calibrated marginal parameters, retained sample"])
p("C28","Capacity adjustments apply the specified operation to the right capacities",
"A capacity adjustment specification applies exactly the prescribed operations (add, subtract, multiply or divide; one for all realizations or one for each realization) to the median capacities of exactly the component, location and direction groups and the limit states it names, and the sampled normal, lognormal and fixed capacities follow the adjusted median in every realization with the rest of their distribution parameters as given; all other capacities are unchanged. Malformed operations are refused. Adjustments do not break the pairing between capacities and realizations or change the choice between damage states.",
["inputs","configurations"],"all adjustment specifications, all capacity samples and operations",
"Tests use one operation of each kind on a single column.",
["pelicun/model/damage_model.py"],[("parse_scaling_specification / _handle_operation / capacity adjustment in _create_dmg_RVs","pelicun/model/damage_model.py")],["capacity sample"])
p("C29","A data library update leaves exactly the requested version or is retried",
"After a successful update every file listed in the library's file list has exactly the content it has in the requested version, whatever was stored, missing or damaged locally before. If an update is interrupted at any point, the next update completes it, files are only reused when their content is verified against the recorded checksum, and the recorded version never claims more than what is on disk. A damaged version record never prevents use or update of the library.",
["crash_points","histories","fault_sequences"],"all local states, all change lists, all interruption points, all sequences of updates",
"Tests mock single downloads; histories of interrupted and repeated updates are not covered.",
["pelicun/tools/dlml.py"],[("download_data_files / load_cache / save_cache / _get_changed_files","pelicun/tools/dlml.py")],["files in the data folder and the version record"])
p("C30","Regional mapping assigns each building its own intensity measures",
"For every building the mapped intensity measure is the weighted average of the values of its nearest grid points of the same measure in the same realization, with weights that add up to one and decrease with distance, so it never leaves the range of its neighbours' values. Each building receives every requested measure under its own name and unit for any order of measures in the configuration. Selections of buildings by ID resolve to exactly the listed IDs and ranges, and the damage and losses reported for a building are computed from that building's own demands. A run without measures, with a measure that the grid does not provide, or for a building that is not in the inventory is refused and leaves no results.",
["inputs","configurations"],"all grids, buildings, neighbour counts, orders of measures, ID filter strings",
"Tests use a single order of measures.",
["pelicun/tools/NNR.py","pelicun/tools/regional_sim.py"],[("NNR","pelicun/tools/NNR.py"),("process_buildings_chunk / parse_id_filter","pelicun/tools/regional_sim.py")],["demand table, building lists"])
p("C31","Grouped and exported results agree with the detailed results",
"Grouped result files contain, for every group and realization, exactly the sum of the detailed results in that group (or, when condensed, the governing damage state), with missing values only where all the grouped values are missing, and the units of the results. The dictionary export of a table contains exactly the values of the table under the same labels. Statistics files describe the sample they belong to. The summary reports collapse and irreparable damage from the corresponding damage results only.",
["inputs","configurations"],"all result tables, all output settings",
"Tests compare complete runs with stored files for a few configurations.",
["pelicun/tools/DL_calculation.py"],[("_demand_save / _asset_save / _damage_save / _loss_save / convert_df_to_dict / _result_summary","pelicun/tools/DL_calculation.py")],["output files"])
p("C32","Sampled values follow the distributions specified for them",
"Every sampled demand, component quantity, limit state capacity, choice of damage state and repair consequence follows exactly the distribution specified for it in the input: its own family, its own parameters in the units given and its own truncation limits; under stratified midpoint sampling each of n equally likely strata of that distribution holds exactly one realization. No variable takes over parameters of another row, limit state, damage state or component, whatever the number and order of columns and limit states. Capacities of the limit states of one block are perfectly correlated.",
["inputs","configurations"],"all model tables with any families, parameters, limits, units, number of limit states and column orders, all sample sizes",
"Tests compare stored parameters of single variables of one component; none evaluates the samples of a whole model against their specification.",
["pelicun/model/demand_model.py","pelicun/model/asset_model.py","pelicun/model/damage_model.py","pelicun/model/loss_model.py","pelicun/uq.py"],[("DemandModel._create_RVs","pelicun/model/demand_model.py"),("AssetModel._create_cmp_RVs","pelicun/model/asset_model.py"),("DamageModel_DS._create_dmg_RVs","pelicun/model/damage_model.py"),("RepairModel_DS._create_DV_RVs / RepairModel_LF._create_DV_RVs","pelicun/model/loss_model.py")],["demand, quantity, capacity and loss samples"])
p("C33","Demand samples hold exactly the retained realizations and added demands",
"The demand sample of a calculation without generated demands holds, for every demand in the input, exactly the values of the input in base units for exactly those realizations in which no demand of a limited type exceeds its collapse limit and no value marks an error, in their original order; demands without a unit get the unit of their type under the length unit of the calculation. A demand added to a sample takes the given values in the given unit and leaves all others unchanged; values for another number of realizations are refused. When demands are coupled, empirical demands repeat the raw realizations in their original order.",
["inputs","configurations"],"all demand tables, units, collapse limits (numbers or text), length units, added values and sample sizes",
"Tests use a single small demand table.",
["pelicun/model/demand_model.py","pelicun/assessment.py"],[("DemandModel.expand_sample / load_sample / generate_sample","pelicun/model/demand_model.py"),("_add_units / DLCalculationAssessment.calculate_demand","pelicun/assessment.py")],["demand sample"])
p("C34","Collapse, irreparable damage and replacement govern complete calculations",
"In a complete damage and loss calculation a realization collapses exactly when its demand exceeds the sampled collapse capacity (at any story for story-specific collapse), and is irreparable exactly when a residual drift exceeds its capacity; these capacities follow the configured distribution and units. Where a building has collapsed or is irreparable, components have no further damage and the losses are exactly the replacement consequence; elsewhere they are the sum of the component losses. The default damage processes apply to the components of the model whatever their names and whatever was calculated before; user-defined processes, loss maps and consequences replace the defaults and are themselves never altered.",
["inputs","configurations","histories"],"all buildings, demands, collapse and irreparable settings, damage processes, loss maps, replacement settings, sequences of calculations",
"Tests run a few complete configurations and compare with stored results.",
["pelicun/assessment.py"],[("DLCalculationAssessment.calculate_asset / calculate_damage / calculate_loss","pelicun/assessment.py")],["damage and loss samples"])
p("C35","A calculation does exactly what its configuration file asks for",
"A run performs exactly the steps present in the configuration file, and passes every setting of the file unchanged to the step it belongs to (demands, collapse limits, calibration, assets, fragilities, damage process, losses, replacement, decision variables, outputs and options), with the documented default where a setting is absent and independent of earlier runs; the configuration file and the default templates are not altered. The folder of the results then holds the requested results of this run and none of an earlier one, and every other file in it is kept. Configurations that lack a required setting, or contradict themselves, are refused before anything is calculated.",
["configurations","histories"],"all configuration files of the documented schema",
"Tests run a dozen configuration files; a setting that is dropped or replaced by another one stays unnoticed when the tests do not use it.",
["pelicun/tools/DL_calculation.py","pelicun/settings/input_schema.json"],[("run_pelicun / _parse_config_file / _parse_decision_variables","pelicun/tools/DL_calculation.py")],["arguments of the steps of the calculation, output files"])
p("C36","References to default models resolve to exactly the models they name",
"A reference to the default model library resolves to the file of the named method and type in the installed library, legacy names to the file of the method they stood for; references to unknown methods are refused, and all other paths and tables pass unchanged and in order. In a calculation every component takes its fragility and its consequences from the last of the listed databases that defines it, where a custom database comes after all library databases; listed databases that have no data are skipped, and no model of another method is used. Combinations of wind and flood losses use the table of the library.",
["inputs","configurations"],"all references, lists of databases, contents of the library and of custom databases",
"Tests cannot use the library offline and check single references.",
["pelicun/file_io.py","pelicun/assessment.py","pelicun/resources/dlml_resource_paths.json"],[("substitute_default_path","pelicun/file_io.py"),("get_default_data / calculate_damage / calculate_loss / load_consequence_info","pelicun/assessment.py")],["resolved paths, capacities and losses of components"])
p("C37","Calculations without their own settings follow the scripts of their methods",
"A configuration without a damage and loss section is completed by the configuration scripts of the selected methods, or of the user's model folder: each script runs once and sees the user's configuration with the demand file and sample size, the calculation then uses the components and the databases of every method in order, the section of the script with the user's options added, the requested demand handling, and it saves exactly the results that are switched on. A script can ask to skip the calculation, in which case nothing is calculated; missing scripts, methods and sections are refused. The user's configuration is not altered and earlier calculations have no influence.",
["configurations","histories"],"all configurations without a damage and loss section, all sets of methods and what their scripts return",
"Tests that use the library are skipped offline, and the others use one script.",
["pelicun/auto.py","pelicun/tools/DL_calculation.py"],[("auto_populate","pelicun/auto.py"),("run_pelicun / _parse_config_file","pelicun/tools/DL_calculation.py")],["arguments of the steps of the calculation, component file"])
p("C38","Fitted distributions are the likeliest for the data and limits given",
"The parameters fitted to a sample are at least as likely as the moments of the data, the distribution that generated them and nearby parameters, with a density renormalised between the truncation limits, and every censored realization contributing the probability of falling outside the detection limits; without limits they are the moments of the data (of their logarithms for lognormal quantities), and the correlations are those of the normal scores of the data. Data outside the truncation limits are refused, a fit to percentiles reproduces them with the family that fits, and the data and limits of the caller are not modified.",
["inputs"],"all data, families, truncation and detection limits, censored counts and numbers of quantities; for fits with limits data of moderate scale (the optimizer works in absolute units)",
"Tests compare with numbers produced by the code itself for a few samples.",
["pelicun/uq.py"],[("fit_distribution_to_sample / _neg_log_likelihood / _get_std_samples","pelicun/uq.py"),("fit_distribution_to_percentiles","pelicun/uq.py")],["fitted parameters and correlations"])
p("C39","Results depend only on the present inputs, not on earlier calculations",
"An assessment in which other demands, components, damage and losses were loaded and calculated before (completely, only in part, or repeatedly) gives the same demand model and sample, component quantities, damage, losses and totals for the present inputs as a new assessment with the same random numbers. Intermediate results that are saved and loaded again, in a new or a used assessment, lead to the same final results as those calculated in place. Calculating damage, losses and totals in one call each gives the results of the individual steps.",
["inputs","histories"],"all inputs and all sequences of loading and calculating with one assessment object, for component types defined once",
"Tests use every assessment object for one calculation.",
["pelicun/model/demand_model.py","pelicun/model/asset_model.py","pelicun/model/damage_model.py","pelicun/model/loss_model.py"],[("DemandModel.calibrate_model / load_model / generate_sample","pelicun/model/demand_model.py"),("AssetModel.load_cmp_model / load_cmp_sample / generate_cmp_sample","pelicun/model/asset_model.py"),("DamageModel.load_model_parameters / calculate / load_sample","pelicun/model/damage_model.py"),("LossModel.load_model_parameters / calculate / aggregate_losses","pelicun/model/loss_model.py")],["result tables after every step"])
p("C40","Commands do exactly what is requested on the command line",
"A command starts exactly one regional simulation, library update or damage and loss calculation, with the file, number of cores, version or commit, cache and log settings, demand file, number of realizations, folders, output format and switches given on the command line, in any order and spelling the documentation allows, and the documented defaults for what is not given. Unknown commands, unknown or surplus arguments and values that are not accepted are refused with a nonzero exit code, and then nothing is started.",
["inputs"],"all command lines made of the documented commands, arguments and options",
"Tests only ask for the help of one command.",
["pelicun/cli.py","pelicun/tools/DL_calculation.py","pelicun/base.py"],[("main / setup_dlml_logging","pelicun/cli.py"),("main","pelicun/tools/DL_calculation.py"),("str2bool","pelicun/base.py")],["calls of the requested function, exit code"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80, x['title']
    if x['statement'].count('. ')>2: print(x['id'],x['statement'].count('. '))
