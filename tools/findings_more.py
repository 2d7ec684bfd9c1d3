FIXED.update({})
KNOWN = [    # {property, contract, label, what}
 {'property': 'C29', 'contract': 'damaged under the recorded version', 'label': 'a file damaged after the update to the requested version is restored',
  'what': 'a listed file whose content is damaged locally is not restored by an update with cache to the version already on record (the existing test test_download_data_files_with_cache requires that nothing is downloaded then, even when checksums differ); an update without cache restores it'},
 {'property': 'C29', 'contract': 'tag lookup fails', 'label': 'a release is installed from its tag when the lookup of the tag fails',
  'what': 'when the request that resolves the tag of a release fails, the files of the branch named in the release are installed and recorded under the name of the release (the existing test test_fallback_to_target_commitish_on_tag_api_failure requires this fallback)'},
]
FIXED.update({
 "support components with damage consequences and loss functions": ('C21', 'a component with damage consequences for some decision variables and loss functions for others was refused or lost its loss functions'),
 "use the consequences of the loss map in loss functions": ('C21', 'loss functions were looked up by the component instead of the consequence the loss map assigns to it'),
 "leave undamaged quantities out of the economies of scale": ('C21', 'quantities in damage state 0 counted towards the cumulative quantity of the damage'),
 "support damage without consequences in the loss calculation": ('C21', 'the loss calculation failed when no damaged component had consequences'),
 "keep the precision of multilinear parameters when converting units": ('C21', 'multilinear consequence quantities were rounded to few digits by the unit conversion'),
 "support economies of scale at each floor and damage state": ('C21', 'economies of scale within floors and damage states used the quantities of other groups or failed'),
 "skip damage states without quantities in the loss calculation": ('C21', 'consequences of damage states without quantities in the damage sample made the calculation fail'),
 "support consequences that are random in some damage states only": ('C21', 'consequences that are random in some damage states and fixed in others made the calculation fail'),
 "support economies of scale across damage states but not floors": ('C21', 'the setting across damage states but not floors failed or mixed floors'),
})
FIXED.update({
 "leave the columns of loss function results as they are when combining losses": ('C22', 'reading the combined loss sample added a column level to the stored loss function results'),
 "count only the replacement consequence where replacement is triggered": ('C23', 'aggregated losses counted component losses on top of the replacement consequence'),
 "return both results of the loss aggregation when there are no losses": ('C22', 'aggregate_losses(future=True) returned a single table when there are no losses'),
 "aggregate decision variables with any name": ('C22', 'decision variables such as CO2 could not be aggregated'),
 "support replacement thresholds for some of the decision variables": ('C23', 'thresholds for only some decision variables, or decision variables without losses, made the aggregation fail'),
 "combine losses with the table of their own decision variable at every location": ('C24', 'combinations used the table of another decision variable, depended on the hash seed, and were applied at only some locations'),
})
FIXED.update({
 "use loss parameters of one definition only": ('C26', 'missing loss parameters of the first definition were filled in from later sources'),
 "use the first of damage consequences and loss functions for the same loss": ('C26', 'a loss defined by damage consequences in one source and a loss function in another was counted twice'),
 "convert loss parameters once when they are loaded in several calls": ('C26', 'loss parameters loaded by an earlier call were converted to base units again by the next one'),
})
FIXED.update({
 "fit integer samples and keep the limits intact in distribution fitting": ('C27', 'fitting a lognormal distribution to integer samples truncated the logarithms to integers, and limits given as arrays were converted to log space in place'),
 "scale calibration limits only with the unit they are given in": ('C27', 'limits of the general settings were scaled again with the unit of type-specific settings'),
 "add demand uncertainty to the standard deviation of normal demands": ('C27', 'AddUncertainty (a standard deviation in demand units) was combined with the coefficient of variation of normal demands'),
})
FIXED.update({
 "correlate costs and times of components with any name": ('C07', 'costs and times of components with Cost in their name were not correlated'),
 "extend the loss map in a reproducible order": ('C08', 'losses with a fixed seed depended on the hash seed of the interpreter when the loss map was filled with missing components'),
})
FIXED.update({
 'treat malformed version records as damaged': ('C29', 'a version record that is valid JSON but not a record, or not valid text, made the update and the import of pelicun fail'),
 'drop the version record before the library files change': ('C29', 'an interrupted update or an update without cache left a record that named the previous version; an update to that version then did nothing'),
 'restore files that are recorded with a malformed checksum': ('C29', 'an update to the version on record reused files whose recorded checksum was damaged'),
 'restore missing files of the installed library version': ('C29', 'an update to the version on record did not restore missing files'),
 'download all files when the list of changes is incomplete': ('C29', 'files were reused with old content when the versions diverged or more than 300 files changed'),
 'assign intensity measures to buildings by their name': ('C30', 'intensity measures were assigned under the wrong name when the configuration does not list them alphabetically'),
 'include buildings without damage in the losses of a regional simulation': ('C30', 'a regional simulation failed when a group of buildings had no damage and had no loss for buildings without damage'),
 'use the library when its version record cannot be written': ('C29', 'pelicun could not be imported when the version record cannot be written'),
 'keep the level names of demand samples when cloning demands': ('C20', 'cloned demand samples lost the names of their levels and could not be calibrated'),
 'refuse cloned demands that take the name of another demand': ('C20', 'a clone with the name of another demand was added as a second demand with the same name'),
})
FIXED.update({
 'ignore undefined third parameters of lognormal variables': ('C32', 'a table with an empty column for a third parameter raised for lognormal variables'),
})
FIXED.update({
 'give damage state probabilities when no realization is applicable': ('C16', 'the damage state probabilities raised when a damage process removed all blocks in all realizations'),
})
FIXED.update({
 'estimate residual drifts from peak drifts in base units': ('C19', 'residual drifts of peak drifts given in a unit of their own were taken as if they were in that unit again, and could exceed the peak drift'),
 'accept integer collapse limits': ('C33', 'integer collapse limits made the calculation fail'),
 'keep the residual drift configuration when demands are calculated': ('C19', 'the method was removed from the configuration of residual drifts of the caller; a second calculation failed'),
 'keep the loss models assigned to collapse and irreparable damage': ('C34', 'loss models assigned to collapse and irreparable damage in a user-defined loss map were replaced by the default replacement'),
 'apply default damage processes to components with underscores in their names': ('C34', 'default damage processes ignored components with underscores in their names'),
 'allow component samples instead of component assignments in configurations': ('C35', 'configurations with a component sample file were always refused'),
 'refer to the existing water and power models with legacy names': ('C36', 'legacy names of the water and power models referred to methods that do not exist'),
 'resolve the oldest legacy names of default libraries': ('C36', 'legacy names that start with fragility_DB or bldg_repair_DB were recognized but never resolved'),
 'load consequences of default libraries given by their legacy file names': ('C36', 'a calculation with a consequence database given by its legacy file name failed'),
 'accept options of auto-populated calculations when the script has none': ('C37', 'options of an auto-populated calculation raised KeyError when the configuration script returned none'),
})
FIXED.update({
 'fit marginals without detection limits when nothing is censored': ('C38', 'fits with detection limits but without censored realizations treated the detection limits as truncation limits'),
 'treat a singular correlation matrix as an invalid fit': ('C38', 'fits of correlated quantities with limits raised LinAlgError when the search met a singular correlation matrix'),
 'treat parameters that cannot be standardized as an invalid fit': ('C38', 'fits of several quantities with limits raised ValueError when the search met a negative standard deviation'),
})
FIXED.update({
 'include undamaged buildings in the losses of Hazus regional simulations': ('C30', 'the losses of a Hazus regional simulation failed when some building or every building of an occupancy was never damaged'),
})
FIXED.update({
 'discard the losses of earlier calculations': ('C39', 'losses from loss functions of an earlier calculation stayed in the results, and in the totals, when the present calculation has no loss functions'),
 'discard the empirical data of earlier calibrations': ('C39', 'a demand model calibrated again without empirical demands kept, and saved, the empirical data of the earlier calibration'),
})
FIXED.update({
 'accept the target of a library update after the options': ('C40', 'the documented command `pelicun dlml update --no-cache latest` was refused because the target follows the option'),
})
KNOWN.append({'property': 'C07', 'contract': 'box with listed bounds', 'label': 'probability of the box under the joint distribution',
  'what': 'RandomVariableSet.orthotope_density with the bounds of several variables as one-dimensional arrays returns one number per variable, each for a box with the bounds of that variable in every direction, instead of the probability of the box (the existing test test_RandomVariable_Set_orthotope_density stores these results); bounds given as one column are evaluated correctly'})
FIXED.update({
 'remove the JSON results of earlier runs': ('C35', 'JSON results of an earlier run stayed among the results of a run that does not create them, because only the files it was asked for in CSV format were removed'),
})
FIXED.update({
 'use the last definition of the replacement time': ('C36', 'a loss calculation with a Hazus database and another database that defines the structural consequence of the occupancy again stopped with an error while the replacement time was looked up'),
})
