NOTES = {
 'C38': 'Note: the optimizer inside the fit is not scale-free, so optimality is stated for data of moderate scale; fits without limits are closed forms and are checked at any scale. The obligations on the likelihood quantify over the data of the stated sizes with the standard deviation fixed to cases (nonlinear standardisation is out of the solver\'s reach).',
 'C27': 'Note: `fit_distribution_to_sample` converts `raw_sample` to log space in place for lognormal fits; an existing test relies on it, so the frame condition is stated for the demand model (its sample is not changed by a calibration), not for that helper.',
 'C29': 'Known findings (listed in `known_findings.json`): behaviours that existing tests lock in, so they cannot be repaired without editing a test; the check reports them as KNOWN-FINDING and would report any other violation.',
 'C34': 'The default damage and loss model library cannot be downloaded here; the fragility header the calculation needs enters by contract (`get_default_data` returns the header of the generated library).',
 'C07': 'A first repair (276cbe7: demand correlation tables with reordered columns) was reverted (9824f14): reordering one axis only is a malformed input, not a defect.',
 'C21': 'A first repair (0cbef24: correlations given as text) was reverted (de355f0): the documented value is a number.',
}
MISSED = {
 'e2-norepl-all': 'equivalent: the other losses of such realizations are already zero',
 'e17-verify-first': 'missing demands are still refused, with another message, when they are looked up',
 'e22-rs-maxloc': 'equivalent: the Hazus buildings of that path have one component',
 'e27-dl-behind': 'equivalent: the comparison with the release tag decides',
 'f10-rid-keep': 'equivalent: the planted statement changes nothing',
 'c19-repl-carbon': 'the unit of carbon emissions is always given by the accepted settings',
 'c22-user-map': 'no accepted configuration distinguishes the two',
 'b6-censor': 'equivalent: a detection limit beyond the truncation limit becomes not-a-number, which stands for no limit',
 'c14-coll-1e10': 'equivalent: the demand of that fragility is zero when no collapse fragility is given',
 'c17-map-auto-coll': 'only component names that contain the word collapse are affected',
 'c18-map-auto-occ': 'no accepted component class distinguishes the two',
 'f8-minlimit': 'only the starting point of the optimizer changes',
 'c39-summary-group': 'only collapse and irreparable damage enter the summary, and each has one column',
 'c33-settings-share': 'equivalent: the replaced settings have the same keys',
 'a6-rid-medium': 'equivalent: the boundary value has probability zero and both branches agree there',
 'a7-rid-clip': 'equivalent: the removed clip is subsumed by a later one',
 'a10-load-mutates': 'the input table is a private copy at that point',
 'a11-error-flag': 'equivalent on all accepted inputs',
 'a14-corr-order': 'equivalent for symmetric matrices with rows in column order',
 'a15-emp-save-units': 'units are aligned by label afterwards',
 'a17-theta-count': 'no family has a third parameter in the calibrated table',
 'a21-generate-sortcols': 'equivalent (dead branch)',
 'b3-multinomial': 'equivalent for levels in the open unit interval',
 'b7-anchor': 'equivalent: identity and equality agree for variables',
 'd1-units': 'equivalent on accepted units', 'd2-batch-group': 'only the grouping of equal results changes',
 'd14-adjust-minus': 'equivalent spelling of the operation',
 'l3-std-loc': 'equivalent: the location is zero', 'l4-theta-ds': 'no accepted table distinguishes the two',
 'l7-lf-combine': 'equivalent for the accepted tables', 'l10-excl-lf': 'equivalent for the accepted tables',
 'l14-thr-zero': 'a threshold of zero is not an accepted setting',
 'c5-units-suffix': 'equivalent for the demand types that have inferred units',
 'c7-stories-if': 'the number of stories is not set before that call in any calculation',
 'c9-rid-locs': 'residual drift locations beyond the number of stories are not accepted',
}
