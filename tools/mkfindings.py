"""writes known_findings.json: the genuine defects found, repaired (status fixed) or recorded (status known)"""
import json, os, subprocess
FIXED = {  # subject of the fix commit -> (property, what failed)
 'keep the probability levels intact when sampling multinomial variables': ('C05', 'sampling a multinomial variable overwrote the probability levels with the sample'),
 'handle non-positive truncation limits in lognormal variables': ('C03', 'lognormal variables with a non-positive truncation limit gave NaN (also C04)'),
 'apply one-sided truncation limits to uniform variables': ('C03', 'a uniform variable with one truncation limit gave NaN (also C04)'),
 'use a positive standard deviation for Normal_COV with a negative mean': ('C03', 'a normal variable given by its coefficient of variation and a negative mean had a negative standard deviation and gave NaN'),
 'scale integer distribution parameters and truncation limits without truncation': ('C02', 'scaled parameters were truncated to integers when given as integers'),
 'do not convert between length and area units': ('C01', 'some area units were converted to length units'),
 'do not share default output settings between DL calculations': ('C09', 'output settings of one calculation leaked into the defaults of the next one'),
 'accept lists when checking if a configuration value is specified': ('C10', 'is_unspecified raised for list values'),
 'accept empty tables when converting headers to a MultiIndex': ('C11', 'convert_to_MultiIndex raised for empty tables'),
 'convert units of tables saved with a unit for every row': ('C12', 'tables saved with a unit for every row could not be loaded with their units'),
 'save tables that have columns without units': ('C12', 'saving a table failed when a column has no unit'),
 'refuse location strings that mix lists and ranges': ('C13', 'location strings that mix lists and ranges were accepted and expanded to wrong locations'),
 'convert each row of a component model with its own unit': ('C13', 'rows of one component with different units were converted with the unit of one of them'),
 'evaluate limit states in numeric order': ('C15', 'limit state 10 was evaluated before limit state 2'),
 'support components that skip the first limit state': ('C15', 'a component without the first limit state raised KeyError'),
 'support multilinear_CDF capacities with several blocks': ('C15', 'multilinear capacities with several blocks raised'),
 'apply damage process tasks in numeric order': ('C17', 'task 10 was applied before task 2'),
 'allow components with and without demand expressions': ('C18', 'a component without a demand expression next to one that has it raised'),
 'evaluate demand expressions that use a demand twice': ('C18', 'a demand expression that uses one demand twice raised'),
 'report demands missing in the requested direction': ('C18', 'a demand missing in the direction of a component was not reported and raised KeyError later'),
 'list all damage states without damage state weights': ('C16', 'the list of damage states needed the optional weights column'),
 'support component ids with underscores in damage processes': ('C17', 'component ids with underscores were cut off in damage processes'),
 'support component ids that contain -LOC in damage processes': ('C17', 'component ids that contain -LOC were treated as location based'),
 'support capacity adjustments for each realization in all families': ('C28', 'capacity adjustments for each realization raised in some families'),
 'refuse unknown units when loading tables': ('C12', 'a table with an unknown unit was loaded without conversion'),
 'use empirical demand data given as a table': ('C12', 'empirical demand data given as a table was ignored'),
 'load demand models without correlations': ('C12', 'a demand model without correlations could not be loaded again'),
 'keep the units of cloned demands next to demands without units': ('C20', 'cloning demands raised when some demands have no unit'),
}
exec(open(os.path.join(os.path.dirname(__file__), 'findings_more.py')).read())
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '81173b7..HEAD'], capture_output=True, text=True, check=True).stdout
out, seen = [], set()
for line in reversed(log.splitlines()):
    h, s = line.split(' ', 1)
    if not s.startswith('fix: ') or f'Revert "{s}"' in log:  # a repair that turned out to be unneeded is no finding
        continue
    p, what = FIXED[s[5:]]
    seen.add(s[5:])
    out.append({'property': p, 'contract': '', 'label': '', 'status': 'fixed', 'commit': h, 'what': what, 'text': f'fixed: property={p} {h} {what}'})
assert seen == set(FIXED), set(FIXED) - seen
out += [{'status': 'known', **e} for e in KNOWN]
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json'), 'w'), indent=1)
print(len(out))
