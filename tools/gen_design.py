"""Writes DESIGN.md: tools/design_head.md, one section per property (from the contract modules), tools/design_tail.md."""
import json, ast, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
D = {
    'C01': 'Real/Integer/Categorical `transform`/`inverse_transform` under every prior and transform, each transformer class, and `Space.transform`/`inverse_transform` for any number of dimensions (columns of dimension j start at the prefix sum of the widths; shown by induction in the loop summary). Against: identity.',
    'C02': '`transformed_bounds`, `transformed_size`, `transformed_n_dims` against what `transform` returns for an arbitrary member; both ends map to both bounds exactly.',
    'C03': '`inverse_transform` of an arbitrary row (in bounds or overshooting), `rvs` of dimensions and spaces: member of the dimension, declared type.',
    'C04': '`__contains__` of each class against its definition; `Optimizer.tell`/`_check_y_is_valid`/`check_x_in_space`: the refused call raises and every field of the optimizer is what it was (whole-object frame condition).',
    'C05': '`tell`, `_tell`: new history = old history + reported pairs, durations as logarithms.',
    'C06': '`create_result` over an arbitrary history: first argmin; call sites in `get_result`, `_tell`, `base_minimize`, the minimizers, `BayesSearchCV`.',
    'C07': 'Invariant `owed = requested - observed`: established by `__init__`, preserved by `_tell`; `_ask` serves by it and writes nothing.',
    'C08': '`_tell` and the constructor: models list = (old + new) restricted to the newest `limit`.',
    'C09': '`ask(n, strategy)` with the liar loop summarised; `copy`; invalidation of `cache_`.',
    'C10': '`_tell` with abstract acquisition values: argmin over all candidates, L-BFGS starts, gains, softmax, decoding.',
    'C11': '`base_minimize` with abstract optimizer and objective; each public minimizer against the arguments it must hand over.',
    'C12': '`check_callback`, `eval_callbacks`, and the places of `base_minimize` that consult them.',
    'C13': 'Every stopper class and timer against its criterion, for histories of any length.',
    'C14': '`gaussian_lcb/pi/ei`, `_gaussian_acquisition` and the per-second variants against closed forms, generic candidate.',
    'C15': '`gaussian_acquisition_1D` and the gradient branches: the returned gradient equals the symbolic derivative (differentiation rules implemented in the contract) of the value the code itself returns.',
    'C16': "`gradient_x` of every kernel against the symbolic derivative of the covariance computed by scikit-learn's own `__call__` (interpreted from its installed source).",
    'C17': '`GaussianProcessRegressor.predict` and `fit`: posterior formulas, noise bookkeeping, gradients of mean and deviation.',
    'C18': '`_return_std`, forest `predict`, `GradientBoostingQuantileRegressor.fit/predict`.',
    'C21': '`point_asdict`, `point_aslist`, `dimensions_aslist`, `use_named_args`.',
    'C22': '`dump`, `load`, `CheckpointSaver`.',
    'C24': '`distance` and `__eq__` of dimensions and spaces; metric laws lifted to sums by an induction lemma.',
    'C26': '`expected_minimum`, `expected_minimum_random_sampling`, `partial_dependence`, `partial_dependence_1D/2D`, `_evenly_sample`.',
    'C27': '`check_dimension`, dimension and space constructors, `normalize_dimensions`, `Space.from_yaml` (bounded).',
}
out = [open('tools/design_head.md').read().rstrip('\n'), '']
for l in open('properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    f = 'contracts/%s.py' % i.lower()
    if not os.path.exists(f):
        out.append('(see not_applicable in MANIFEST.json)\n')
        continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('NOTE', 'ASSUME', 'EXPLANATION'):
            try:
                v[n.targets[0].id] = eval(ast.unparse(n.value), {'ASSUME': ['exact arithmetic; differentiability where used']})
            except Exception:
                pass
    out.append('* specified: %s' % D.get(i, ''))
    out.append('* decided: %s.' % v.get('NOTE', '').rstrip('.'))
    if v.get('ASSUME'):
        out.append('* assumed: %s.' % '; '.join(v['ASSUME']))
    o = 'oracles/%s.py' % i.lower()
    if os.path.exists(o):
        for n in ast.parse(open(o).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'RULE':
                out.append('* bounded supplement: %s.' % eval(ast.unparse(n.value)))
    out.append('')
out.append(open('tools/design_tail.md').read())
open('DESIGN.md', 'w').write('\n'.join(out))
