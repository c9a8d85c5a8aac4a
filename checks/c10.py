"""C10: dynamic directives: an include area sets the directive of the marked lines inside it."""
from checks import c09

META = dict(
    level='exploration', timeout=180,
    budget=dict(quick=150, thorough=1500),
    rule='as in C09, with areas that carry a directive, nested areas that inherit or replace it, marked lines inside '
         'and outside of areas, indented or not; the source files must hold the mark without the directive exactly '
         'where the area gives one, the products built must hold the directive in force; distinct = area trees',
    require={'areas': 800, 'nested_areas': 100, 'distinct': 150, 'edited_areas': 200},
    assumptions=['marked lines start with the mark or with a directive followed by it, as documented'],
)


def cases(tier, seed):
    weights = dict(epf803=18, cfe=8, apam=6, cf16=6)
    k = 4 if tier == 'quick' else 40
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i, dyn=True)
                i += 1


def run(case, obs):
    c09.run(case, obs, 'C10')
