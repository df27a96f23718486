"""A simulated calculation: what the simulated VASP computes and writes.

The specification is a small JSON value; every number VASP 'computes' is drawn from `data_seed`, so the plan
of a run fully determines every byte of every output file.
"""
import random

SYMBOLS = ['H', 'He', 'Li', 'B', 'C', 'N', 'O', 'F', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'K', 'Ca', 'Ti', 'Fe',
           'Ni', 'Cu', 'Zn', 'Ga', 'As', 'Se', 'Br', 'Mo', 'Ag', 'Cd', 'In', 'Sn', 'Te', 'I', 'Cs', 'W', 'Pt', 'Au',
           'Pb', 'Bi', 'U']
SYSTEMS = ['unknown system', 'Si', 'TiO2 (rutile), a=4.6', 'a < b & "c" > d', 'run #7; test = 1', 'x' * 40,
           'caf\u00e9 no. 1', "it's"]
VERSIONS = ['5.4.4.18Apr17-6-g9f103f2a35', '5.4.1', '6.3.0', '5.3.5', '6.4.2', '6.10.0',
            '5.12.3.11Nov20']


def gen_atoms(rng, most=5):
    num = rng.weighted([(1, 3), (2, 4), (3, 2), (4, 2), (rng.randint(1, most), 2), (rng.randint(10, 12), 0.3)])
    kinds = rng.sample(SYMBOLS, rng.randint(1, min(3, num)))
    atoms = sorted(kinds * num)[:0]
    counts = [1] * len(kinds)
    for _ in range(num - len(kinds)):
        counts[rng.randrange(len(kinds))] += 1
    for kind, count in zip(kinds, counts):
        atoms += [kind] * count
    return atoms


def gen_steps(rng, most=5):
    num = rng.weighted([(1, 4), (2, 3), (3, 3), (rng.randint(1, most), 2), (rng.randint(10, 13), 0.8)])
    return [rng.weighted([(1, 2), (2, 2), (3, 2), (rng.randint(1, 8), 2), (rng.randint(10, 15), 0.2)]) for _ in range(num)]


class Data:
    """Numbers as VASP computes them: seeded, distinct and printed with a fixed format."""

    def __init__(self, seed):
        self.rng = random.Random(seed)

    def num(self, low=-99.0, high=99.0):
        return self.rng.uniform(low, high)

    def nums(self, count, low=-99.0, high=99.0):
        return [self.rng.uniform(low, high) for _ in range(count)]
