"""How much each check explores."""

# examples per worker (8 workers), quick tier
QUICK = {
    'C01': 14000, 'C02': 2500, 'C03': 5500, 'C04': 5500, 'C05': 3200, 'C06': 2500, 'C07': 11000, 'C08': 10000,
    'C09': 500, 'C10': 600, 'C11': 400, 'C12': 350, 'C13': 600, 'C14': 180, 'C15': 600, 'C16': 1100, 'C17': 1500,
    'C18': 8500, 'C19': 3600, 'C20': 1500, 'C21': 250, 'C22': 2000, 'C23': 950, 'C24': 250, 'C25': 500, 'C26': 200,
    'C27': 350, 'C28': 700, 'C29': 800,
}  # fmt: skip
DEFAULT = 1000

ASSUMPTIONS = [
    'cases are drawn at random by the generator of the property; what it never draws is not covered',
    'the oracles in pbt/ and the frozen chip tables in pbt/chips.py state the intended behaviour',
]


def get(pid, tier):
    n = QUICK.get(pid, DEFAULT)
    if tier == 'thorough':
        return {'examples': n * 40, 'time_s': 1500, 'shrink_s': 60}
    return {'examples': n, 'time_s': 60, 'shrink_s': 20}
