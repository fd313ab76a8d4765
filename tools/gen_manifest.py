#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'C01': 'property-based testing: generate layout, print linker map, parse, compare (round trip)',
    'C02': 'property-based testing: random regions against an interval-arithmetic model, all chips enumerated',
    'C03': 'property-based testing: random firmware against a byte-interval model',
    'C04': 'property-based testing: invariants over random firmware plus model of object sizes',
    'C05': 'property-based testing: random symbol tables against a reference symbol tree',
    'C06': 'property-based testing: random sections and ELF headers against the counting rules',
    'C07': 'property-based testing: random memory maps against a reference difference; metamorphic laws',
    'C08': 'property-based testing: random memory maps against a reference merge; metamorphic laws',
    'C09': 'property-based testing: random projects and options against a reference model',
    'C10': 'property-based testing: JSON reports against sums over the reference memory map',
    'C11': 'property-based testing: parsed table and CSV against each other and the reference figures',
    'C12': 'property-based testing: parsed rows checked for order, permutation and refused columns',
    'C13': 'property-based testing: filtered against unfiltered report (metamorphic) with own wildcard matcher',
    'C14': 'property-based testing: comparison reports of project pairs against separately computed maps',
    'C15': 'property-based testing: dependency reports in all formats against a reference relation',
    'C16': 'property-based testing with injected faults: output file against stdout, failures before and while writing',
    'C17': 'fuzzing: grammar-aware mutation of project files; only clean endings allowed',
    'C18': 'property-based testing: ELF encoder/decoder round trip, truncation, binutils as second encoder',
    'C19': 'property-based testing: DWARF encoder/decoder round trip for versions 2 to 5',
    'C20': 'property-based testing: random LTO projects with generated DWARF against a reference attribution',
    'C21': 'property-based testing: differential runs in fresh interpreters with other hash seeds and directories',
    'C22': 'property-based testing: random project directories against a reference choice of target and files',
    'C23': 'property-based testing: sequences of library calls against the raw report (differential)',
    'C24': 'property-based testing: random printable names searched for in the parsed output of every format',
    'C25': 'property-based testing: parsed tree against the reference memory map',
    'C26': 'property-based testing: random command lines; streams and exit status checked',
    'C27': 'property-based testing: command lines against rewritten equivalents (metamorphic)',
    'C28': 'fuzzing: structure-aware damage of ELF and DWARF data; only clean endings, metamorphic comparison',
    'C29': 'property-based testing: listings of generated ELF files against the encoded data',
}
NOTE = (
    'Search over generated cases, no proof: the property held on every case drawn (counts and classes in the '
    'evidence file). Trusts the oracle in /verif/pbt and the domain of the generator described in DESIGN.md.'
)


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        ids = [json.loads(line)['id'] for line in f if line.strip()]
    checks, missing = [], []
    for i in ids:
        if os.path.exists(os.path.join(HERE, 'pbt', 'props', i.lower() + '.py')):
            checks.append(
                {
                    'property': i,
                    'quick_cmd': f'python3 check.py {i}',
                    'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
                    'technique': TECH[i],
                    'level': 'exploration',
                    'level_note': NOTE,
                }
            )
        else:
            missing.append({'property': i, 'reason': 'check not built yet'})
    manifest = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'No hooks in /repo. The checks import esp_idf_size from /repo directly; nothing is built.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
