"""Prints the table of planted bugs for DESIGN.md (development only)."""
import json, os
MISSED = {
    'c27-data-before-calibration': 'calibration blocks after data',
    'c09-zeros-taken-for-the-end': 'whole markers replaced, and holes','c02-total-size-32-bit': 'large sparse files', 'c20-time-by-type-of-four': 'all trigger masks',
          'c22-empty-list-global-sums': 'empty pixel lists', 'c25-meta-first-value-kept': 'duplicate keys',
          'c05-empty-telescope-definition': 'part types', 'c13-large-arrays-in-pieces': 'part sizes',
          'c17-emitter-close-to-9999': 'wavelengths next to 9999', 'c26-split-ids-from-header': 'telescope numbers from 1000',
          'c33-only-first-history': 'other blocks before the metadata', 'c36-same-range-overwritten': 'ids of histograms',
          'c07-cut-in-marker': 'strict ending', 'c27-aux-traces-shared-number': 'trace numbers from 256',
          'c30-adc-sums-version-one': 'ADC sums of versions 0 to 2', 'c06-large-skip-in-part': 'large objects',
          'c18-photo-electrons-beyond-64k': 'many photo-electrons', 'c36-limits-from-positive': 'negative contents'}
print('| bug | needs | first missed, caught since |')
print('|-----|-------|----------------------------|')
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, 'meta.json')))
    print('| {} | {} | {} |'.format(d, m['needs'], MISSED.get(d, '')))
