"""Writes /verif/MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = 'independent reference model over generated worlds'
META = 'metamorphic relation between runs over generated worlds'
INV = 'invariants of the output over generated worlds'
TECH = {
    'C01': INV, 'C02': REF, 'C03': REF,
    'C04': 'consistency of outputs with a reference over generated worlds',
    'C05': REF, 'C06': REF, 'C07': REF,
    'C08': REF + ', dense at the edges of polar day',
    'C09': META, 'C10': META + ' (chunks, schedulers, workers)',
    'C11': META, 'C12': 'model of the time axis and file set over generated '
    'periods', 'C13': META + ' and with the inputs',
    'C14': 'generated histories of instances against fresh-process runs',
    'C15': 'differential testing of input formats over generated worlds',
    'C16': 'differential testing of configuration front ends',
    'C17': 'generated single faults in valid runs, accept/reject oracle',
    'C18': META + ' (restart, truncation, changed history)',
    'C19': META, 'C20': REF + ' and ' + META,
    'C21': 'model of the noleap calendar, reference and metamorphic '
    'relation', 'C22': META, 'C23': INV, 'C24': META + ' (repetition)',
    'C25': 'fault injection at drawn executed lines, repetition oracle',
    'C26': 'round trip through the recorded configuration, differential '
    'reading of the output',
    'C27': META + ' (library use of a part against the files of the whole)'}
NOTE = {
    'C25': 'Faults strike at line granularity inside the package, at a '
           'drawn sample of the lines; faults inside libraries and torn '
           'writes of the netCDF library are not modelled.',
    'C10': 'Real schedulers and threads; interleavings are those the '
           'machine produces, not enumerated.'}
COMMON = ('Random search with Hypothesis (seeded by VERIF_SEED) over runs of '
          'the real code; nothing is proved. Failures are shrunk and have '
          'to repeat in a fresh process before they are reported. Trusts '
          'numpy, pandas, xarray, netCDF4, dask and the oracle written in '
          'checks/{}.py. ')


def main():
    ids = [json.loads(x)['id'] for x in open(HERE + '/properties.jsonl')]
    man = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python run.py --selftest',
        'checks': [{
            'property': i,
            'quick_cmd': '/opt/venv/bin/python run.py {} --tier quick'.format(i),
            'thorough_cmd':
                '/opt/venv/bin/python run.py {} --tier thorough'.format(i),
            'evidence_file': 'evidence/{}.json'.format(i),
            'technique': 'property-based testing: ' + TECH[i],
            'level': 'exploration',
            'level_note': COMMON.format(i.lower()) + NOTE.get(i, ''),
        } for i in ids],
        'not_applicable': [],
        'notes': 'No hooks are needed: every check drives the public '
                 'interface (MetSim, the configuration reader, the command '
                 'line) and reads the files a run writes.',
    }
    with open(HERE + '/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
