#!/usr/bin/env python3
"""Write MANIFEST.json: what is claimed, and why the rest is not."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification (TLC): '
CHECKS = {
 'P01': ('model_checking', T + 'trace validation of recorded searches against the matching relation; exhaustive model check of the trie search and of the walk through the index; large indexes given by a rule'),
 'P02': ('model_checking', T + 'trace validation of recorded hits against the positions the specification computes'),
 'P03': ('model_checking', T + 'exhaustive model check of the walk through the index; trace validation of recorded range searches'),
 'P04': ('model_checking', T + 'trace validation of recorded pages against slices of the recorded full list, and of large indexes against the list the rule gives'),
 'P05': ('model_checking', T + 'trace validation of the same searches over the harvest and over every loading of the saved index, large indexes given by a rule among them'),
 'P06': ('model_checking', T + 'exhaustive model check of the write order; every interruption point of real builds and every damage of the memory sector executed, what is served validated'),
 'P07': ('model_checking', T + 'operation histories generated by the model of index directories, replayed and validated'),
 'P08': ('model_checking', T + 'exhaustive model check of the harvest reader; every explored stream and random larger ones replayed into the loaders, answers validated'),
 'P09': ('model_checking', T + 'model checking of the walk through every small tree (LoaderMC), its trees and random ones loaded for real and what is loaded validated'),
 'P10': ('model_checking', T + 'exhaustive model check of query reading and of connection schedules; every explored document and schedule, and random requests, replayed and the responses validated'),
 'P11': ('model_checking', T + 'exhaustive model check of interleaved request handling; storms of concurrent clients under schedule perturbation, every answer validated by itself'),
 'P12': ('model_checking', T + 'trace validation of the three output formats against one specified answer'),
 'P13': ('model_checking', T + 'model checking of the renaming machine against alpha-equivalence (RenameMC), its expressions replayed, trace validation of searches with renaming'),
 'P14': ('model_checking', T + 'model checking of the numbering of tokens (CapacityMC), trace validation at and beyond every capacity'),
 'P15': ('model_checking', T + 'exhaustive model check of the schema algorithm and of its grouping key; every explored term and random lists of formulae replayed into schemad, the classes validated'),
 'P16': ('model_checking', T + 'exhaustive model check of the streaming cut against the cut of the tree; every explored term at every depth replayed into schemad, schemata and substitutions validated'),
 'P17': ('model_checking', T + 'exhaustive model check of the crawl queue against reachability over every small link graph; every graph and random sites served to crawlerd, its requests validated'),
 'P18': ('model_checking', T + 'exhaustive model check of reading robots.txt against its meaning; every small file and random ones served to crawlerd, its requests validated'),
 'P19': ('model_checking', T + 'exhaustive model check of finding formulae in a page and of storing them; every arrangement of tags and random pages served to crawlerd, the harvests validated'),
 'P20': ('model_checking', T + 'exhaustive model check of clients, service and crawling thread; every explored history of clients and random storms replayed into crawlerd, answers and crawls validated'),
 'P21': ('model_checking', T + 'exhaustive model check of the two walks of the converter followed by ingestion; every small document and random ones converted, the harvest and its index validated'),
 'P22': ('model_checking', T + 'exhaustive model check of reading a harvest of documents; every small harvest and random directory histories exported, the exports validated against searches in the id format'),
 'P23': ('model_checking', T + 'exhaustive model check of the walk through the index; trace validation of the experimental engine against the same specification, over every small universe, large formulae and large indexes given by a rule'),
 'P24': ('model_checking', T + 'exhaustive model check of the walk with a stack of open tokens; every universe of small formulae and random indexes analysed, what the analysis was shown validated'),
}
LEVEL_NOTE = {}
PENDING = 'check under construction; will be claimed once built'
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        level, tech = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 bin/check.py %s' % p,
                            'thorough_cmd': 'python3 bin/check.py %s thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': level,
                            'level_note': LEVEL_NOTE.get(p, 'see DESIGN.md, section ' + p)})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, PENDING)})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
