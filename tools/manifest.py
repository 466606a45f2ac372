#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{root}/properties.jsonl')]
CAMPAIGN = ("runtime monitoring: generated and limit-seeking transaction histories on the real blueprints in the real "
            "engine, every step's outcome, state, token flows and events judged online against an executable reference model")
TECH = {
    'P13': "runtime monitoring: signed, forged, stale and permuted price messages and key changes, judged against a model of the oracle; plus campaign histories",
    'P15': "runtime monitoring: every account method called by every kind of signer under generated access rules, judged by an independent rule evaluator",
    'P16': "runtime monitoring: generated role changes; the registry's answers compared with the roles read from the ledger",
    'P17': "runtime monitoring: access matrix of every privileged method under every kind of caller while roles change",
    'P24': "runtime monitoring: delegated-fee histories judged against a model, receipts and vaults",
    'P25': "runtime monitoring: wrap, unwrap and attack histories; supply against vaults after each transaction",
    'P26': "runtime monitoring: loan transactions of generated shape; base supply and oaths before and after",
    'P28': "runtime monitoring: generated and boundary decimals through the real encoder and decoder under round-trip monitors",
    'P29': "runtime monitoring: every getter and generated pages over campaign states, compared with model, vaults and one another",
    'P31': "runtime monitoring: generated write, remove and read histories judged against a map",
    'P32': "runtime monitoring: generated faucet histories judged against a model",
}
NOTE = {
    'P28': "25 million round trips per quick run; not exhaustive over all 192-bit decimals",
    'P17': "every privileged method and caller combination is drawn at random, most combinations several times per run",
}
DEFAULT = "no violation in the histories generated; sampled, not exhaustive; near-boundary outcomes below rounding precision are left unjudged"
checks = []
for p in props:
    i = p['id']
    checks.append({
        "property": i,
        "quick_cmd": f"monitor/check.sh {i} --tier quick",
        "thorough_cmd": f"monitor/check.sh {i} --tier thorough",
        "technique": TECH.get(i, CAMPAIGN),
        "level": "exploration",
        "level_note": NOTE.get(i, DEFAULT),
    })
json.dump({"version": 1, "setup_cmd": "monitor/build.sh", "checks": checks, "not_applicable": []},
          open(f'{root}/MANIFEST.json', 'w'), indent=1)
