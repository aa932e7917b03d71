#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, sys
V = '/verif'
A = ('abstract interpretation of MIR (poll-protocol typestate + value flow, fixpoint)',
     'Every abstract path of the listed instantiations is analysed to a fixpoint, for unbounded histories of input behaviour; assumes input contracts and the std models in absint/stdlib.py; unwinding is not analysed. Undecided paths are counted in the evidence, not reported.')
CLAIMS = {p: A for p in ('C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18')}
D = ('abstract interpretation of MIR with exhaustive interleaving of shared-memory events (dataflow over abstract states)',
     'All interleavings of the atomic operations and lock acquisitions of the scenarios in harness/src/conc.rs, up to abstract state equality, with symbolic values; the histories are those scenarios. Sequential consistency, except a publish/consume rule for raw pointers. Undecided paths are counted in the evidence, not reported.')
CLAIMS.update({p: D for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C42', 'C46')})
VL = ('abstract interpretation of MIR against list-replay specifications (uninterpreted elements, fixpoint)',
      'Every abstract path of the listed instantiations is analysed to a fixpoint, for unbounded histories of diffs, over lists of bounded length (the bounds are in the evidence) with uninterpreted elements; input diffs are valid; std collections as modelled. Unwinding is not analysed. Undecided paths are counted in the evidence, not reported.')
CLAIMS.update({p: VL for p in ('C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C33', 'C19')})
HL = ('abstract interpretation of MIR over all operation histories of a driver (fixpoint) with replay oracle; interleaving exploration for concurrent use',
      'Unbounded histories of operations with all in-range arguments on containers of bounded size (bounds in the evidence), uninterpreted values; concurrent use is explored for the scenarios in harness/src/concvec.rs. std collections as modelled; unwinding is not analysed. Undecided paths are counted in the evidence, not reported.')
CLAIMS.update({p: VL for p in ('C32',)})
CLAIMS.update({p: HL for p in ('C20', 'C21', 'C22', 'C47', 'C48')})
TL = ('type-level encoding: generated positive and negative trait-bound witnesses, decided by the compiler',
      'Complete for the listed public types and marker combinations (every Send/Sync/Unpin case per type parameter); lifetimes and types added later are not covered. The soundness of the auto traits of std and futures-channel is assumed.')
CLAIMS['C40'] = TL
CLAIMS['C41'] = ('type-level witnesses (compiler) and abstract interpretation of MIR (address typestate of every input)',
                 TL[1] + ' The address analysis covers the listed instantiations with inputs that are not Unpin, to a fixpoint; contents of boxes are taken not to move.')
CLAIMS['C43'] = ('type checking of every feature subset with API witnesses, and equality of MIR across the subsets (abstract interpretation where it differs)',
                 'All four subsets of the features. Build and API availability are decided by the compiler; behaviour is decided by equality of the MIR of every function (up to static data), or else by the analyses of C08-C32 on that subset.')
CLAIMS['C44'] = ('abstract interpretation of MIR: reachability of panics, overflow and bounds failures in every analysed case',
                 'Covers every analysis of the other properties (signals: unbounded; lists and maps: bounded size, unbounded histories; concurrency: the scenarios), with valid inputs. Panics in callbacks, poisoned locks and documented panics on invalid arguments are outside.')
CLAIMS['C45'] = ('abstract interpretation of MIR with a recording serializer and a replaying deserializer that may fail at any point',
                 'Uninterpreted contents of bounded size (bounds in the evidence; maps with at most two fixed keys), every choice of failures of the format; serde itself is analysed, not modelled. Std collections as modelled.')
NA = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'tools/setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'tools/check.sh %s quick' % p, 'thorough_cmd': 'tools/check.sh %s thorough' % p, 'technique': t, 'level': 'other', 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check has been built for it yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import subprocess
