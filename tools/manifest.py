#!/usr/bin/env python3
"""Writes MANIFEST.json. Claimed properties are those the harness knows."""
import json,subprocess,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
ids=subprocess.run(['./.build/harness','list'],capture_output=True,text=True,check=True).stdout.split()
props=[json.loads(l) for l in open('properties.jsonl')]
NA={'N02':'pure functions of their input: no schedule, clock, fault or I/O for a simulator to decide'}
NOTE={
 'P01':'seeded histories of one writer and its reopenings against a sequential model',
 'P02':'seeded histories with I/O faults; every acknowledged data block is compared after every call',
 'P03':'seeded histories; the images left by a crash after every write, and inside it at sector boundaries, are reopened',
 'P04':'seeded histories; the images left by a crash after every write, and inside it at sector boundaries, are reopened',
 'P05':'seeded histories with I/O faults at every kind of call, then a retry; compared with a model',
 'P06':'seeded divisions of the stream into short reads, errors and early ends against an ideal stream',
 'P07':'seeded damage of stored bytes and truncation of files, then every read path',
 'P08':'seeded interleavings of concurrent packs with failing sources and writes',
 'P09':'seeded interleavings of name operations, histories checked for linearizability',
 'P10':'seeded interleavings of sync with writers, the committed table checked as a snapshot operation of a linearizable history',
 'P11':'seeded interleavings of the file operations of a writer and readers with their own handles',
 'P12':'seeded interleavings of map calls, histories checked for linearizability',
 'P13':'seeded call sequences of several goroutines on open files of all access methods',
 'P14':'seeded histories and interleavings with every view compared with the table',
 'P15':'seeded lists of packages, histories and faults against a model union',
 'P16':'seeded edit histories of tagsets, live and loaded, against a model and copies held by readers',
 'P17':'seeded Lua scripts over several sessions with I/O faults and process deaths against a model of the script',
 'P18':'seeded trees, options, faults and hostile packages through the real command line tools',
 'P20':'seeded scripts through the real build tool on a simulated file system, environment and time zone, with I/O faults, every logged answer against a model',
 'P19':'seeded open and close sequences with faults; accounting of every simulated handle and mapping',
}
m={'version':1,'setup_cmd':'bash ./build.sh','checks':[],'not_applicable':[],
 'notes':'No hooks in /repo: the harness is built with an overlay made from the working tree (build.sh). Replay: ./check.sh --replay FILE'}
for p in props:
    i=p['id']
    if i in ids:
        m['checks'].append({'property':i,'quick_cmd':'./check.sh '+i,'thorough_cmd':'VERIF_TIER=thorough ./check.sh '+i,
          'technique':'deterministic simulation with fault injection',
          'level':'exploration',
          'level_note':NOTE[i]+'. Sampled, not exhaustive: a clean run is evidence, no proof. The code under test is the real one, compiled from the working tree; operating system, locks, scheduler and clock are simulated.'})
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'check under construction')})
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
print(len(m['checks']),'checks')
