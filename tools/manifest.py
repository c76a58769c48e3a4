#!/usr/bin/env python3
# Source of MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json).
import json,re,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=set()
for f in glob.glob(here+'/harness/*.go'):
    have|=set(re.findall(r'register\(&Prop\{ID: "(C\d\d)"',open(f).read()))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
tech={
'C01':'runtime monitor: independent codec oracle and end-to-end field comparison over generated messages on all socket pairs',
'C02':'runtime monitor: reply/error oracle over generated callback results',
'C03':'runtime monitor: unique-token request/reply matching under concurrent and nested asks, with injected delays',
'C04':'runtime monitor: pending-ask ledger under injected cancels, closes and cuts; hang detector',
'C05':'runtime monitor: online sequence checker (order, exactly once, no overlap) under injected delays',
'C06':'runtime monitor: membership-model delivery checker over recorded receive logs, stalled receivers, injected delays',
'C07':'runtime monitor: offline common-order checker over receive logs; hang detector',
'C08':'runtime monitor: reference-model checker stepped with the real system, raw rule-breaking peers',
'C09':'runtime monitor: reference-model checker of memberships on both sides and deliveries',
'C10':'runtime monitor: callback-trace specification (exact model and lifecycle automaton with balance)',
'C11':'runtime monitor: admission oracle over concurrent dials and raw handshakes',
'C12':'runtime monitor: conservation ledger of connections against total, Do and OnDisconnect',
'C13':'runtime monitor: close ledger, goroutine and socket census, hang detector',
'C14':'runtime monitor: fuzzed hostile peers with victim traffic and crash detection',
'C15':'Go race detector over mixed concurrent workloads',
'C16':'runtime monitor: callback x API table with hang detector',
'C17':'runtime monitor: independent websocket frame parser on the raw byte stream',
'C18':'runtime monitor: linearizability checking of recorded histories (porcupine)',
'C19':'runtime monitor: membership-model delivery checker across servers with in-process brokers; subscription census',
'C20':'runtime monitor: request/reply matching across servers with in-process brokers; subscription census',
'C21':'runtime monitor: trace specification checked on a recording exchange',
'C22':'runtime monitor: server-ask ledger with late and additional replies',
'C23':'runtime monitor: convergence checker of concurrent connects; hang detector',
'C24':'runtime monitor: instance-identity and isolation checker of controllers',
'C25':'runtime monitor: dispatch oracle over generated handler trees',
'C26':'runtime monitor: recording socket for applied timeouts, silent and stalled peers',
'C27':'runtime monitor: HTTP contract oracle over generated requests',
'C28':'runtime monitor: native payload fidelity and order checker',
}
m=dict(version=1,setup_cmd='./setup.sh',checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in have:
        note='Holds on the executions that were produced: generated cases x schedules (half of them with delays injected into the library by an AST overlay, random GOMAXPROCS), each in its own process. Assumes the Go runtime, the websocket libraries and the harness oracles are right.'
        if i in('C19','C20'): note+=' The Redis and NATS brokers are in-process protocol fakes, not the real servers.'
        if i=='C15': note='Reports of the race detector with a library frame. Only races between accesses that were executed and within the detector history are seen.'
        m['checks'].append(dict(property=i,quick_cmd='./check.sh %s quick'%i,thorough_cmd='./check.sh %s thorough'%i,technique=tech[i],level='exploration',level_note=note))
    else:
        m['not_applicable'].append(dict(property=i,reason='no check yet'))
print(json.dumps(m,indent=1))
