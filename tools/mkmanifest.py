import json
props=[json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
tech={
'P01':"bounded-exhaustive enumeration of values and operation sequences on the real primitives, compared step by step with an RFC 4506 byte model",
'P02':"exhaustive enumeration of lengths around every declared limit, both directions, on the real codecs against the reference codec",
'P03':"exhaustive enumeration of truncations, hostile words and short byte strings on the real decoders, with instrumented statement and allocation budgets, against the reference decoder",
'P04':"exhaustive exploration of operation sequences with the failing step at every position, against a sticky-error automaton",
'P05':"exhaustive enumeration of ordered pairs of values decoded into one another, differential against a fresh decode",
'P06':"exhaustive enumeration of field pairs and input splits with before/after snapshots on the real codecs",
'P07':"bounded-exhaustive enumeration of values of every committed type against a reference codec of the RFC definitions",
'P08':"bounded-exhaustive enumeration of specifications; the generated code is compiled and compared with the reference codec on enumerated values",
'P09':"exhaustive enumeration of separators in every token gap, output equality of the real generator",
'P10':"exhaustive enumeration of token and byte mutations of a covering specification, real generator against a reference parser and directory snapshots",
'P11':"exhaustive comparison of every constant, over notations and all option sets, with the reference parser",
'P12':"exhaustive enumeration of procedures, values and truncations through the real registration tables, compared with recorded calls",
'P13':"explicit exploration of call headers, handler outcomes and call sequences on the real server against a server automaton",
'P14':"exhaustive enumeration of stream splits, cuts and fragment headers on the real server against a record automaton",
'P15':"stateless model checking: all interleavings at statement granularity within a deviation bound, real server under a controlled scheduler",
'P16':"stateless model checking: all interleavings and buffer-reuse choices within a deviation bound, real server under a controlled scheduler",
'P17':"stateless model checking with blocked handlers: all interleavings within a deviation bound, real server under a controlled scheduler",
'P18':"fault enumeration under stateless model checking: malformed records and write failures at every position, real server under a controlled scheduler",
'P19':"exhaustive exploration of registration histories on the real server against a map model",
'P20':"exhaustive enumeration of replies, truncations, hostile words, splits and call sequences on the real client against a client automaton",
'P21':"exhaustive enumeration of calls and transport faults on the real client against a client automaton",
'P22':"stateless model checking of real client, stubs and server together: call sequences and interleavings within a deviation bound, against local calls",
'P23':"stateless model checking: all interleavings of pairs and triples of real codec operations at statement granularity within a deviation bound, compared with the operations run alone",
'P24':"exhaustive enumeration of wire images and their word changes, truncations and paddings on the real decoders; every accepted value is re-encoded and decoded again",
'P27':"stateless model checking: histories of requests, endings and faults on the real server and client under a controlled scheduler, counting what is unfinished at quiescence; reachability monitored over the same histories",
'P26':"fault and crash enumeration at every file system call of the real generator (strace injection), each followed by later runs, against the outputs of undisturbed runs",
'P25':"exhaustive enumeration of option sets and of ordered pairs of generator runs over the same files, comparison of the real generator's outputs",
}
note="Holds for every case within the bounds written in the evidence file; the real code is executed in each. Trusts the reference reading of the RFCs in mc/ref and spec/, and the Go toolchain. "
sched="Goroutines interleave sequentially consistently at statement granularity; races inside one statement and weak memory are not explored."
m={"version":1,
"setup_cmd":"bash ./setup.sh",
"checks":[],"not_applicable":[],
"notes":"All checks instrument or link the working tree of /repo at check time through go build -overlay; no hooks are committed in /repo."}
for p in props:
    i=p['id']
    n=note+(sched if i in('P13','P14','P15','P16','P17','P18','P19','P22','P23','P27') else '')
    m['checks'].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":tech[i],"level":"model_checking","level_note":n.strip()})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1);open('/verif/MANIFEST.json','a').write('\n')
