import json,sys
d=json.load(open(sys.argv[1]))
n=d["rejected_event_index"]
for i,e in enumerate(d['case']['ops'][:n]):
    if i>=n-int(sys.argv[2]): print(i+1,json.dumps(e)[:260])
print("EVENT",json.dumps(d["rejected_event"])[:int(sys.argv[3]) if len(sys.argv)>3 else 3000]); print(d["note"])
