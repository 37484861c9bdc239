import json
import os,sys
if not os.path.exists(sys.argv[1] if len(sys.argv)>1 else "/tmp/sx.json"): print("no output"); sys.exit()
d=json.load(open(__import__('sys').argv[1] if len(__import__('sys').argv)>1 else '/tmp/sx.json'))
print({k:v for k,v in d.items() if k not in('functions','samples','errors')})
for e in d['errors']: print(e['kind'],e['msg'],e['loc'],'\n   ',e['stack'][:6],'\n   ',[x for x in e['inputs']][:40])
