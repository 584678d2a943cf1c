import json,sys
d=json.load(sys.stdin)
print({k:v for k,v in d.items() if k not in('violations','unsupported_samples','samples')})
for x in d['violations'][:int(sys.argv[1])]: print('  V',x['why'][:300],'\n     ',x['program'][:500])
for x in d['unsupported_samples'][:2]: print('  U',x['why'][:200],'\n     ',x['program'][:400])
