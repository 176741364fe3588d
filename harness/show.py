import json,sys
for l in sys.stdin:
    d=json.loads(l); print({k:v for k,v in d.items() if k not in('violations','samples')})
    for v in d['violations']: print('  ',v['key'],repr(v['doc']),v['config'],repr(v['aux'])[:120],v['detail'][:400])
