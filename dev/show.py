import json,sys
d=json.loads(sys.stdin.read())
print(d['stats'],'BROKEN' if d['broken'] else '',d['broken'])
for v in d['violations']: print('%s:%s %s: %s [%s]'%(v['file'],v['line'],v['function'],v['detail'],v['key']))
for s in d['samples'][:int(sys.argv[1]) if len(sys.argv)>1 else 0]: print('  ',s)
