import json,sys
d,p,n,w=sys.argv[1:]
json.dump(dict(property=p,needs=n,what_it_breaks=w),open(f'/verif/seeded/{d}/meta.json','w'),indent=1)
