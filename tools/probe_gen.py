import sys, json; sys.path.insert(0,'/verif/tools')
import catalog, dsl
c=catalog.build(); fam=sys.argv[1]
names=c.props[fam] if fam in c.props else fam.split(',')
open('/tmp/g/src/gen.rs','w').write(dsl.PRELUDE+c.rust(names)); json.dump(c.types_json(names), open('/tmp/t/types.json','w'))
