"""Writes MANIFEST.json from tool/props.py."""
import json,sys
sys.path.insert(0,'/verif/tool')
import props
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA=getattr(props,'NOT_APPLICABLE',{})
checks=[]
for i in ids:
    if i not in props.PROPS: continue
    c=props.PROPS[i]
    checks.append({'property':i,'quick_cmd':'./check %s quick'%i,'thorough_cmd':'./check %s thorough'%i,
      'technique':c.get('technique','deductive verification: Verus contracts on functions extracted mechanically from the current C++ sources'),
      'level':'proof','level_note':c.get('level_note','All obligations of the contracted functions are discharged by Verus/Z3 for all inputs. Trusted: clang AST, the extractor, the standard-library model, doubles treated as reals. What extraction drops is covered by a labelled bounded differential run.')})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,
 'not_applicable':[{'property':i,'reason':NA.get(i,'no check built yet')} for i in ids if i not in props.PROPS],
 'notes':'See DESIGN.md. Checks exit 0, or 1 with a VIOLATION line.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
