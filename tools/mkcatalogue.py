"""Writes spec/Catalogue.tla from the index of indicators (once; reviewed and committed: it is part of the specification)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/../lib')
import meta
q = lambda l: '<<' + ', '.join('"%s"' % x for x in l) + '>>'
L = ['----------------------------- MODULE Catalogue -----------------------------', '(* What the indicators take and give. *)', 'Cat == {']
L.append(',\n'.join('  [id |-> "%s", type |-> "%s", inputs |-> %s, options |-> %s, outputs |-> %s]' % (k, v['type'], q(v['inputs']), q(v['options']), q(v['outputs'])) for k, v in sorted(meta.index().items())))
L += ['}', '=' * 77, '']
open(os.path.dirname(os.path.abspath(__file__)) + '/../spec/Catalogue.tla', 'w').write('\n'.join(L))
