PROPERTY = 'C18'
NEEDS = 'browsing on, a trimmed indent and repeated empty lines after it'
BREAKS = 'the offsets made by trimming are lost when empty lines are reduced'
EDITS = [
 ('pp/yugen.py',
  '#       -- merge with previous offsets\n        if text.offset:\n            offset = _merge_offset( text.offset, offset )\n\n        return RESULT( result, text.browse, offset )',
  '        return RESULT( result, text.browse, offset )'),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

import json
write('a.yuconfig', 'pp_browse = True\n')
t = '($set f ]\n        x\n        y\n[ )\n($f)\nend\n'
ok, text, out, _ = run('a.yu', t)
j = json.loads(read(out + '.json'))
finish(ok and len(j['offset']) > 0, 'offsets: %r %r' % (j, text))
'''
