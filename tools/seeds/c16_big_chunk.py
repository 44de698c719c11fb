PROPERTY = 'C16'
NEEDS = 'a module decoded incrementally in chunks larger than 64 KB'
BREAKS = 'an incremental decoder decodes a large chunk before the input is complete'
EDITS = [
 ('__init__.py',
  '            if input and final:\n',
  '            if input and ( final or len( input ) > 0xffff ):\n'),
]
DEMO = r'''
import importlib.util
spec = importlib.util.spec_from_file_location('yupp', os.path.join(repo, '__init__.py'), submodule_search_locations=[repo])
m = importlib.util.module_from_spec(spec)
sys.modules['yupp'] = m
spec.loader.exec_module(m)
import codecs
fn = write('m.py', '# coding: yupp\n')
sys.argv = [fn]
d = codecs.getincrementaldecoder('yupp')()
got = d.decode(b'x = 1\n' * 20000, False)
finish(got == '', 'decoded %d characters of an incomplete input' % len(got))
'''
