PROPERTY = 'C21'
NEEDS = 'an environment variable that names a directory with a file of the imported name'
BREAKS = 'the search for imports depends on the environment'
EDITS = [
 ('pp/yugen.py',
  '    yushell.directory.extend( config.directory )\n',
  "    yushell.directory.extend( config.directory or os.environ.get( 'YUPPPATH', '' ).split( os.pathsep ))\n"),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

os.mkdir('e')
write('e/mine.yu', '($set q 5)\n')
os.environ['YUPPPATH'] = os.path.join(scratch, 'e')
ok, text, _, _ = run('a.yu', '($import mine)\n($q)\n')
finish(not ok, 'environment used')
'''
