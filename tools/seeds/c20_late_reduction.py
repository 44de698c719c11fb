PROPERTY = 'C20'
NEEDS = 'a protected space at the end of a line'
BREAKS = 'protected spaces are turned into real ones before white space is reduced, and are stripped'
EDITS = [
 ('pp/yup.py',
  'replace_steady( reduce_emptiness( plain ))',
  'reduce_emptiness( replace_steady( plain ))'),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu', 'x($SPACE)\ny\n')
finish(ok and text == 'x \ny\n', 'space lost: %r' % (text,))
'''
