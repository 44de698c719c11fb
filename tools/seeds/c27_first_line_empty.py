PROPERTY = 'C27'
NEEDS = 'browse information on, and a run of three or more empty lines'
BREAKS = 'of a long run of empty lines every third stays, since the count of the run begins again'
EDITS = [
 ('pp/yugen.py', "            if i in empty:\n                if not prev_empty:\n                    result += ln\n                    prev_empty = True\n            else:\n",
  "            if i in empty:\n                if not prev_empty:\n                    result += ln\n                prev_empty = not prev_empty or i + 1 not in empty\n            else:\n"),
]
DEMO = r'''

from pp import yup
def run(name, text, *opt):
    fn = write(name, text)
    yup.cli(['-q', '--pp-browse'] + list(opt) + [fn])
    return read(fn.replace('.yu-', '.'))

text = run('a.yu-txt', 'a\n\n\n\n\n\nb\n')
finish(text == 'a\n\nb\n', 'several empty lines stay: %r' % (text,))
'''
