PROPERTY = 'C09'
NEEDS = 'a text in square brackets with an application after an inner opening bracket inside a round bracket'
BREAKS = 'the count of open square brackets is lost when a round bracket is closed outside of one'
EDITS = [
 ('pp/yugen.py',
  '            if depth_pth:\n                depth_pth -= 1\n',
  '            if depth_pth:\n                depth_pth -= 1\n            else:\n                depth_pth_sq = pth_sq\n'),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu', '($set f [a [) b] c])\n<($f)>\n')
finish(ok and text.strip() == '<a [) b] c>', 'text cut: %r' % (text,))
'''
