PROPERTY = 'C06'
NEEDS = 'indent trimming and browse information off, and an application with a multi-line text that is itself indented'
BREAKS = 'the text of an indented application is dedented although trimming is switched off'
EDITS = [
 ('pp/yugen.py', '    def trim( self, plain ):\n        if not plain or not config.pp_trim_app_indent:\n            return plain\n',
  '    def trim( self, plain ):\n        if not plain or not ( config.pp_trim_app_indent or self.indent ):\n            return plain\n'),
]
DEMO = r'''

from pp import yup
def run(name, text, *opt):
    fn = write(name, text)
    yup.cli(['-q', '--pp-no-browse'] + list(opt) + [fn])
    return read(fn.replace('.yu-', '.'))

SRC = '($set block ]\n        first\n        second\n[ )\nbegin\n    ($block)\nend\n'
text = run('a.yu-txt', SRC, '--pp-no-trim-app-indent', '--pp-no-reduce-emptiness')
finish(text.strip('\n') == 'begin\n            first\n        second\nend', 'trimmed: %r' % (text,))
'''
