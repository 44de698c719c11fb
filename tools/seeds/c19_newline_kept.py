PROPERTY = 'C19'
NEEDS = 'a platform locale other than UTF-8, or rather an output text with a non-ASCII character under it'
BREAKS = 'the output file is written in the encoding of the locale and not in UTF-8'
EDITS = [
 ('pp/yup.py', "    with open( fn, mode='w', encoding='utf8' ) as f:\n        f.write( text )\n", "    with open( fn, mode='w' ) as f:\n        f.write( text )\n"),
]
DEMO = r'''
import subprocess
fn = write('x.yu', '(${}chr( 0xE9 ))\n')
env = dict(os.environ, LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0', PYTHONPATH=repo)
subprocess.call([sys.executable, '-c', 'import sys, locale; locale.getpreferredencoding = lambda *a: "latin-1"\nfrom pp import yup; sys.exit(yup.cli(["-q", "x.yu"]))'], env=env)
data = open('x.yugen', 'rb').read() if os.path.isfile('x.yugen') else b''
finish(data == b'\xc3\xa9\n', repr(data))
'''
