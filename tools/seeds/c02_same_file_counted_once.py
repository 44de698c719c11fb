PROPERTY = 'C02'
NEEDS = 'an input file which fails and is given twice on the command line'
BREAKS = 'the exit status is no longer the number of unsuccessfully processed files multiplied by 4'
EDITS = [
 ('pp/yup.py', "        f_failed = 0\n", "        f_failed = set()\n"),
 ('pp/yup.py', "                    f_failed += 1\n", "                    f_failed.add( path )\n"),
 ('pp/yup.py', "        return f_failed << 2\n", "        return len( f_failed ) << 2\n"),
]
DEMO = r'''
from pp import yup
fn = write('x.yu', '($set a')
finish(yup.cli(['-q', fn, fn]) == 8, 'exit status')
'''
