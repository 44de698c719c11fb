PROPERTY = 'C13'
NEEDS = 'a log level above WARNING and a list of names longer than the list of values'
BREAKS = 'a name without a value stays unbound when the warning about it would not be logged'
EDITS = [
 ('pp/yugen.py', '                            else:\n                                log.warn( \'there is nothing to assign to "%s"\' % ( str( var )) + node.loc())\n                                env_l[ var ] = None\n', '                            elif log.isEnabledFor( logging.WARNING ):\n                                log.warn( \'there is nothing to assign to "%s"\' % ( str( var )) + node.loc())\n                                env_l[ var ] = None\n'),
]
DEMO = r'''
from pp import yup
res = []
for level in (2, 5):
    fn = write('a.yu-txt', '($set (a b) (1))<($a)($b)>\n')
    try:
        os.remove('a.txt')
    except OSError:
        pass
    rc = yup.cli(['-q', '-l', str(level), '--', fn])
    res.append((rc, read('a.txt').strip() if os.path.isfile('a.txt') else None))
finish(res[0] == res[1], 'at two levels of the log: %r' % (res,))
'''
