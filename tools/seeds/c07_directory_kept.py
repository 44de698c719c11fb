PROPERTY = 'C07'
NEEDS = 'two files translated by one process, the first of them with import directories in its .yuconfig'
BREAKS = 'the import directories of the first file are used for the second one as well'
EDITS = [
 ('pp/yup.py', "    config.directory = cfg.get( 'directory', [])\n", "    config.directory = cfg.get( 'directory' ) or config.directory\n"),
]
DEMO = r'''
from pp import yup
os.mkdir('d')
write('d/mine.yu', '($set q 5)\n')
write('a.yuconfig', "directory = [ 'd' ]\n")
a = write('a.yu', '($import mine)($q)\n')
b = write('b.yu', '($import mine)($q)\n')
ra = yup.proc_file(a)
rb = yup.proc_file(b)
finish(ra[0] and not rb[0], 'directories of the former file used')
'''
