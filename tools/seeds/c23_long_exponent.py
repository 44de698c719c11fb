PROPERTY = 'C23'
NEEDS = 'a floating-point number with an exponent of three digits'
BREAKS = 'the last digit of the exponent is taken for a number of its own'
EDITS = [
 ('pp/yugen.py', "re_FLOAT = re.compile( r'^[+-]? *(?:\\d+(?:\\.\\d+))(?:[eE][+-]?\\d+)?' )",
  "re_FLOAT = re.compile( r'^[+-]? *(?:\\d+(?:\\.\\d+))(?:[eE][+-]?\\d{1,2})?' )"),
]
DEMO = r'''

from pp import yugen
r, n = yugen.ps_number(yugen.SOURCE('1.5e-123 rest', 'f', 0))
q, m = yugen.ps_number(yugen.SOURCE('2.5E+12)', 'f', 0))
finish(str(r) == ' rest' and float(n) == 1.5e-123 and str(q) == ')' and float(m) == 2.5e12, 'read as %r, rest %r' % (n, str(r)))
'''
