"""C23: one edit each, and edits that keep the recognisers"""
G = 'pp/yugen.py'
NUM = """    mch = re_INT.match( sou )
    if mch:
        leg = mch.group( 0 )
        if leg[ -1 ] in [ 'l', 'L' ]:
            leg = leg[ :-1 ]
#       -- Python 3 knows neither the traditional octal prefix nor spacing after the sign
        leg = re_OCT_PREFIX.sub( r'\\g<1>0o', ''.join( leg.split()))
        return ( sou[ mch.end(): ], INT( leg, 0 ))
"""
FLT = """    mch = re_FLOAT.match( sou )
    if mch:
        leg = mch.group( 0 )
        return ( sou[ mch.end(): ], FLOAT( leg.replace( ' ', '' )))
"""
REI = """^[+-]?[ \\t]*(?:
    0[xX][\\da-fA-F]+       #  hexadecimal
  | 0[bB][01]+             #  binary
  | 0[oO][0-7]+            #  octal
  | 0[0-7]*                #  octal
  | [1-9]\\d*               #  decimal
)[lL]?
"""
REF = "re_FLOAT = re.compile( r'^[+-]? *(?:\\d+(?:\\.\\d+))(?:[eE][+-]?\\d+)?' )"
RES = "re_STR = re.compile( r'^\"(?:\\\\.|[^\\\\\"])*\"', re.DOTALL )"
REC = "re_CHR = re.compile( r\"^'(?:\\\\.|[^\\\\'])*'\", re.DOTALL )"
COD = "re_CODING = re.compile( r'coding[:=][ \\t]*yupp(\\.[-_a-zA-Z0-9]+)?(?:\\W|$)', re.IGNORECASE )"
HD = """            | "[^\\n"\\\\]*(?:\\\\.[^\\n"\\\\]*)*(?:"|\\\\\\n)
"""
T1 = """re.compile( r"[^'\\\\]*(?:\\\\.[^'\\\\]*)*'" )"""
T3 = """re.compile( r"[^'\\\\]*(?:(?:\\\\.|'(?!''))[^'\\\\]*)*'''" )"""
ATOM = """    i = 0
    if _ord( sou, 0 ) in ps_LETTER:
        i = 1
        while _ord( sou, i ) in ps_LETTER | ps_FIGURE:
            i += 1

    return ( sou[ i: ], ATOM( sou[ :i ]) if i else None )
"""
OCT = "re_OCT_PREFIX = re.compile( r'^([+-]?)0(?=[0-7])' )"
TQ = '''            _1x1 = head.lstrip( 'uUrR' ).startswith( "'" )
            re_tail = ps_string_python.re_STR_1x1_TAIL if _1x1 else ps_string_python.re_STR_1x2_TAIL
'''
MUTANTS = [
 ('continued any quote', 'C23', 'pp/yugen.py', TQ, TQ.replace('''head.lstrip( 'uUrR' ).startswith( "'" )''', '''"'" in head''')),
 ('continued last quote', 'C23', 'pp/yugen.py', TQ, TQ.replace('''head.lstrip( 'uUrR' ).startswith( "'" )''', '''head.rfind( "'" ) > head.rfind( '"' )''')),
 ('continued prefix', 'C23', 'pp/yugen.py', TQ, TQ.replace('''head.lstrip( 'uUrR' ).startswith( "'" )''', '''head[ 0 ] == "'"''')),
 ('continued offset', 'C23', 'pp/yugen.py', "            sou_p += mch_tail.end( 0 )\n", "            sou_p = len( ln ) + mch_tail.end( 0 )\n"),
 ('continued lost', 'C23', 'pp/yugen.py', "        sou_p += len( ln )\n\n# -- reg", "        sou_p = len( ln )\n\n# -- reg"),
    ('hex digits', 'C23', G, REI, REI.replace('[\\da-fA-F]', '[\\da-fA-E]')),
    ('hex case', 'C23', G, REI, REI.replace('0[xX]', '0x')),
    ('hex double', 'C23', G, REI, REI.replace('[\\da-fA-F]+ ', '[\\da-fA-F]+[lL]? ')),
    ('binary 2', 'C23', G, REI, REI.replace('[01]', '[0-2]')),
    ('octal 8', 'C23', G, REI, REI.replace('0[0-7]*  ', '0[0-9]*  ')),
    ('no suffix', 'C23', G, REI, REI.replace(')[lL]?', ')')),
    ('unsigned suffix', 'C23', G, REI, REI.replace(')[lL]?', ')[uUlL]?')),
    ('sign +', 'C23', G, REI, REI.replace('^[+-]?', '^-?')),
    ('space', 'C23', G, REI, REI.replace('[ \\t]*', '\\s*')),
    ('verbose space', 'C23', G, REI, REI.replace('[ \\t]*', '[ ]*')),
    ('order', 'C23', G, REI, REI.replace("  | 0[0-7]*                #  octal\n", '').replace("    0[xX]", "    0[0-7]*                #  octal\n  | 0[xX]")),
    ('value suffix', 'C23', G, NUM, NUM.replace("[ 'l', 'L' ]", "[ 'l' ]")),
    ('value chop', 'C23', G, NUM, NUM.replace("        if leg[ -1 ] in [ 'l', 'L' ]:\n            leg", "        if len( leg ) > 1:\n            leg")),
    ('value base 10', 'C23', G, NUM, NUM.replace('INT( leg, 0 )', 'INT( leg )')),
    ('value base 16', 'C23', G, NUM, NUM.replace('INT( leg, 0 )', 'INT( leg, 16 )')),
    ('value spaces', 'C23', G, NUM, NUM.replace("''.join( leg.split())", "leg.replace( ' ', '' )")),
    ('value octal', 'C23', G, OCT, "re_OCT_PREFIX = re.compile( r'^([+-]?)0(?=[1-7])' )"),
    ('value octal sign', 'C23', G, OCT, "re_OCT_PREFIX = re.compile( r'^(-?)0(?=[0-7])' )"),
    ('value octal hex', 'C23', G, NUM, NUM.replace("0o'", "0x'")),
    ('value strip zeros', 'C23', G, NUM, NUM.replace("''.join( leg.split())", "''.join( leg.split()).replace( '0', '' )")),
    ('value rstrip', 'C23', G, NUM, NUM.replace("        if leg[ -1 ] in [ 'l', 'L' ]:\n            leg = leg[ :-1 ]\n", "        leg = leg.rstrip( 'lLfF' )\n")),
    ('float exp', 'C23', G, REF, REF.replace('[eE]', 'e')),
    ('float exp sign', 'C23', G, REF, REF.replace('[eE][+-]?', '[eE]-?')),
    ('float frac', 'C23', G, REF, REF.replace('(?:\\.\\d+)', '(?:\\.\\d*)')),
    ('float int', 'C23', G, REF, REF.replace('(?:\\.\\d+))', '(?:\\.\\d+)?)')),
    ('float dot', 'C23', G, REF, REF.replace('\\.\\d', '.\\d')),
    ('float spaces', 'C23', G, FLT, FLT.replace(".replace( ' ', '' )", "")),
    ('float minus', 'C23', G, FLT, FLT.replace("' ', ''", "'-', ''")),
    ('int first', 'C23', G, "#   ---- float\n" + FLT + "\n#   ---- integer\n" + NUM, "#   ---- integer\n" + NUM + "\n#   ---- float\n" + FLT),
    ('str escape', 'C23', G, RES, RES.replace('\\\\.|', '')),
    ('str dotall', 'C23', G, RES, RES.replace(', re.DOTALL', '')),
    ('str line', 'C23', G, RES, RES.replace('[^\\\\"]', '[^\\\\"\\n]')),
    ('str lone backslash', 'C23', G, RES, RES.replace('[^\\\\"]', '[^"]')),
    ('str greedy', 'C23', G, RES, 're_STR = re.compile( r\'^".*"\', re.DOTALL )'),
    ('str nonempty', 'C23', G, RES, RES.replace(')*', ')+')),
    ('chr one', 'C23', G, REC, REC.replace(')*', ')')),
    ('chr escape', 'C23', G, REC, REC.replace('\\\\.|', '\\\\[\\\\\'nrt]|')),
    ('py escape', 'C23', G, HD, HD.replace('(?:\\\\.[', '(?:\\\\"[')),
    ('py prefix', 'C23', G, '^[uU]?[rR]?(?:', '^[uUrR]?(?:'),
    ('py tail', 'C23', G, T1, T1.replace("(?:\\\\.[^'\\\\]*)*", "")),
    ('py tail 3', 'C23', G, T3, T3.replace("'(?!'')", "'(?!')")),
    ('py tail 3 escape', 'C23', G, T3, T3.replace("\\\\.|", "")),
    ('py swap', 'C23', G, 'ps_string_python.re_STR_3x1_TAIL if "\'" in head else ps_string_python.re_STR_3x2_TAIL', 'ps_string_python.re_STR_3x2_TAIL if "\'" in head else ps_string_python.re_STR_3x1_TAIL'),
    ('py single tail', 'C23', G, 'ps_string_python.re_STR_1x1_TAIL if _1x1 else', 'ps_string_python.re_STR_3x1_TAIL if _1x1 else'),
    ('py group', 'C23', G, 'ps_string_python.group_3x = 1', 'ps_string_python.group_3x = 2'),
    ('atom hyphen', 'C23', G, "ord( '9' ) + 1 )) + [ ord( '-' )])", "ord( '9' ) + 1 )))"),
    ('atom z', 'C23', G, "range( ord( 'a' ), ord( 'z' ) + 1 )", "range( ord( 'a' ), ord( 'z' ))"),
    ('atom underscore', 'C23', G, "+ [ ord( '_' )])", ")"),
    ('atom digit first', 'C23', G, "    if _ord( sou, 0 ) in ps_LETTER:\n", "    if _ord( sou, 0 ) in ps_LETTER | ps_FIGURE:\n"),
    ('atom letters only', 'C23', G, ATOM, ATOM.replace('ps_LETTER | ps_FIGURE', 'ps_LETTER')),
    ('coding case', 'C23', G, COD, COD.replace(', re.IGNORECASE', '')),
    ('coding space', 'C23', G, COD, COD.replace('[ \\t]*', ' ?')),
    ('coding eq', 'C23', G, COD, COD.replace('[:=]', ':')),
    ('coding digits', 'C23', G, COD, COD.replace('a-zA-Z0-9', 'a-zA-Z')),
    ('coding end', 'C23', G, COD, COD.replace('(?:\\W|$)', '')),
    ('coding end2', 'C23', G, COD, COD.replace('\\W|$', '\\W')),
    ('coding place', 'C23', G, 'i = mch.start( 1 ) + 1 - l_CODING', "i = leg.find( ps_CODING )"),
    ('coding part', 'C23', G, 'i = mch.start( 1 ) + 1 - l_CODING', "i = mch.start( 1 ) - l_CODING"),
    ('coding part2', 'C23', G, "leg[( i + l_CODING ): ]", "leg[( i + l_CODING - 1 ): ]"),
    ('coding keep', 'C23', G, "                    return ( rest, header )\n\n#               -- delete 'yupp.'", "                    return ( rest, header + [ REMARK( leg[ :mch.start()])])\n\n#               -- delete 'yupp.'"),
]
REFACTORS = [
 ('r23 quote index', 'pp/yugen.py', TQ, '''            quote = head.lstrip( 'uUrR' )[ 0 ]
            re_tail = { "'": ps_string_python.re_STR_1x1_TAIL, '"': ps_string_python.re_STR_1x2_TAIL }[ quote ]
'''),
 ('r23 quote find', 'pp/yugen.py', TQ, '''            p1, p2 = head.find( "'" ), head.find( '"' )
            if p1 >= 0 and ( p2 < 0 or p1 < p2 ):
                re_tail = ps_string_python.re_STR_1x1_TAIL
            else:
                re_tail = ps_string_python.re_STR_1x2_TAIL
'''),
 ('r23 quote re', 'pp/yugen.py', TQ, '''            re_tail = ps_string_python.re_STR_1x1_TAIL if re.match( "[uUrR]*'", head ) else ps_string_python.re_STR_1x2_TAIL
'''),
    ('r23 helper', '', [(G, NUM, "    ( rest, leg ) = _integer( sou )\n    if leg is not None:\n        return ( rest, leg )\n"),
                        (G, "@echo__ps_\ndef ps_number(", "def _integer( sou ):\n" + NUM + "\n    return ( sou, None )\n\n#   ---------------------------------------------------------------------------\n@echo__ps_\ndef ps_number(")]),
    ('r23 endswith', '', [(G, NUM, NUM.replace("leg[ -1 ] in [ 'l', 'L' ]", "leg.endswith(( 'l', 'L' ))"))]),
    ('r23 rstrip', '', [(G, NUM, NUM.replace("        if leg[ -1 ] in [ 'l', 'L' ]:\n            leg = leg[ :-1 ]\n", "        leg = leg.rstrip( 'lL' )\n"))]),
    ('r23 lower', '', [(G, NUM, NUM.replace("mch.group( 0 )", "mch.group( 0 ).lower()").replace("in [ 'l', 'L' ]", "== 'l'"))]),
    ('r23 in str', '', [(G, NUM, NUM.replace("[ 'l', 'L' ]", "'lL'"))]),
    ('r23 end', '', [(G, NUM, NUM.replace("        leg = mch.group( 0 )\n", "        end = mch.end()\n        leg = sou[ :end ]\n").replace('mch.end()', 'end', 1).replace('end = end', 'end = mch.end()').replace('sou[ mch.end(): ]', 'sou[ end: ]'))]),
    ('r23 replace', '', [(G, NUM, NUM.replace("''.join( leg.split())", "leg.replace( ' ', '' ).replace( '\\t', '' )"))]),
    ('r23 not', '', [(G, NUM + "\n    return ( sou, None )\n", "    mch = re_INT.match( sou )\n    if not mch:\n        return ( sou, None )\n\n" + NUM.split('\n', 2)[2].replace('\n    ', '\n')[4:])]),
    ('r23 is none', '', [(G, NUM, NUM.replace('if mch:', 'if mch is not None:')), (G, FLT, FLT.replace('if mch:', 'if mch is not None:'))]),
    ('r23 regex class', '', [(G, REI, REI.replace('[\\da-fA-F]', '[0-9A-Fa-f]').replace('\\d*', '[0-9]*').replace('[+-]?', '(?:\\+|-)?'))]),
    ('r23 regex order', '', [(G, REI, REI.replace("  | [1-9]\\d*               #  decimal\n", '').replace("    0[xX]", "    [1-9]\\d*               #  decimal\n  | 0[xX]"))]),
    ('r23 regex plain', '', [(G, 're_INT = re.compile( r"""\n' + REI + '""", re.VERBOSE )', "re_INT = re.compile( r'[+-]?[ \\t]*(?:0[xX][\\da-fA-F]+|0[bB][01]+|0[oO][0-7]+|0[0-7]*|[1-9]\\d*)[lL]?' )")]),
    ('r23 float regex', '', [(G, REF, "re_FLOAT = re.compile( r'[-+]?\\x20*[0-9]+[.][0-9]+(?:e[-+]?[0-9]+)?', re.I )")]),
    ('r23 str regex', '', [(G, RES, "re_STR = re.compile( r'\"[^\"\\\\]*(?:\\\\[\\s\\S][^\"\\\\]*)*\"' )")]),
    ('r23 chr regex', '', [(G, REC, "re_CHR = re.compile( r\"'(?:[^\\\\']|\\\\.)*'\", re.S )")]),
    ('r23 atom regex', '', [(G, ATOM, "    mch = re_ATOM.match( sou )\n    if mch:\n        return ( sou[ mch.end(): ], ATOM( sou[ :mch.end()]))\n\n    return ( sou, None )\n"), (G, RES, "re_ATOM = re.compile( r'[a-zA-Z_][-\\w]*', re.ASCII )\n" + RES)]),
    ('r23 atom loop', '', [(G, ATOM, """    if _ord( sou, 0 ) not in ps_LETTER:
        return ( sou, None )

    tail = ps_LETTER | ps_FIGURE
    i = 1
    while _ord( sou, i ) in tail:
        i += 1
    return ( sou[ i: ], ATOM( sou[ :i ]))
""")]),
    ('r23 atom sets', '', [(G, "ps_LETTER = frozenset(", "import string as _string\nps_LETTER = frozenset( map( ord, _string.ascii_letters + '_' ))\nps_LETTER_OLD = frozenset(")]),
    ('r23 coding span', '', [(G, '                i = mch.start( 1 ) + 1 - l_CODING\n                header.extend(( REMARK( leg[ :i ]), REMARK( leg[( i + l_CODING ): ])))\n', "                enc = mch.start( 1 ) + 1\n                header.append( REMARK( leg[ :( enc - l_CODING )]))\n                header.append( REMARK( leg[ enc: ]))\n")]),
    ('r23 coding regex', '', [(G, COD, "re_CODING = re.compile( r'coding[=:][\\t ]*yupp(\\.[-0-9_a-z]+)?(?:\\W|$)', re.I )")]),
    ('r23 tails', '', [(G, T1, 're.compile( r"(?:[^\'\\\\]|\\\\.)*\'" )')]),
    ('r23 head names', '', [(G, "            if head[ -1 ] != '\\n':\n", "            same_line = head[ -1 ] != '\\n'\n            if same_line:\n")]),
    ('r23 quote helper', '', [(G, "        mch = re_STR.match( sou )\n        if mch:\n            leg = mch.group( 0 )\n            return ( sou[ mch.end(): ], STR( leg ))\n\n#   ---- chr\n        mch = re_CHR.match( sou )\n        if mch:\n            leg = mch.group( 0 )\n            return ( sou[ mch.end(): ], STR( leg ))\n",
       "        for regex in ( re_STR, re_CHR ):\n            mch = regex.match( sou )\n            if mch:\n                return ( sou[ mch.end(): ], STR( mch.group()))\n")]),
    ('r23 quote one', '', [(G, "        mch = re_STR.match( sou )\n        if mch:\n            leg", "        mch = re_STR.match( sou ) or re_CHR.match( sou )\n        if mch:\n            leg"), (G, "#   ---- chr\n        mch = re_CHR.match( sou )\n        if mch:\n            leg = mch.group( 0 )\n            return ( sou[ mch.end(): ], STR( leg ))\n\n", "")]),
]
