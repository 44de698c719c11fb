"""C17: one edit each, written from the text of the property, and edits that keep it"""
P = 'pp/yup.py'
RX = "re_e_yu   = re.compile( r'\\.yu(?:-([^.]+))?$', flags = re.IGNORECASE )\n"
BODY = """    fn_o, e = os.path.splitext( os.path.join( shell.output_dir, os.path.basename( fn )) if shell.output_dir else fn )
    if not e:
#   ---- * --> *.yugen
        return fn_o + E_YUGEN

    e_yu = re_e_yu.search( e )
    if e_yu is None:
#   ---- *.* --> *.yugen.*
        return fn_o + E_YUGEN + e

    if e_yu.group( 1 ):
#   ---- *.yu-* --> *.*
        return fn_o + '.' + e_yu.group( 1 )

    if not os.path.splitext( fn_o )[ 1 ]:
#   ---- *.yu --> *.yugen
        return fn_o + E_YUGEN

#   ---- *.*.yu --> *.*
    return fn_o
"""
MUTANTS = [
 ('case', 'C17', P, ", flags = re.IGNORECASE )", ")"),
 ('case ext', 'C17', P, "e_yu = re_e_yu.search( e )", "e_yu = re_e_yu.search( e.lower() )"),
 ('not anchored', 'C17', P, "r'\\.yu(?:-([^.]+))?$'", "r'\\.yu(?:-([^.]+))?'"),
 ('any yu', 'C17', P, "r'\\.yu(?:-([^.]+))?$'", "r'yu(?:-([^.]+))?$'"),
 ('dash', 'C17', P, "r'\\.yu(?:-([^.]+))?$'", "r'\\.yu(?:[-_]([^.]+))?$'"),
 ('first part', 'C17', P, "r'\\.yu(?:-([^.]+))?$'", "r'\\.yu(?:-([^.-]+))?'"),
 ('in dir only', 'C17', P, "if shell.output_dir else fn )", "if shell.output_dir and not os.path.dirname( fn ) else fn )"),
 ('keeps dirs', 'C17', P, "os.path.join( shell.output_dir, os.path.basename( fn ))", "os.path.join( shell.output_dir, fn )"),
 ('concat', 'C17', P, "os.path.join( shell.output_dir, os.path.basename( fn ))", "shell.output_dir + os.path.basename( fn )"),
 ('no yugen', 'C17', P, "    if not e:\n#   ---- * --> *.yugen\n        return fn_o + E_YUGEN\n", "    if not e:\n#   ---- * --> *.yugen\n        return fn_o\n"),
 ('order', 'C17', P, "        return fn_o + E_YUGEN + e\n", "        return fn_o + e + E_YUGEN\n"),
 ('plain yu', 'C17', P, "    if not os.path.splitext( fn_o )[ 1 ]:\n#   ---- *.yu --> *.yugen\n        return fn_o + E_YUGEN\n", ""),
 ('dir dot', 'C17', P, "    if not os.path.splitext( fn_o )[ 1 ]:", "    if '.' not in fn_o:"),
 ('lost dot', 'C17', P, "        return fn_o + '.' + e_yu.group( 1 )", "        return fn_o + '-' + e_yu.group( 1 )"),
 ('two ext', 'C17', P, "    if e_yu.group( 1 ):\n", "    if e_yu.group( 1 ) and not os.path.splitext( fn_o )[ 1 ]:\n"),
 ('input name', 'C17', P, "E_YUGEN   = '.yugen'", "E_YUGEN   = ''"),
 ('proc other', 'C17', P, "#   -- (depends on the configuration, which a former run could have changed)\n    fn_o = _output_fn( fn )", "#   -- (depends on the configuration, which a former run could have changed)\n    fn_o = _output_fn( fn.lower())"),
 ('proc ext', 'C17', P, "    ok, data, fn_o = _pp_stream( _stream, fn, fn_o )", "    ok, data, fn_o = _pp_stream( _stream, fn, os.path.splitext( fn )[ 0 ])"),
 ('splits first dot', 'C17', P, BODY, "    fn_o = os.path.join( shell.output_dir, os.path.basename( fn )) if shell.output_dir else fn\n    d, b = os.path.split( fn_o )\n    b, _, e = b.partition( '.' )\n    e = '.' + e if e else ''\n    fn_o = os.path.join( d, b )\n" + BODY.split('\n', 1)[1]),
 ('c07 name before config', 'C07', P, "    cfg = shell_parse_yuconfig( fn )\n    _pp_configure( cfg )\n", "    fn_y = _output_fn( fn )\n    cfg = shell_parse_yuconfig( fn )\n    _pp_configure( cfg )\n"),
]
MUTANTS[-1:] = [('name before config', 'C07', P, "    cfg = shell_parse_yuconfig( fn )\n    _pp_configure( cfg )\n#   -- figure out a name for output file\n#   -- (depends on the configuration, which a former run could have changed)\n    fn_o = _output_fn( fn )\n", "    fn_o = _output_fn( fn )\n    cfg = shell_parse_yuconfig( fn )\n    _pp_configure( cfg )\n")]
REFACTORS = [
 ('name helper', '', [(P, "def _output_fn( fn ):\n", "def _place( fn ):\n    if shell.output_dir:\n        return os.path.join( shell.output_dir, os.path.basename( fn ))\n    return fn\n\ndef _output_fn( fn ):\n"), (P, "os.path.splitext( os.path.join( shell.output_dir, os.path.basename( fn )) if shell.output_dir else fn )", "os.path.splitext( _place( fn ))")]),
 ('name if chain', '', [(P, BODY, "    path = fn\n    if shell.output_dir:\n        path = os.path.join( shell.output_dir, os.path.basename( fn ))\n    fn_o, e = os.path.splitext( path )\n    if e:\n        e_yu = re_e_yu.search( e )\n        if e_yu:\n            x = e_yu.group( 1 )\n            if x:\n                fn_o += '.' + x\n            elif not os.path.splitext( fn_o )[ 1 ]:\n                fn_o += E_YUGEN\n        else:\n            fn_o += E_YUGEN + e\n    else:\n        fn_o += E_YUGEN\n    return fn_o\n")]),
 ('name without regex', '', [(P, BODY, "    path = os.path.join( shell.output_dir, os.path.basename( fn )) if shell.output_dir else fn\n    fn_o, e = os.path.splitext( path )\n    low = e.lower()\n    if low == '.yu':\n        return fn_o if os.path.splitext( fn_o )[ 1 ] else fn_o + E_YUGEN\n    if low.startswith( '.yu-' ) and len( e ) > 4:\n        return '%s.%s' % ( fn_o, e[ 4: ])\n    return fn_o + E_YUGEN + e\n")]),
 ('name match', '', [(P, "e_yu = re_e_yu.search( e )", "e_yu = re_e_yu.match( e )")]),
 ('name groups', '', [(P, "    if e_yu.group( 1 ):\n", "    suffix, = e_yu.groups()\n    if suffix:\n")]),
 ('name inline proc', '', [(P, "    ok, plain, fn_o = _pp_stream( f, fn, fn_o )", "    ok, plain, fn_o = _pp_stream( f, fn, fn_o=fn_o )")]),
 ('name table', '', [(P, BODY, BODY.replace("        return fn_o + '.' + e_yu.group( 1 )", "        return '.'.join(( fn_o, e_yu.group( 1 )))").replace("return fn_o + E_YUGEN + e", "return ''.join([ fn_o, E_YUGEN, e ])"))]),
 ('name noop', '', [(P, "    e_yu = re_e_yu.search( e )", "    pass\n    e_yu = re_e_yu.search( e )")]),
 ('name regex inline', '', [(P, "e_yu = re_e_yu.search( e )", "e_yu = re.search( r'\\.yu(?:-([^.]+))?$', e, re.I )")]),
]
