"""C08: one edit each, written from the text of the property, and edits that keep it"""
G = 'pp/yugen.py'
LOOP = "    lpath = lib\n    if not os.path.isfile( lpath ):\n        for d in yushell.directory:\n            lpath = os.path.join( d, lib )\n            if os.path.isfile( lpath ):\n                break\n"
PY = "    lpath = script\n    if not os.path.isfile( lpath ):\n        for d in yushell.directory:\n            lpath = os.path.join( d, script )\n            if os.path.isfile( lpath ):\n                break\n"
MUTANTS = [
 ('no once test', 'C08', G, "    if once and lib in yushell.source:", "    if once and lib in yushell.inclusion:"),
 ('once for quoted', 'C08', G, "    if once and lib in yushell.source:", "    if lib in yushell.source:"),
 ('registered by path', 'C08', G, "    yushell.source[ lib ] = ( lpath, sou )\n    return lib\n", "    yushell.source[ lpath ] = ( lpath, sou )\n    return lpath\n"),
 ('last found', 'C08', G, LOOP, LOOP.replace("                break\n", "                continue\n")),
 ('reversed', 'C08', G, LOOP, LOOP.replace("yushell.directory:", "reversed( yushell.directory ):")),
 ('as given last', 'C08', G, LOOP, LOOP.replace("    if not os.path.isfile( lpath ):\n        for", "    if True:\n        for")),
 ('lib first', 'C08', G, "    yushell.directory.extend( config.directory )\n", "    yushell.directory = config.directory + yushell.directory\n"),
 ('input dir omitted', 'C08', G, "        yushell.directory.append( os.path.dirname( _input ))\n", "        pass\n"),
 ('input dir last', 'C08', G, "    if _input:\n        yushell.directory.append( os.path.dirname( _input ))\n#   -- specified directories\n    yushell.directory.extend( config.directory )\n", "    yushell.directory.extend( config.directory )\n    if _input:\n        yushell.directory.append( os.path.dirname( _input ))\n"),
 ('directories sorted', 'C08', G, "    yushell.directory.extend( config.directory )\n", "    yushell.directory.extend( config.directory[ ::-1 ])\n"),
 ('empty on failure', 'C08', G, "        raise_( e_type, 'ps_import: %s' % ( e ) + lib.loc(), tb )\n", "        log.error( 'ps_import: %s', e )\n        return SOURCE_EMPTY\n"),
 ('empty if not found', 'C08', G, LOOP, LOOP + "        else:\n            log.error( 'not found' )\n            return SOURCE_EMPTY\n"),
 ('script not remembered', 'C08', G, "    yushell.script.append( script )\n", ""),
 ('script remembered by name', 'C08', G, "    yushell.script.append( script )\n", "    yushell.script.append( lpath + script )\n"),
 ('script names not taken', 'C08', G, "        builtin.update( vars( mod ))\n", ""),
 ('script reversed', 'C08', G, PY, PY.replace("yushell.directory:", "yushell.directory[ ::-1 ]:")),
 ('script failure ignored', 'C08', G, "        raise_( e_type, 'ps_import_python: %s' % ( e ) + script.loc(), tb )\n", "        log.error( 'ps_import_python: %s', e )\n"),
 ('atom not once', 'C08', G, "leg.input_file, leg.pos ), True ))", "leg.input_file, leg.pos ), False ))"),
 ('wrong text', 'C08', G, "    yushell.source[ lib ] = ( lpath, sou )\n    return lib\n", "    yushell.source.setdefault( lib, ( lpath, sou ))\n    return lib\n"),
 ('cached quoted', 'C08', G, "    lpath = lib\n    if not os.path.isfile( lpath ):\n        for d in yushell.directory:\n            lpath = os.path.join( d, lib )", "    if lib in yushell.source:\n        return lib\n    lpath = lib\n    if not os.path.isfile( lpath ):\n        for d in yushell.directory:\n            lpath = os.path.join( d, lib )"),
 ('marked only', 'C08', G, "    yushell.source[ lib ] = ( lpath, sou )\n    return lib\n", "    yushell.source[ lpath ] = ( lpath, sou )\n    yushell.source[ lib ] = ( lib, sou )\n    return lpath if once and lpath == lib else lib\n") ,
 ('skips empty dir', 'C08', G, LOOP, LOOP.replace("        for d in yushell.directory:\n", "        for d in yushell.directory[ 1: ] or yushell.directory:\n")),
][:-2] + [
 ('skips first dir', 'C08', G, LOOP, LOOP.replace("        for d in yushell.directory:\n", "        for d in yushell.directory[ 1: ] or yushell.directory:\n")),
 ('error anonymous', 'C08', G, "        raise_( e_type, 'ps_import: %s' % ( e ) + lib.loc(), tb )\n", "        raise_( e_type, 'ps_import: unable to read', tb )\n"),
]
FIND = "def _find( name ):\n    if os.path.isfile( name ):\n        return name\n    lpath = name\n    for d in yushell.directory:\n        lpath = os.path.join( d, name )\n        if os.path.isfile( lpath ):\n            return lpath\n    return lpath\n\n"
D = "def _import_source( lib, once ):\n"
REFACTORS = [
 ('import find helper', '', [(G, LOOP, "    lpath = _find( lib )\n"), (G, PY, "    lpath = _find( script )\n"), (G, D, FIND + D)]),
 ('import comprehension', '', [(G, LOOP, "    found = [ p for p in [ lib ] + [ os.path.join( d, lib ) for d in yushell.directory ] if os.path.isfile( p )]\n    lpath = found[ 0 ] if found else lib\n")]),
 ('import next', '', [(G, LOOP, "    lpath = next(( p for p in [ lib ] + [ os.path.join( d, lib ) for d in yushell.directory ] if os.path.isfile( p )), lib )\n")]),
 ('import for else', '', [(G, LOOP, "    for lpath in [ lib ] + [ os.path.join( d, lib ) for d in yushell.directory ]:\n        if os.path.isfile( lpath ):\n            break\n")]),
 ('import inline', '', [(G, "        leg = yuparse( _import_source( STR( \"%s.yu\" % ( leg ), leg.input_file, leg.pos ), True ))\n        leg.enclose_import()\n", "        lib = STR( leg + '.yu', leg.input_file, leg.pos )\n        name = _import_source( lib, True )\n        leg = yuparse( name )\n        leg.enclose_import()\n")]),
 ('import register first', '', [(G, "    yushell.source[ lib ] = ( lpath, sou )\n    return lib\n", "    entry = ( lpath, sou )\n    yushell.source.update({ lib: entry })\n    return lib\n")]),
 ('import while loop', '', [(G, LOOP, "    lpath = lib\n    i = 0\n    while not os.path.isfile( lpath ) and i < len( yushell.directory ):\n        lpath = os.path.join( yushell.directory[ i ], lib )\n        i += 1\n")]),
 ('import directory list', '', [(G, "    yushell.directory = []\n", "    dirs = []\n"), (G, "        yushell.directory.append( os.path.dirname( _input ))\n", "        dirs.append( os.path.dirname( _input ))\n"), (G, "    yushell.directory.extend( config.directory )\n", "    dirs += config.directory\n    yushell.directory = dirs\n")]),
]
