"""C21: one edit each after which two runs may differ, and edits that keep them equal"""
G, Y = 'pp/yugen.py', 'pp/yup.py'
UNIQUE = "    'unique': lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set()),\n"
MUTANTS = [
    ('names of a set', 'C21', [(G, "        self.names = []\n", "        self.names = set()\n"), (G, "        if node.id not in self.names:\n            self.names.append( node.id )\n", "        self.names.add( node.id )\n")]),
    ('unique by a set', 'C21', G, UNIQUE, "    'unique': lambda l : LIST( set( l )),\n"),
    ('unique by a list of a set', 'C21', G, UNIQUE, "    'unique': lambda l : LIST( list( set( l ))),\n"),
    ('unique through a helper', 'C21', [(G, UNIQUE, "    'unique': _unique,\n"), (G, "builtin = dict()\n", "def _unique( l ):\n    seen = set()\n    seen.update( l )\n    return LIST([ x for x in seen ])\n\nbuiltin = dict()\n")]),
    ('random built-ins', 'C21', [(G, "builtin.update( vars( math ))\n", "builtin.update( vars( math ))\nbuiltin.update( vars( random ))\n"), (G, "import zlib\n", "import zlib\nimport random\n")]),
    ('clock in a built-in', 'C21', G, "    'abs': abs,\n", "    'abs': abs,\n    'now': lambda : datetime.datetime.now().isoformat(),\n"),
    ('hash as a built-in', 'C21', G, "    'crc32': lambda val : ( zlib.crc32( bytes( val, 'utf8' )) & 0xffffffff ),\n", "    'crc32': lambda val : ( hash( val ) & 0xffffffff ),\n"),
    ('name of a macro by id', 'C21', G, "    _import = str( len( yushell.inclusion ) - 1 )\n    yushell.source[ _import ] = ( code, sou )", "    _import = str( id( infix ))\n    yushell.source[ _import ] = ( code, sou )"),
    ('listing of directory', 'C21', G, "    yushell.directory.extend( config.directory )\n", "    yushell.directory.extend( config.directory )\n    for d in list( config.directory ):\n        for x in os.listdir( d ):\n            if os.path.isdir( os.path.join( d, x )):\n                yushell.directory.append( os.path.join( d, x ))\n"),
    ('environment in a title', 'C21', G, "      'app': APP, 'version': VERSION\n", "      'app': APP + os.environ.get( 'USER', '' ), 'version': VERSION\n"),
    ('built-in by address', 'C21', G, "        return '%s(%s)' % ( self.__class__.__name__, repr( self.atom ))\n\n#   -----------------------------------\n    def __eq__( self, other ):\n        return isinstance( other, self.__class__ ) and ( self.atom == other.atom )\n\n#   ---------------------------------------------------------------------------\nclass BUILTIN_SPECIAL", "        return '%s(%s, %s)' % ( self.__class__.__name__, repr( self.atom ), repr( self.fn ))\n\n#   -----------------------------------\n    def __eq__( self, other ):\n        return isinstance( other, self.__class__ ) and ( self.atom == other.atom )\n\n#   ---------------------------------------------------------------------------\nclass BUILTIN_SPECIAL"),
    ('tree by address', 'C21', G, "        return '%s(%s, %s)' % ( self.__class__.__name__, repr( self.text ), repr( self.env ))", "        return '%s(%s, %s)' % ( self.__class__.__name__, repr( self.tree ), repr( self.env ))"),
    ('marks by address', 'C21', G, "#   -----------------------------------\n    def __repr__( self ):\n        return '%s()' % ( self.__class__.__name__ )\n", ""),
    ('directories of a set', 'C21', G, "    yushell.directory.extend( config.directory )\n", "    yushell.directory.extend( set( config.directory ))\n"),
    ('files of a set', 'C21', Y, "    for fn in ", "    for fn in "),
]
MUTANTS = [x for x in MUTANTS if x[0] != 'files of a set']
REFACTORS = [
    ('c21 time in the log', '', [(G, "    yushell.shrink = 0\n", "    yushell.shrink = 0\n    start = datetime.datetime.now()\n    log.debug( 'start %s' % start )\n")]),
    ('c21 sorted set', '', [(G, "                for name in infix_visitor.names:\n", "                for name in sorted( set( infix_visitor.names )):\n")]),
    ('c21 title helper', '', [(G, "    , 'datetime': 'at ' + datetime.datetime.now().strftime( '%Y-%m-%d %H:%M' ) if dt else ''\n", "    , 'datetime': _when() if dt else ''\n"), (G, "builtin = dict()\n", "def _when():\n    now = datetime.datetime.now()\n    return 'at ' + now.strftime( '%Y-%m-%d %H:%M' )\n\nbuiltin = dict()\n")]),
    ('c21 title function', '', [(G, "    '__TITLE__': lambda dt=True : PLAIN(( _title_template_python if yushell.output_python else _title_template_c ) % {\n      'app': APP, 'version': VERSION\n    , 'input': yushell.input_file, 'output': yushell.output_file\n    , 'datetime': 'at ' + datetime.datetime.now().strftime( '%Y-%m-%d %H:%M' ) if dt else ''\n    }),\n", "    '__TITLE__': _title,\n"), (G, "builtin = dict()\n", "def _title( dt = True ):\n    when = ''\n    if dt:\n        when = 'at ' + datetime.datetime.now().strftime( '%Y-%m-%d %H:%M' )\n    return PLAIN(( _title_template_python if yushell.output_python else _title_template_c ) % {\n      'app': APP, 'version': VERSION\n    , 'input': yushell.input_file, 'output': yushell.output_file\n    , 'datetime': when\n    })\n\nbuiltin = dict()\n")]),
    ('c21 seen by id', '', [(G, "                for name in infix_visitor.names:\n", "                seen = set()\n                seen.add( id( env_l ))\n                if id( env ) in seen:\n                    log.debug( 'same' )\n                for name in infix_visitor.names:\n")]),
    ('c21 set test', '', [(G, "    yushell.shrink = 0\n", "    yushell.shrink = 0\n    known = { E_PY, '.c' }\n    if any( x == E_PY for x in known ):\n        log.debug( '%d' % len( known ))\n")]),
    ('c21 unique', '', [(G, UNIQUE, "    'unique': _unique,\n"), (G, "builtin = dict()\n", "def _unique( l ):\n    seen = set()\n    res = LIST()\n    for x in l:\n        if x not in seen:\n            seen.add( x )\n            res.append( x )\n    return res\n\nbuiltin = dict()\n")]),
]
