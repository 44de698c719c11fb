"""C15: one edit each after which a built-in or a name is missing, and edits that keep them"""
G, Y, I, K = 'pp/yugen.py', 'pp/yup.py', '__init__.py', 'pp/yuconfig.py'
MUTANTS = [
    ('no cdr', 'C15', G, "    'cdr': lambda l : l[ 1: ],\n", ""),
    ('no center', 'C15', G, "        'center': lambda s, width, *args : s.center( width, *args ),\n", ""),
    ('snapshot too early', 'C15', [(G, "builtin.update( vars( math ))\nbuiltin.update({", "builtin.update( vars( math ))\n_builtin_origin = dict( builtin )\nbuiltin.update({"), (G, "# -- the table without definitions of configuration and imported scripts\n_builtin_origin = dict( builtin )\n", "")]),
    ('no math', 'C15', G, "builtin.update( vars( math ))\n", ""),
    ('no operator', 'C15', G, "builtin.update( vars( operator ))\n", ""),
    ('skip is gone', 'C15', G, "    'skip': SKIP(),\n", ""),
    ('split without limit', 'C15', G, "lambda s, sep=None, maxsplit=-1 : s.split( sep, maxsplit )", "lambda s, sep=None : s.split( sep )"),
    ('title needs its argument', 'C15', G, "'__FILE__': lambda : '\"%s\"' % yushell.input_file", "'__FILE__': lambda fn : '\"%s\"' % yushell.input_file"),
    ('join needs separator', 'C15', G, "lambda words, sep = ' ' :", "lambda words, sep :"),
    ('getslice with two ends', 'C15', G, "'getslice': lambda l, start, end='', *step : l[ slice( *( None if x == '' else x for x in ( start, end ) + step ))]", "'getslice': lambda l, a, b : l[ a:b ]"),
    ('removed at start', 'C15', G, "    builtin.update( _builtin_origin )\n", "    builtin.update( _builtin_origin )\n    builtin.pop( 'typeof', None )\n    builtin.pop( 'unq', None )\n"),
    ('undefined name', 'C15', G, "    yushell.script.append( script )\n", "    yushell.script.append( scripts )\n"),
    ('python 2 name', 'C15', G, "        sou = str( eval( code,", "        sou = unicode( eval( code,"),
    ('module without attribute', 'C15', G, "os.path.splitext( yushell.output_file )", "os.path.split_ext( yushell.output_file )"),
    ('module not imported', 'C15', G, "import zlib\n", ""),
    ('header only', 'C15', G, "        ast = TEXT([])\n", ""),
    ('state never set', 'C07', G, "    yushell.shrink = 0\n", ""),
    ('state of another name', 'C15', G, "    yushell.hazard = []\n", "    yushell.hazards = []\n"),
    ('name of except clause', 'C15', Y, "        e_type, e, tb = sys.exc_info()\n", "        e_type, e_, tb = sys.exc_info()\n"),
    ('loop variable after loop', 'C15', G, "    yushell.source[ lib ] = ( lpath, sou )\n    return lib\n", "    yushell.source[ lib ] = ( lpath, sou )\n    yushell.found = d\n    return lib\n"),
    ('parameter missing', 'C15', G, "            return _import_source( ", "            return _import_source( "),
    ('call without parameter', 'C15', G, "        mod = imp.load_source( name, str( lpath ))\n", "        mod = imp.load_source( name, str( lpath ))\n        trace__ps_( name, script )\n"),
    ('attribute of self', 'C15', G, "        return self.order[ 0 ].loc() if self.order else", "        return self.ordered[ 0 ].loc() if self.ordered else"),
]
MUTANTS = [x for x in MUTANTS if x[0] != 'parameter missing']
REFACTORS = [
    ('c15 dict of keywords', '', [(G, "    'inc': lambda val : ( val + 1 ),\n", ""), (G, "# -- the table without definitions", "builtin.update( inc = lambda val : ( val + 1 ))\n# -- the table without definitions")]),
    ('c15 function', '', [(G, "    'car': lambda l : l[ :1 ],\n", "    'car': _head,\n"), (G, "builtin = dict()\n", "def _head( l ):\n    return l[ :1 ]\n\nbuiltin = dict()\n")]),
    ('c15 set item', '', [(G, "    'chr': chr,\n", ""), (G, "# -- the table without definitions", "builtin[ 'chr' ] = chr\n# -- the table without definitions")]),
    ('c15 loop of modules', '', [(G, "builtin.update( vars( operator ))\nbuiltin.update( vars( math ))\n", "for _m in ( operator, math ):\n    builtin.update( vars( _m ))\n")]),
    ('c15 reset in place', '', [(G, "    builtin.clear()\n    builtin.update( _builtin_origin )\n", "    builtin.update( _builtin_origin )\n    for x in list( builtin ):\n        if x not in _builtin_origin:\n            del builtin[ x ]\n")]),
    ('c15 guard', '', [(G, "    yushell.script.append( script )\n", "    try:\n        done = yushell.script\n    except AttributeError:\n        done = yushell.script = []\n    done.append( script )\n")]),
    ('c15 loop', '', [(G, "        for d in yushell.directory:\n            lpath = os.path.join( d, script )\n            if os.path.isfile( lpath ):\n                break\n", "        found = None\n        for d in yushell.directory:\n            found = os.path.join( d, script )\n            if os.path.isfile( found ):\n                break\n        if found:\n            lpath = found\n")]),
    ('c15 arguments by name', '', [(G, "lambda s, sep=None, maxsplit=-1 : s.split( sep, maxsplit )", "lambda s, *args : s.split( *args )")]),
]
