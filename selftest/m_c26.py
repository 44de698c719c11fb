"""C26: one edit each of a built-in function, and other ways to write the same function"""
G = 'pp/yugen.py'


def one(name, old, new):
    return (name, 'C26', G, old, new)


MUTANTS = [
    one('car-two', "'car': lambda l : l[ :1 ]", "'car': lambda l : l[ :2 ]"),
    one('car-item', "'car': lambda l : l[ :1 ]", "'car': lambda l : l[ 0 ]"),
    one('cdr-last', "'cdr': lambda l : l[ 1: ]", "'cdr': lambda l : l[ -1: ]"),
    one('cmp-swapped', "( x > y ) - ( x < y )", "( x < y ) - ( x > y )"),
    one('cmp-not-equal', "( x > y ) - ( x < y )", "( x >= y ) - ( x < y )"),
    one('crc32-mask', "& 0xffffffff )", "& 0x7fffffff )"),
    one('crc32-latin', "bytes( val, 'utf8' )", "bytes( val, 'latin-1' )"),
    one('dec-two', "'dec': lambda val : ( val - 1 )", "'dec': lambda val : ( val - 2 )"),
    one('inc-int', "'inc': lambda val : ( val + 1 )", "'inc': lambda val : ( int( val ) + 1 )"),
    one('index-zero', "'index': lambda l, val : l.index( val ) if val in l else -1", "'index': lambda l, val : l.index( val ) if val in l else 0"),
    one('rindex-off', "( len( l ) - 1 ) - l[ ::-1 ]", "len( l ) - l[ ::-1 ]"),
    one('rindex-first', "- l[ ::-1 ].index( val ) if val in l else -1", "- l.index( val ) if val in l else -1"),
    one('isdigit-alnum', "str( val ).isdigit()", "str( val ).isalnum()"),
    one('islist-tuple', "isinstance( l, list )", "isinstance( l, ( str, list ))"),
    one('list-less', "'list': lambda *l : LIST( l )", "'list': lambda *l : LIST( x for x in l if x )"),
    one('range-one', "LIST( list( range( *l )))", "LIST( list( range( 1, *l )))"),
    one('reversed-sorted', "'reversed': lambda val : val[ ::-1 ]", "'reversed': lambda val : LIST( sorted( val, reverse=True ))"),
    one('resplit-none', "LIST([ x for x in re.split( regex, val ) if x is not None ])", "LIST( re.split( regex, val ))"),
    one('resplit-empty', "if x is not None ])", "if x ])"),
    one('unique-sorted', "lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set())", "lambda l : LIST( sorted( set( l )))"),
    one('strlen-strip', "else str( val )),", "else str( val ).strip()),"),
    one('space-tab', "'SPACE': lambda : STEADY_SPACE", "'SPACE': lambda : STEADY_TAB"),
    one('file-output', "'__FILE__': lambda : '\"%s\"' % yushell.input_file", "'__FILE__': lambda : '\"%s\"' % yushell.output_file"),
    one('div-floor', "'div': operator.truediv", "'div': operator.floordiv"),
    one('and-mul', "'and': operator.and_", "'and': operator.mul"),
    one('or-add', "'or': operator.or_", "'or': operator.add"),
    one('hex-oct', "'hex': hex", "'hex': oct"),
    one('join-empty', "lambda words, sep = ' ' : sep", "lambda words, sep = '' : sep"),
    one('find-index', "s.find( *args )", "s.rfind( *args )"),
    one('rfind-first', "'rfind': lambda s, *args : s.rfind( *args )", "'rfind': lambda s, *args : s.find( *args )"),
    one('atoi-base', "'atoi': lambda s , base=10 : int( s, base )", "'atoi': lambda s , base=0 : int( s )"),
    one('zfill-rjust', "x.zfill( width ) if isinstance( x, str )", "x.rjust( width, '0' ) if isinstance( x, str )"),
    one('strip-left', "'strip': lambda s, chars=None : s.strip( chars )", "'strip': lambda s, chars=None : s.lstrip( chars )"),
    one('split-once', "'split': lambda s, sep=None, maxsplit=-1", "'split': lambda s, sep=None, maxsplit=1"),
    one('replace-once', "'replace': lambda s, old, new, maxreplace=-1", "'replace': lambda s, old, new, maxreplace=1"),
    one('capitalize-title', "lambda s : s.capitalize()", "lambda s : s.title()"),
    one('swapcase-upper', "lambda s : s.swapcase()", "lambda s : s.upper()"),
    one('repeat-more', "lambda seq, i : seq * i", "lambda seq, i : seq * ( i + 1 )"),
    one('q-single', "'q': lambda val : STR( '\"%s\"'", "'q': lambda val : STR( \"'%s'\""),
    one('ljust-right', "s.ljust( width, *args )", "s.rjust( width, *args )"),
    one('math-over-operator', "builtin.update( vars( operator ))\nbuiltin.update( vars( math ))", "builtin.update( vars( math ))\nbuiltin.update({ 'mul': operator.add })"),
]

REFACTORS = [
    ('c26-defs', '', [(G, "builtin.update( vars( operator ))\n", "def _car( l ):\n    return l[ 0:1 ]\n\ndef _index( items, x ):\n    if x not in items:\n        return -1\n    return items.index( x )\n\ndef _inc( v ):\n    return 1 + v\n\nbuiltin.update( vars( operator ))\n"),
                      (G, "'car': lambda l : l[ :1 ]", "'car': _car"), (G, "'index': lambda l, val : l.index( val ) if val in l else -1", "'index': _index"),
                      (G, "'inc': lambda val : ( val + 1 )", "'inc': _inc")]),
    ('c26-expressions', '', [(G, "( x > y ) - ( x < y )", "( 1 if x > y else -1 if x < y else 0 )"), (G, "'cdr': lambda l : l[ 1: ]", "'cdr': lambda seq : seq[ 1:len( seq ) ]"),
                             (G, "'div': operator.truediv", "'div': lambda a, b : a / b"), (G, "'and': operator.and_", "'and': lambda a, b : a & b"),
                             (G, "'hex': hex", "'hex': lambda n : hex( n )"), (G, "LIST( list( range( *l )))", "LIST( range( *l ))"),
                             (G, "LIST([ x for x in re.split( regex, val ) if x is not None ])", "LIST( filter( lambda x : x is not None, re.split( regex, val )))"),
                             (G, "'not': operator.not_", "'not': lambda x : not x")]),
    ('c26-unique-loop', '', [(G, "builtin.update( vars( operator ))\n", "def _unique( l ):\n    result = LIST()\n    for x in l:\n        if x not in result:\n            result.append( x )\n    return result\n\nbuiltin.update( vars( operator ))\n"),
                             (G, "lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set())", "_unique")]),
    ('c26-rindex-loop', '', [(G, "builtin.update( vars( operator ))\n", "def _rindex( l, val ):\n    for i in range( len( l ) - 1, -1, -1 ):\n        if l[ i ] == val:\n            return i\n    return -1\n\nbuiltin.update( vars( operator ))\n"),
                             (G, "lambda l, val : ( len( l ) - 1 ) - l[ ::-1 ].index( val ) if val in l else -1", "_rindex")]),
    ('c26-unique-dict', G, "lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set())", "lambda l : LIST( dict.fromkeys( l ))"),
    ('c26-reversed', G, "'reversed': lambda val : val[ ::-1 ]", "'reversed': lambda val : val[ slice( None, None, -1 ) ]"),
    ('c26-crc', G, "( zlib.crc32( bytes( val, 'utf8' )) & 0xffffffff )", "zlib.crc32( val.encode( 'utf8' )) % ( 1 << 32 )"),
    ('c26-quote-format', '', [(G, "'__FILE__': lambda : '\"%s\"' % yushell.input_file", "'__FILE__': lambda : '\"' + yushell.input_file + '\"'"), (G, "'__OUTPUT_FILE__': lambda : '\"%s\"' % yushell.output_file", "'__OUTPUT_FILE__': lambda : '\"{}\"'.format( yushell.output_file )")]),
    ('c26-strings', '', [(G, "'strip': lambda s, chars=None : s.strip( chars )", "'strip': lambda s, *chars : s.strip( *chars )"), (G, "'lower': lambda s : s.lower()", "'lower': lambda s : ''.join( c.lower() for c in s )"),
                         (G, "'atoi': lambda s , base=10 : int( s, base )", "'atoi': lambda s, *base : int( s, *base )"), (G, "lambda words, sep = ' ' : sep.join( words )", "lambda words, sep=' ' : str.join( sep, words )"),
                         (G, "'repeat': lambda seq, i : seq * i", "'repeat': lambda seq, i : i * seq")]),
    ('c26-more', '', [(G, "builtin.update( vars( operator ))\n", """def _unique( l ):
    seen = set()
    def items():
        for x in l:
            if x not in seen:
                seen.add( x )
                yield x
    return LIST( items())

def _rindex( l, val ):
    found = [ i for i, x in enumerate( l ) if x == val ]
    return found[ -1 ] if found else -1

def _index( l, val ):
    try:
        return l.index( val )
    except ValueError:
        return -1

def _resplit( regex, val ):
    result = LIST()
    for x in re.split( regex, val ):
        if x is None:
            continue
        result.append( x )
    return result

def _cmp( x, y ):
    if x > y:
        return 1
    elif x < y:
        return -1
    return 0

def _quote( val, mark ):
    text = codecs.unicode_escape_encode( replace_steady( str( val )))[ 0 ].decode()
    return STR( mark + text + mark )

def _getslice( seq, *bounds ):
    limits = []
    for x in bounds:
        limits.append( None if x == '' else x )
    if len( limits ) == 1:
        limits.append( None )
    return seq[ slice( *limits )]

builtin.update( vars( operator ))
"""), (G, "lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set())", "_unique"),
      (G, "lambda l, val : ( len( l ) - 1 ) - l[ ::-1 ].index( val ) if val in l else -1", "_rindex"),
      (G, "'index': lambda l, val : l.index( val ) if val in l else -1", "'index': _index"),
      (G, "lambda regex, val : LIST([ x for x in re.split( regex, val ) if x is not None ])", "_resplit"),
      (G, "lambda x, y : ( x > y ) - ( x < y )", "_cmp"),
      (G, "lambda val : STR( '\"%s\"' % codecs.unicode_escape_encode( replace_steady( str( val )))[ 0 ].decode())", "lambda val : _quote( val, '\"' )"),
      (G, "lambda val : STR( \"'%s'\" % codecs.unicode_escape_encode( replace_steady( str( val )))[ 0 ].decode())", "lambda val : _quote( val, \"'\" )"),
      (G, "lambda l, start, end='', *step : l[ slice( *( None if x == '' else x for x in ( start, end ) + step ))]", "_getslice")]),
    ('c26-methodcaller', '', [(G, "        'lower': lambda s : s.lower(),\n        'upper': lambda s : s.upper(),\n", "        'lower': operator.methodcaller( 'lower' ),\n        'upper': str.upper,\n"),
                              (G, "'capitalize': lambda s : s.capitalize()", "'capitalize': str.capitalize"), (G, "'atof': lambda s : float( s )", "'atof': float"),
                              (G, "'atoi': lambda s , base=10 : int( s, base )", "'atoi': int"), (G, "'find': lambda s, *args : s.find( *args )", "'find': str.find")]),
    ('c26-table', '', [(G, "builtin.update({\n    '__FILE__'", "_functions = dict({\n    '__FILE__'"), (G, "    'unq': _unq,\n})\n", "    'unq': _unq,\n})\nfor _name in _functions:\n    builtin[ _name ] = _functions[ _name ]\n")]),
    ('c26-int', '', [(G, "'inc': lambda val : ( val + 1 )", "'inc': lambda val, by=1 : val + by"), (G, "'dec': lambda val : ( val - 1 )", "'dec': lambda val : -( 1 - val )"),
                     (G, "'islist': lambda l : isinstance( l, list )", "'islist': lambda l : issubclass( type( l ), list )"),
                     (G, "'strlen': lambda val : len( _unq( val ) if isinstance( val, STR ) else str( val ))", "'strlen': lambda val : len( _unq( val )) if isinstance( val, STR ) else len( str( val ))"),
                     (G, "'crc32': lambda val : ( zlib.crc32( bytes( val, 'utf8' )) & 0xffffffff )", "'crc32': lambda val : zlib.crc32( bytes( val, 'utf8' ))")]),
]
