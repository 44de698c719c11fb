"""C18: one edit each, and edits that keep the browse data"""
G = 'pp/yugen.py'
Y = 'pp/yup.py'
P = 'sublime_text/Data/Packages/yupp/yupp.py'
ADD = """            browse = list( self.browse )
            offset = list( self.offset )
            l = len( self )
            base = offset[ -1 ][ 1 ] if offset else 0
            for p, val in other.offset:
                offset.append(( p + l, val + base ))

            l += base
            for p, sou, sou_p in other.browse:
                browse.append(( p + l, sou, sou_p ))

            return RESULT( str( self ) + str( other ), browse, offset )
"""
REDUCE = "            return reduce( RESULT.add_text, list( map( _plain_with_browse, node ))) if node else RESULT( '' )\n"[4:]
TB = "        return RESULT( result, plain.browse, offset )\n"
EB = """        if text.offset:
            offset = _merge_offset( text.offset, offset )

        return RESULT( result, text.browse, offset )
"""
ST = """    result = text.replace( STEADY_TAB, '\\t' ).replace( STEADY_SPACE, ' ' )
    if isinstance( text, RESULT ):
        return RESULT( result, text.browse, text.offset )

    return result
"""
LOC = """        if fn not in cls.files:
            cls.files[ fn ] = len( cls.files )
        return [( 0, cls.files[ fn ], pos )]
"""
JS = """                    f.write( str( json.dumps({
                      'files': sorted( RESULT.files, key=RESULT.files.get )
                    , 'browse': plain.browse
                    , 'offset': plain.offset
                    })))
"""
LZ = """#   ---- LAZY
    if isinstance( node, LAZY ):
        return _plain_with_browse( node.ast )

"""
MUTANTS = [
    ('steady drops offsets', 'C18', G, ST, ST.replace(', text.offset )', ')')),
    ('steady drops browse', 'C18', G, ST, ST.replace('text.browse, text.offset', '[], text.offset')),
    ('steady plain', 'C18', G, ST, ST.replace('return RESULT( result, text.browse, text.offset )', 'return result')),
    ('steady swaps', 'C18', G, ST, ST.replace('text.browse, text.offset', 'text.offset, text.browse')),
    ('reduce drops offsets', 'C18', G, EB, EB.split('\n\n')[1] + ''),
    ('reduce returns old offsets', 'C18', G, EB, EB.replace('RESULT( result, text.browse, offset )', 'RESULT( result, offset = offset )')),
    ('reduce returns text', 'C18', G, EB, EB.replace('RESULT( result, text.browse, offset )', 'result')),
    ('trim drops browse', 'C18', G, TB, "        return RESULT( result, [], offset )\n"),
    ('trim drops offset', 'C18', G, TB, "        return RESULT( result, plain.browse )\n"),
    ('trim merges nothing', 'C18', G, "        if plain.offset:\n            offset = _merge_offset( plain.offset, offset )\n\n", ""),
    ('trim merges if several', 'C18', G, "        if plain.offset:\n", "        if len( plain.offset ) > 1:\n"),
    ('join in place', 'C18', G, ADD, ADD.replace('list( self.browse )', 'self.browse')),
    ('join offsets in place', 'C18', G, ADD, ADD.replace('list( self.offset )', 'self.offset')),
    ('join no base', 'C18', G, ADD, ADD.replace('            l += base\n', '')),
    ('join base first', 'C18', G, ADD, ADD.replace('offset[ -1 ][ 1 ]', 'offset[ 0 ][ 1 ]')),
    ('join base pos', 'C18', G, ADD, ADD.replace('offset[ -1 ][ 1 ]', 'offset[ -1 ][ 0 ]')),
    ('join val', 'C18', G, ADD, ADD.replace('val + base', 'val')),
    ('join len other', 'C18', G, ADD, ADD.replace('len( self )', 'len( other )')),
    ('join len late', 'C18', G, ADD, ADD.replace("""            l = len( self )
            base = offset[ -1 ][ 1 ] if offset else 0
""", """            base = offset[ -1 ][ 1 ] if offset else 0
            l = len( self ) + base
""").replace('            l += base\n', '')),
    ('join base late', 'C18', G, ADD, ADD.replace("""            base = offset[ -1 ][ 1 ] if offset else 0
""", '').replace('val + base', 'val').replace('            l += base\n', "            l += offset[ -1 ][ 1 ] if offset else 0\n")),
    ('join swaps', 'C18', G, ADD, ADD.replace('sou, sou_p ))', 'sou_p, sou ))')),
    ('join source moved', 'C18', G, ADD, ADD.replace('( p + l, sou, sou_p )', '( p + l, sou, sou_p + l )')),
    ('join text only', 'C18', G, ADD, ADD.replace('str( other ), browse, offset', 'str( other ), browse')),
    ('join skips blank', 'C18', G, "    def add_text( self, other ):\n        if other:\n", "    def add_text( self, other ):\n        if not self:\n            return other\n        if other and other.browse:\n"),
    ('join order', 'C18', G, ADD, ADD.replace('str( self ) + str( other )', 'str( other ) + str( self )')),
    ('index from one', 'C18', G, LOC, LOC.replace('len( cls.files )', 'len( cls.files ) + 1')),
    ('index always new', 'C18', G, LOC, LOC.replace("""        if fn not in cls.files:
            cls.files""", """        if True:
            cls.files""")),
    ('index last', 'C18', G, LOC, LOC.replace('cls.files[ fn ], pos', 'len( cls.files ) - 1, pos')),
    ('index parts', 'C18', G, LOC, LOC.replace('( 0, cls.files[ fn ], pos )', '( 0, pos, cls.files[ fn ])')),
    ('index pos', 'C18', G, LOC, LOC.replace('( 0, cls.files[ fn ], pos )', '( pos, cls.files[ fn ], 0 )')),
    ('json key', 'C18', Y, JS, JS.replace("'browse':", "'refs':")),
    ('json no offset', 'C18', Y, JS, JS.replace("                    , 'offset': plain.offset\n", '')),
    ('json swap', 'C18', Y, JS, JS.replace('plain.offset', 'plain.browse')),
    ('json order', 'C18', Y, JS, JS.replace('sorted( RESULT.files, key=RESULT.files.get )', 'sorted( RESULT.files )')),
    ('json reverse', 'C18', Y, JS, JS.replace('key=RESULT.files.get )', 'key=RESULT.files.get, reverse = True )')),
    ('json name', 'C18', Y, "open( fn_o + '.json', mode", "open( fn + '.json', mode"),
    ('json ext', 'C18', Y, "open( fn_o + '.json', mode", "open( os.path.splitext( fn_o )[ 0 ] + '.json', mode"),
    ('plug-in key', 'C18', P, "[ 'browse' ]", "[ 'references' ]"),
    ('render lazy', 'C18', G, LZ, ''),
    ('render lazy off', 'C18', G, """#   ---- LAZY
    if isinstance( node, LAZY ):
        return _plain( node.ast )

""", ''),
    ('render none', 'C18', G, "    if node is None:\n        return RESULT( '' )\n", "    if node is None:\n        return RESULT( str( node ))\n"),
    ('render first', 'C18', G, REDUCE, "        return _plain_with_browse( node[ 0 ]) if len( node ) == 1 else RESULT( ''.join( str( _plain_with_browse( x )) for x in node[ 1: ]))\n"),
    ('render empty', 'C18', G, " if node else RESULT( '' )", " if len( node ) > 1 else RESULT( '' )"),
    ('render raw', 'C18', G, "#   ---- PLAIN\n    if isinstance( node, PLAIN ):\n        node = node.get_trimmed_with_browse()\n\n", ''),
    ('pp str', 'C18', Y, "replace_steady( reduce_emptiness( plain ))", "str( replace_steady( reduce_emptiness( plain )))"),
    ('pp strip', 'C18', Y, "replace_steady( reduce_emptiness( plain ))", "replace_steady( reduce_emptiness( plain )).lstrip( '\\ufeff' )"),
    ('pp format', 'C18', Y, "replace_steady( reduce_emptiness( plain ))", "replace_steady( reduce_emptiness( plain )).rstrip() + '\\n'"),
]
REFACTORS = [
    ('r18 helper join', '', [(G, ADD, """            base = RESULT._base( self )
            offset = self.offset + [( p + len( self ), val + base ) for p, val in other.offset ]
            browse = self.browse + [( p + len( self ) + base, sou, sou_p ) for p, sou, sou_p in other.browse ]

            return RESULT( str( self ) + str( other ), browse, offset )
"""), (G, "    def add_text( self, other ):\n", "    def _base( self ):\n        return self.offset[ -1 ][ 1 ] if self.offset else 0\n\n    def add_text( self, other ):\n")]),
    ('r18 kwargs', '', [(G, ADD, ADD.replace('browse, offset )\n', 'offset = offset, browse = browse )\n')), (G, TB, "        return RESULT( result, offset = offset, browse = plain.browse )\n")]),
    ('r18 early', '', [(G, "        if other:\n" + ADD + "\n        return self\n", "        if not other:\n            return self\n\n" + ADD.replace('\n    ', '\n')[4:])]),
    ('r18 extend', '', [(G, ADD, ADD.replace("""            for p, val in other.offset:
                offset.append(( p + l, val + base ))
""", """            offset.extend(( p + l, val + base ) for p, val in other.offset )
""").replace("list( self.browse )", "self.browse[ : ]"))]),
    ('r18 unpack', '', [(G, ADD, ADD.replace("""            for p, sou, sou_p in other.browse:
                browse.append(( p + l, sou, sou_p ))
""", """            for ref in other.browse:
                browse.append(( ref[ 0 ] + l, ref[ 1 ], ref[ 2 ]))
"""))]),
    ('r18 total', '', [(G, ADD, ADD.replace("            l += base\n", "            shift = base + l\n").replace('( p + l, sou', '( p + shift, sou'))]),
    ('r18 steady', '', [(G, ST, ST.replace("    if isinstance( text, RESULT ):\n        return RESULT( result, text.browse, text.offset )\n\n    return result\n", "    if not isinstance( text, RESULT ):\n        return result\n\n    browse, offset = text.browse, text.offset\n    return RESULT( result, browse, offset )\n"))]),
    ('r18 steady loop', '', [(G, ST, ST.replace("    result = text.replace( STEADY_TAB, '\\t' ).replace( STEADY_SPACE, ' ' )\n", "    result = text\n    for marker, char in (( STEADY_TAB, '\\t' ), ( STEADY_SPACE, ' ' )):\n        result = result.replace( marker, char )\n"))]),
    ('r18 merge else', '', [(G, EB, "        return RESULT( result, text.browse, _merge_offset( text.offset, offset ) if text.offset else offset )\n")]),
    ('r18 loc', '', [(G, LOC, "        index = cls.files.setdefault( fn, len( cls.files ))\n        return [( 0, index, pos )]\n")]),
    ('r18 loc get', '', [(G, LOC, "        index = cls.files.get( fn )\n        if index is None:\n            index = len( cls.files )\n            cls.files[ fn ] = index\n        ref = ( 0, index, pos )\n        return [ ref ]\n")]),
    ('r18 json', '', [(Y, JS, """                    json.dump({ 'offset': plain.offset, 'browse': plain.browse, 'files': sorted( RESULT.files, key = lambda x : RESULT.files[ x ]) }, f )
""")]),
    ('r18 json helper', '', [(Y, JS, "                    f.write( _browse_json( plain ))\n"), (Y, "def _pp_stream( _stream, fn, fn_o ):\n", """def _browse_json( plain ):
    data = {
      'files': [ name for name, _ in sorted( RESULT.files.items(), key = lambda x : x[ 1 ]) ]
    , 'browse': plain.browse
    , 'offset': plain.offset
    }
    return str( json.dumps( data ))

#   ---------------------------------------------------------------------------
def _pp_stream( _stream, fn, fn_o ):
""")]),
    ('r18 json writer', '', [(Y, "                with open( fn_o + '.json', mode='w', encoding='utf8' ) as f:\n" + JS, "                _save_browse( fn_o, plain )\n"), (Y, "def _pp_stream( _stream, fn, fn_o ):\n", """def _save_browse( fn_o, plain ):
    with open( fn_o + '.json', mode='w', encoding='utf8' ) as f:
""" + JS.replace('\n            ', '\n')[12:] + """
#   ---------------------------------------------------------------------------
def _pp_stream( _stream, fn, fn_o ):
""")]),
    ('r18 json fn', '', [(Y, "                with open( fn_o + '.json', mode", "                fn_browse = fn_o + '.json'\n                with open( fn_browse, mode")]),
    ('r18 json format', '', [(Y, "open( fn_o + '.json', mode", "open( '%s.json' % fn_o, mode")]),
    ('r18 json fstring', '', [(Y, "open( fn_o + '.json', mode", "open( f'{fn_o}.json', mode")]),
    ('r18 render list', '', [(G, REDUCE, """        result = RESULT( '' )
        for x in node:
            result = result.add_text( _plain_with_browse( x ))
        return result
""")]),
    ('r18 render plain list', '', [(G, "        return ''.join( map( _plain, node ))\n", "        return ''.join([ _plain( x ) for x in node ])\n")]),
    ('r18 render order', '', [(G, LZ, ''), (G, "#   ---- TRIM\n    if isinstance( node, TRIM ):\n        return node.trim_with_browse( _plain_with_browse( node.ast ))\n\n", LZ + "#   ---- TRIM\n    if isinstance( node, TRIM ):\n        plain = _plain_with_browse( node.ast )\n        return node.trim_with_browse( plain )\n\n")]),
    ('r18 render both', '', [(G, LZ, ''), (G, "#   ---- PLAIN\n    if isinstance( node, PLAIN ):\n        node = node.get", "#   ---- LAZY\n    while isinstance( node, LAZY ):\n        return _plain_with_browse( node.ast )\n\n#   ---- PLAIN\n    if isinstance( node, PLAIN ):\n        node = node.get")]),
    ('r18 pp steps', '', [(Y, "            plain = replace_steady( reduce_emptiness( plain ))\n", "            plain = reduce_emptiness( plain )\n            plain = replace_steady( plain )\n")]),
    ('r18 pp helper', '', [(Y, "            plain = replace_steady( reduce_emptiness( plain ))\n", "            plain = _final( plain )\n"), (Y, "def _pp():  ", "def _final( plain ):\n    return replace_steady( reduce_emptiness( plain ))\n\n#   ---------------------------------------------------------------------------\ndef _pp():  ")]),
    ('r18 trim name', '', [(G, TB, "        trimmed = RESULT( result, plain.browse, offset )\n        return trimmed\n")]),
]
