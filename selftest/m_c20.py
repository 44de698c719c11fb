"""C20: one edit each, written from the text of the property, and edits that keep it"""
P = 'pp/yup.py'
G = 'pp/yugen.py'
REP = "    result = text.replace( STEADY_TAB, '\\t' ).replace( STEADY_SPACE, ' ' )\n"
CALL = "            plain = replace_steady( reduce_emptiness( plain ))\n"
MUTANTS = [
 ('letters', 'C20', G, "STEADY_SPACE = '\\uFDD0'", "STEADY_SPACE = '\\xFE'"),
 ('nbsp', 'C20', G, "STEADY_SPACE = '\\uFDD0'", "STEADY_SPACE = '\\xA0'"),
 ('file separator', 'C20', G, "STEADY_TAB = '\\uFDD1'", "STEADY_TAB = '\\x1c'"),
 ('same marker', 'C20', G, "STEADY_TAB = '\\uFDD1'", "STEADY_TAB = '\\uFDD0'"),
 ('builtin plain space', 'C20', G, "    'SPACE': lambda : STEADY_SPACE,", "    'SPACE': lambda : ' ',"),
 ('builtin swapped', 'C20', G, "    'SPACE': lambda : STEADY_SPACE,", "    'SPACE': lambda : STEADY_TAB,"),
 ('swapped', 'C20', G, REP, "    result = text.replace( STEADY_TAB, ' ' ).replace( STEADY_SPACE, '\\t' )\n"),
 ('once', 'C20', G, REP, "    result = text.replace( STEADY_TAB, '\\t', 1 ).replace( STEADY_SPACE, ' ' )\n"),
 ('spaces for tab', 'C20', G, REP, "    result = text.replace( STEADY_TAB, '\\t' ).replace( STEADY_SPACE, ' ' ).expandtabs()\n"),
 ('strips', 'C20', G, REP, "    result = text.replace( STEADY_TAB, '\\t' ).replace( STEADY_SPACE, ' ' ).rstrip( ' ' )\n"),
 ('tab only', 'C20', G, REP, "    result = text.replace( STEADY_TAB, '\\t' )\n"),
 ('browse lost', 'C20', G, "        return RESULT( result, text.browse, text.offset )\n\n    return result", "        return text\n\n    return result"),
 ('order swapped', 'C20', P, CALL, "            plain = reduce_emptiness( replace_steady( plain ))\n"),
 ('only when reducing', 'C20', P, CALL, "            if config.pp_reduce_emptiness:\n                plain = replace_steady( reduce_emptiness( plain ))\n"),
 ('only without browse', 'C20', P, CALL, "            plain = reduce_emptiness( plain )\n            if not isinstance( plain, RESULT ):\n                plain = replace_steady( plain )\n"),
 ('dropped', 'C20', P, CALL, "            replace_steady( reduce_emptiness( plain ))\n"),
 ('if marker', 'C20', P, CALL, "            plain = reduce_emptiness( plain )\n            if config.passage == 0:\n                plain = replace_steady( plain )\n"),
 ('strip marker', 'C20', G, "x.rstrip() for x in", "x.rstrip( ' \\t' + STEADY_SPACE ) for x in"),
 ('blank line of markers', 'C20', G, "not ln.strip()\n", "not ln.strip( ' \\t\\r\\uFDD0\\uFDD1' )\n"),
 ('marker is space', 'C20', G, "while _ord( sou, i ) in ps_SPACE:", "while _ord( sou, i ) in ps_SPACE or sou[ i:i + 1 ] in ( STEADY_SPACE, STEADY_TAB ):"),
 ('regex', 'C20', G, "x.rstrip() for x in", "re.sub( r'[^!-~\\w]+$', '', x ) for x in"),
 ('q raw', 'C20', G, "'\"%s\"' % codecs.unicode_escape_encode( replace_steady( str( val )))", "'\"%s\"' % codecs.unicode_escape_encode( str( val ))"),
 ('print raw', 'C20', G, "sys.stdout.write( replace_steady( s ))", "sys.stdout.write( s )"),
 ('repr raw', 'C20', G, "'repr': _repr,", "'repr': repr,"),
]
REFACTORS = [
 ('steady translate', '', [(G, REP, "    result = text.translate({ ord( STEADY_TAB ): '\\t', ord( STEADY_SPACE ): ' ' })\n")]),
 ('steady loop', '', [(G, REP, "    result = text\n    for mark, char in (( STEADY_TAB, '\\t' ), ( STEADY_SPACE, ' ' )):\n        result = result.replace( mark, char )\n")]),
 ('steady two steps', '', [(P, CALL, "            reduced = reduce_emptiness( plain )\n            plain = replace_steady( reduced )\n")]),
 ('steady helper', '', [(P, CALL, "            plain = _finish( plain )\n"), (P, "def _pp():", "def _finish( text ):\n    text = reduce_emptiness( text )\n    return replace_steady( text )\n\n#   ---\ndef _pp():")]),
 ('steady other characters', '', [(G, "STEADY_SPACE = '\\uFDD0'", "STEADY_SPACE = '\\uFDEF'")]),
 ('steady private use', '', [(G, "STEADY_SPACE = '\\uFDD0'", "STEADY_SPACE = chr( 0xF8F0 )")]),
 ('steady joined', '', [(G, REP, "    result = STEADY_TAB.join( text.split( STEADY_TAB )).replace( STEADY_TAB, '\\t' ).replace( STEADY_SPACE, ' ' )\n")]),
 ('steady early return', '', [(G, "    if isinstance( text, RESULT ):\n        return RESULT( result, text.browse, text.offset )\n\n    return result", "    return RESULT( result, text.browse, text.offset ) if isinstance( text, RESULT ) else result")]),
 ('steady constants builtin', '', [(G, "    'SPACE': lambda : STEADY_SPACE,", "    'SPACE': lambda *_ : STEADY_SPACE,")]),
 ('steady noop', '', [(P, CALL, "            pass\n" + CALL)]),
 ('steady filter', '', [(G, "    def _filter( ln ):\n        _empty = _filter.empty\n        _filter.empty = not ln.strip()\n", "    def _filter( ln ):\n        _empty = _filter.empty\n        _filter.empty = ln.strip() == ''\n")]),
]
