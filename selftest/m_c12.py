"""C12: one edit each after which a construct is not recognised, not evaluated or not rendered, and edits that keep it"""
import os
G = 'pp/yugen.py'


def leg(what, call):
    return "#   ---- %s\n        ( sou, leg ) = %s( sou, depth + 1 )\n        if leg is not None:\n            ast.append( leg )\n            continue\n" % (what, call)


def alt(what, call):
    return "#   ---- %s\n    ( sou, leg ) = %s( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n" % (what, call)


IMPORT = "#   ---- import\n        ( sou, leg ) = ps_import( sou, depth + 1 )\n        if leg is not None:\n            if isinstance( leg, TEXT ):\n                ast.extend( leg.ast )\n            else:\n                ast.append( leg )\n            continue\n"
APP, SET, LET, MACRO, COMMENT, QUOTE = (leg(x, 'ps_' + x) for x in ('application', 'set', 'let', 'macro', 'comment', 'quote'))
CHAIN = SET + LET + IMPORT + MACRO + COMMENT + APP + QUOTE
FORMER = alt('value', 'ps_value') + alt('variable', 'ps_variable') + alt('lambda', 'ps_lambda')
LF = alt('code', 'ps_code') + alt('infix', 'ps_infix') + alt('let', 'ps_let') + alt('application', 'ps_application')
VALUE = "    ( sou, leg ) = ps_quote( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n"
NUMBER = "    ( sou, leg ) = ps_number( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n"
NOT_C = "#   ---- ($code\n    if sou[ :l_CODE ] == ps_CODE:\n        return ps_code( sou, depth + 1 )\n\n"
NOT_E = "#   ---- ($emit\n    if sou[ :l_EMIT ] == ps_EMIT:\n        return ps_emit( sou, depth + 1 )\n\n"
NOT_Q = "#   ---- ($quote\n    if sou[ :l_QUOTE ] == ps_QUOTE:\n        return ( sou, None )\n\n"
TERM_LIST = "        for i in node:\n            if not _is_term( i ):\n                return False\n\n        return True\n\n#   ---- LAZY\n    if isinstance( node, LAZY ):\n        return True\n"
PL = "#   ---- LAZY\n    if isinstance( node, LAZY ):\n        return _plain( node.ast )\n\n"
PB = "#   ---- LAZY\n    if isinstance( node, LAZY ):\n        return _plain_with_browse( node.ast )\n\n"
PBT = "#   ---- TRIM\n    if isinstance( node, TRIM ):\n        return node.trim_with_browse( _plain_with_browse( node.ast ))\n\n"

MUTANTS = [
    ('application before set', 'C12', G, CHAIN, APP + SET + LET + IMPORT + MACRO + COMMENT + QUOTE),
    ('application before macro', 'C12', G, CHAIN, SET + LET + IMPORT + APP + MACRO + COMMENT + QUOTE),
    ('application before comment', 'C12', G, CHAIN, SET + LET + IMPORT + MACRO + APP + COMMENT + QUOTE),
    ('text without quote', 'C12', G, CHAIN, SET + LET + IMPORT + MACRO + COMMENT + APP),
    ('text without let', 'C12', G, CHAIN, SET + IMPORT + MACRO + COMMENT + APP + QUOTE),
    ('text without macro', 'C12', G, CHAIN, SET + LET + IMPORT + COMMENT + APP + QUOTE),
    ('text without comment', 'C12', G, CHAIN, SET + LET + IMPORT + MACRO + APP + QUOTE),
    ('former variable first', 'C12', G, FORMER, alt('variable', 'ps_variable') + alt('value', 'ps_value') + alt('lambda', 'ps_lambda')),
    ('former without lambda', 'C12', G, FORMER, alt('value', 'ps_value') + alt('variable', 'ps_variable')),
    ('former without value', 'C12', G, FORMER, alt('variable', 'ps_variable') + alt('lambda', 'ps_lambda')),
    ('former without variable', 'C12', G, FORMER, alt('value', 'ps_value') + alt('lambda', 'ps_lambda')),
    ('l-form application before let', 'C12', G, LF, alt('code', 'ps_code') + alt('infix', 'ps_infix') + alt('application', 'ps_application') + alt('let', 'ps_let')),
    ('l-form without let', 'C12', G, LF, alt('code', 'ps_code') + alt('infix', 'ps_infix') + alt('application', 'ps_application')),
    ('l-form without infix', 'C12', G, LF, alt('code', 'ps_code') + alt('let', 'ps_let') + alt('application', 'ps_application')),
    ('l-form without code', 'C12', G, LF, alt('infix', 'ps_infix') + alt('let', 'ps_let') + alt('application', 'ps_application')),
    ('l-form list first', 'C12', G, LF, alt('list', 'ps_list') + LF),
    ('value without number', 'C12', G, NUMBER, ""),
    ('value without quote', 'C12', G, VALUE, ""),
    ('application takes quote', 'C12', G, NOT_Q, ""),
    ('application refuses emit', 'C12', G, NOT_E, "#   ---- ($emit\n    if sou[ :l_EMIT ] == ps_EMIT:\n        return ( sou, None )\n\n"),
    ('application takes code', 'C12', G, NOT_C, ""),
    ('remarks of python for c', 'C12', G, "            ( sou, leg ) = ps_remark_c( sou, depth + 1 )", "            ( sou, leg ) = ps_remark_python( sou, depth + 1 )"),
    ('string before atom', 'C12', G, "                elif isinstance( node.fn, LAZY ):\n", "                elif isinstance( node.fn, str ):\n                    node = str( node.fn )\n                    continue\n\n#   ----     -- LAZY\n                elif isinstance( node.fn, LAZY ):\n"),
    ('list before T', 'C12', G, "            if isinstance( node, TEXT ):\n", "            if isinstance( node, list ) and not isinstance( node, TEXT ) and len( node ) < 0:\n                return node\n            if isinstance( node, ( TEXT, list )):\n"),
    ('emit not evaluated', 'C12', G, "            elif isinstance( node, EMIT ):\n", "            elif isinstance( node, EMIT ) and isinstance( node, MACRO ):\n"),
    ('trim not evaluated', 'C12', G, "            elif isinstance( node, EMBED ) or isinstance( node, TRIM ):\n", "            elif isinstance( node, EMBED ):\n"),
    ('embed not evaluated', 'C12', G, "            elif isinstance( node, EMBED ) or isinstance( node, TRIM ):\n", "            elif isinstance( node, TRIM ):\n"),
    ('let not evaluated', 'C12', G, "            elif isinstance( node, SET ) or isinstance( node, LET ):\n", "            elif isinstance( node, SET ):\n"),
    ('term any', 'C12', G, TERM_LIST, TERM_LIST.replace("            if not _is_term( i ):\n                return False\n\n        return True\n", "            if _is_term( i ):\n                return True\n\n        return not node\n", 1)),
    ('term first only', 'C12', G, TERM_LIST, TERM_LIST.replace("        for i in node:\n", "        for i in node[ :1 ]:\n", 1)),
    ('term without lazy', 'C12', G, TERM_LIST, TERM_LIST.replace("        return True\n\n#   ---- LAZY\n    if isinstance( node, LAZY ):\n        return True\n", "        return True\n")),
    ('term trim', 'C12', G, "    if isinstance( node, TRIM ):\n        return _is_term( node.ast )\n", "    if isinstance( node, TRIM ):\n        return True\n"),
    ('term without float', 'C12', G, "#   ---- str based | int | float\n    if isinstance( node, str ) or isinstance( node, int ) or isinstance( node, float ):\n        return True\n", "#   ---- str based | int\n    if isinstance( node, str ) or isinstance( node, int ):\n        return True\n"),
    ('term closure', 'C12', G, "        return True\n\n    return False\n\n#   ---------------------------------------------------------------------------\ndef _detect_deadlock", "        return True\n\n    return isinstance( node, L_CLOSURE )\n\n#   ---------------------------------------------------------------------------\ndef _detect_deadlock"),
    ('plain without lazy', 'C12', G, PL, ""),
    ('browse without lazy', 'C12', G, PB, ""),
    ('browse without trim', 'C12', G, PBT, ""),
    ('browse list shortened', 'C12', G, "list( map( _plain_with_browse, node ))", "list( map( _plain_with_browse, node[ :-1 ]))"),
    ('readable without list', 'C12', G, "#   ---- list\n    if isinstance( node, list ):\n        return ''.join( map( make_ast_readable, node ))\n\n", ""),
    ('readable numbers as nodes', 'C12', G, "    if isinstance( node, str ) or isinstance( node, int ) or isinstance( node, float ):\n        return str( node )\n\n    return _ast_pretty", "    if isinstance( node, str ):\n        return str( node )\n\n    return _ast_pretty"),
    ('plain as is', 'C12', G, "    if isinstance( node, PLAIN ):\n        return node.get_trimmed()\n\n#   ---- str based | int | float\n    return str( node )", "    if isinstance( node, PLAIN ):\n        return repr( node )\n\n#   ---- str based | int | float\n    return str( node )"),
]
REFACTORS = [
    ('c12 text in a loop', '', [(G, SET + LET, "        for rule in ( ps_set, ps_let ):\n            ( sou, leg ) = rule( sou, depth + 1 )\n            if leg is not None:\n                break\n\n        if leg is not None:\n            ast.append( leg )\n            continue\n")]),
    ('c12 former in a loop', '', [(G, FORMER, "    for rule in ( ps_value, ps_variable, ps_lambda ):\n        ( sou, leg ) = rule( sou, depth + 1 )\n        if leg is not None:\n            return ( sou, leg )\n\n")]),
    ('c12 let before set', '', [(G, CHAIN, LET + SET + IMPORT + MACRO + COMMENT + APP + QUOTE)]),
    ('c12 quote first', '', [(G, CHAIN, QUOTE + SET + LET + IMPORT + MACRO + COMMENT + APP)]),
    ('c12 quick look', '', [(G, SET, "        if sou[ :2 ] == '($':\n            ( sou, leg ) = ps_set( sou, depth + 1 )\n            if leg is not None:\n                ast.append( leg )\n                continue\n")]),
    ('c12 lambda before variable', '', [(G, FORMER, alt('value', 'ps_value') + alt('lambda', 'ps_lambda') + alt('variable', 'ps_variable'))]),
    ('c12 number first', '', [(G, VALUE + NUMBER, NUMBER + VALUE)]),
    ('c12 helper of l-form', '', [(G, "#   ---- application\n    ( sou, leg ) = ps_application( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n#   ---- list\n    ( sou, leg ) = ps_list( sou, depth + 1 )\n\n    return ( sou, leg )\n", "    return _round( sou, depth )\n\n#   ---------------------------------------------------------------------------\ndef _round( sou, depth ):\n    ( sou, leg ) = ps_application( sou, depth + 1 )\n    if leg is None:\n        ( sou, leg ) = ps_list( sou, depth + 1 )\n\n    return ( sou, leg )\n")]),
    ('c12 startswith', '', [(G, NOT_Q + NOT_C + NOT_E, "    if sou.startswith( ps_QUOTE ):\n        return ( sou, None )\n\n    for mark, rule in (( ps_CODE, ps_code ), ( ps_EMIT, ps_emit )):\n        if sou.startswith( mark ):\n            return rule( sou, depth + 1 )\n\n")]),
    ('c12 tuple of classes', '', [(G, "            elif isinstance( node, EMBED ) or isinstance( node, TRIM ):\n", "            elif isinstance( node, ( EMBED, TRIM )):\n")]),
    ('c12 term all', '', [(G, "        for i in node:\n            if not _is_term( i ):\n                return False\n\n        return True\n\n#   ---- LAZY\n    if isinstance( node, LAZY ):\n        return True\n", "        return all( _is_term( i ) for i in node )\n\n#   ---- LAZY\n    if isinstance( node, LAZY ):\n        return True\n")]),
    ('c12 term reordered', '', [(G, "#   ---- str based | int | float\n    if isinstance( node, str ) or isinstance( node, int ) or isinstance( node, float ):\n        return True\n\n    return False\n\n#   ---------------------------------------------------------------------------\ndef _detect", "    return isinstance( node, ( str, int, float ))\n\n#   ---------------------------------------------------------------------------\ndef _detect")]),
    ('c12 plain in a loop', '', [(G, "        return ''.join( map( _plain, node ))\n", "        text = ''\n        for i in node:\n            text += _plain( i )\n\n        return text\n")]),
    ('c12 plain comprehension', '', [(G, "        return ''.join( map( _plain, node ))\n", "        return ''.join([ _plain( i ) for i in node ])\n")]),
    ('c12 browse in a loop', '', [(G, "        return reduce( RESULT.add_text, list( map( _plain_with_browse, node ))) if node else RESULT( '' )\n", "        text = RESULT( '' )\n        for i in node:\n            text = text.add_text( _plain_with_browse( i ))\n\n        return text\n")]),
    ('c12 readable strings', '', [(G, "    if isinstance( node, str ) or isinstance( node, int ) or isinstance( node, float ):\n        return str( node )\n\n    return _ast_pretty", "    if isinstance( node, ( float, int, str )):\n        return '%s' % node\n\n    return _ast_pretty")]),
]
