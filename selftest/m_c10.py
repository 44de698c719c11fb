"""C10: one edit each after which the parser may stand still, and edits that keep the progress"""
G = 'pp/yugen.py'
MUTANTS = [
    ('list without check', 'C10', G, "            if leg is None:\n                raise SyntaxError( '%s: form expected' % ( callee()) + sou.loc())\n\n            lst.append(", "            lst.append("),
    ('list skips a missing form', 'C10', G, "            if leg is None:\n                raise SyntaxError( '%s: form expected' % ( callee()) + sou.loc())\n\n            lst.append(", "            if leg is None:\n                continue\n\n            lst.append("),
    ('binding skips a missing name', 'C10', G, "            if leg is None:\n                raise SyntaxError( '%s: name expected' % ( callee()) + sou.loc())\n\n            lval.append( leg )", "            if leg is not None:\n                lval.append( leg )"),
    ('macro skips a missing name', 'C10', G, "        if leg is None:\n            raise SyntaxError( '%s: name expected' % ( callee()) + sou.loc())\n\n        pars.append( leg )", "        if leg is not None:\n            pars.append( leg )"),
    ('application goes on without form', 'C10', G, "                if embed:\n                    raise SyntaxError( '%s: unexpected \"*\"' % ( callee()) + sou.loc())\n\n                break\n", "                if embed:\n                    raise SyntaxError( '%s: unexpected \"*\"' % ( callee()) + sou.loc())\n\n                if sou[ :1 ] == ')':\n                    break\n"),
    ('variable region stands', 'C10', G, "            ( sou, leg ) = ps_atom( sou[ 2: ], depth + 1 )\n            if leg is None:\n                raise SyntaxError( '%s: atom", "            ( look, leg ) = ps_atom( sou[ 2: ], depth + 1 )\n            if leg is None:\n                raise SyntaxError( '%s: atom"),
    ('former tries l_form first via form', 'C10', G, "#   ---- value\n    ( sou, leg ) = ps_value( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n#   ---- variable", "#   ---- value\n    ( sou, leg ) = ps_value( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n    if sou[ :1 ] == '{':\n        return ps_form( sou, depth + 1 )\n\n#   ---- variable"),
    ('lambda calls itself', 'C10', G, "#   ---- l-form\n        ( sou, leg ) = ps_l_form( sou, depth + 1 )\n        if leg is None:\n            raise SyntaxError( '%s: l-form expected' % ( callee()) + sou.loc())\n\n        return ( sou, LAMBDA( bound, leg ))\n\n    return ( sou, None )", "#   ---- l-form\n        ( sou, leg ) = ps_l_form( sou, depth + 1 )\n        if leg is None:\n            raise SyntaxError( '%s: l-form expected' % ( callee()) + sou.loc())\n\n        return ( sou, LAMBDA( bound, leg ))\n\n    return ps_former( sou, depth + 1 )"),
    ('atom may be empty', 'C10', G, "    return ( sou[ i: ], ATOM( sou[ :i ]) if i else None )", "    return ( sou[ i: ], ATOM( sou[ :i ]))"),
    ('atom empty before a bracket', 'C10', G, "    return ( sou[ i: ], ATOM( sou[ :i ]) if i else None )", "    if sou[ :1 ] == '.':\n        return ( sou, ATOM( '.' ))\n    return ( sou[ i: ], ATOM( sou[ :i ]) if i else None )"),
    ('list as empty gap', 'C10', G, "        return( sou[ 1: ], LIST( lst ))\n\n    return ( sou, None )", "        return( sou[ 1: ], LIST( lst ))\n\n    return ( sou, LIST([]))"),
    ('emit without text', 'C10', G, "#   ---- ($emit\n    if sou[ :l_EMIT ] != ps_EMIT:\n        return ( sou, None )\n", "#   ---- ($emit\n    if sou[ :l_EMIT ] != ps_EMIT:\n        return ( sou, EMIT( VAR([], ATOM( '' )), None ))\n"),
    ('plain stands', 'C10', G, "            indent = False\n        i += 1\n", "            indent = False\n            i += 1\n"),
    ('plain goes on at the end', 'C10', G, "        if symbol is None:\n            raise EOFError( '%s: unexpected EOF:' % ( callee()) + sou.loc())\n\n        if symbol not in ps_ANY:\n            raise SyntaxError", "        if symbol is not None and symbol not in ps_ANY:\n            raise SyntaxError"),
    ('python string at the end', 'C10', G, "        if not ln:\n            raise EOFError( '%s: unexpected EOF into multi-line string:' % ( callee()) + sou.loc())\n\n", ""),
    ('c remark stands', 'C10', G, "                return ( sou[( i + 2 ): ], REMARK( sou[ :( i + 2 )]))\n\n            i += 1\n", "                return ( sou[( i + 2 ): ], REMARK( sou[ :( i + 2 )]))\n\n            i += 1 if sou[ i ] != '*' else 0\n"),
    ('c remark without bound', 'C10', G, "        i = 2\n        l = len( sou ) - 1\n        while i < l:\n", "        i = 2\n        while True:\n"),
    ('space at the end', 'C10', G, "    while _ord( sou, i ) in ps_SPACE:\n        i += 1\n", "    while ( _ord( sou, i ) or 32 ) in ps_SPACE:\n        i += 1\n"),
    ('quote takes no plain', 'C10', G, "            ( sou, leg, _, depth_pth ) = next( plain )\n#   ---- ) & [eq depth_pth 0]\n            if ( sou[ :1 ] == ')' ) and ( depth_pth == 0 ):\n                return ( sou[ 1: ], STR( leg ))", "            if sou[ :1 ] != ')' or sou.pos == pos:\n                ( sou, leg, _, depth_pth ) = next( plain )\n#   ---- ) & [eq depth_pth 0]\n            if ( sou[ :1 ] == ')' ) and ( depth_pth == 0 ):\n                return ( sou[ 1: ], STR( leg ))"),
    ('text turns without plain', 'C10', G, "        if leg is not None:\n            ast.append( leg )\n            continue\n", "        if leg is not None:\n            ast.append( leg )\n        if leg is not None or sou[ :1 ] == ']':\n            continue\n"),
    ('application before consuming', 'C10', G, "    sou = sou[ 2: ]\n    pos = sou.pos - 1\n", "    if sou[ 2:4 ] == '($':\n        return ps_l_form( sou, depth + 1 )\n    sou = sou[ 2: ]\n    pos = sou.pos - 1\n"),
    ('eol may be nothing', 'C10', G, "    if _ord( sou, 0 ) in ps_EOL:\n        return ( sou[ 1: ], sou[ :1 ])\n", "    if _ord( sou, 0 ) in ps_EOL:\n        return ( sou, sou[ :1 ])\n"),
]
RMK = '''                return ( sou[( i + 2 ): ], REMARK( sou[ :( i + 2 )]))

            i += 1
'''
NXT = RMK.replace("            i += 1\n", "            i = sou.find( '*', i + 1 )\n            if i < 0:\n                break\n")
MUTANTS += [
    ('remark next asterisk', 'C10', G, RMK, NXT[ :NXT.index('            if i < 0') ]),
    ('remark same asterisk', 'C10', G, RMK, NXT.replace('i + 1 )', 'i )')),
    ('remark max', 'C10', G, RMK, RMK.replace('i += 1', "i = max( i, sou.find( '*', i ))")),
]
REFACTORS = [
    ('c10 remark next', '', [(G, RMK, NXT)]),
    ('c10 remark max', '', [(G, RMK, RMK.replace('i += 1', "i = max( i + 1, sou.find( '*', i ))"))]),
    ('c10 remark end', '', [(G, RMK, RMK.replace('i += 1', "i = sou.find( '*', i + 1 ) if '*' in sou[( i + 1 ): ] else l"))]),
    ('c10 list for ever', '', [
        (G, "        while sou[ :1 ] != ')':\n#   ---- EMBED\n", "        while True:\n            if sou[ :1 ] == ')':\n                break\n#   ---- EMBED\n"),
    ]),
    ('c10 getline end', '', [
        (G, "        if not ln:\n            raise EOFError( '%s: unexpected EOF into multi-line string:' % ( callee()) + sou.loc())\n", "        if len( ln ) == 0:\n            raise EOFError( '%s: unexpected EOF into multi-line string:' % ( callee()) + sou.loc())\n"),
    ]),
    ('c10 gap iterator', '', [
        (G, "    while _ord( sou, i ) in ps_EOL | ps_SPACE:\n        i += 1\n\n    return ( sou[ i: ], sou[ :i ] or None )", "    size = len( sou )\n    while i < size and ord( sou[ i ]) in ps_EOL | ps_SPACE:\n        i = i + 1\n\n    return ( sou[ i: ], sou[ :i ] or None )"),
    ]),
    ('c10 space by for', '', [
        (G, "    while _ord( sou, i ) in ps_SPACE:\n        i += 1\n", "    for c in sou:\n        if ord( c ) not in ps_SPACE:\n            break\n        i += 1\n"),
    ]),
    ('c10 variable loop', '', [
        (G, "        while sou[ :2 ] == '::':\n            region.append( leg )\n", "        while True:\n            if not sou.startswith( '::' ):\n                break\n            region.append( leg )\n"),
    ]),
    ('c10 macro break', '', [
        (G, "    while sou[ :1 ] != ')':\n#   ---- atom\n        ( sou, leg ) = ps_atom( sou, depth + 1 )\n        if leg is None:\n            raise SyntaxError( '%s: name expected' % ( callee()) + sou.loc())\n\n        pars.append( leg )\n#   ---- gap\n        ( sou, _ ) = ps_gap( sou, depth + 1 )\n\n    sou = sou[ 1: ]\n",
            "    ( sou, leg ) = ps_atom( sou, depth + 1 )\n    while leg is not None:\n        pars.append( leg )\n        ( sou, _ ) = ps_gap( sou, depth + 1 )\n        ( sou, leg ) = ps_atom( sou, depth + 1 )\n    if sou[ :1 ] != ')':\n        raise SyntaxError( '%s: name expected' % ( callee()) + sou.loc())\n    sou = sou[ 1: ]\n"),
    ]),
]
