"""C09: one edit each that loses, doubles or invents text, and edits that keep the text"""
G = 'pp/yugen.py'
HEAD = """            sou = sou[ 1: ]
            ( sou, leg ) = ps_application( sou, depth + 1 )
"""
MUTANTS = [
    ('falsy value in former', 'C09', G, "    ( sou, leg ) = ps_value( sou, depth + 1 )\n    if leg is not None:\n", "    ( sou, leg ) = ps_value( sou, depth + 1 )\n    if leg:\n"),
    ('falsy quote in value', 'C09', G, "    ( sou, leg ) = ps_quote( sou, depth + 1 )\n    if leg is not None:\n        return", "    ( sou, leg ) = ps_quote( sou, depth + 1 )\n    if leg:\n        return"),
    ('falsy quote in text', 'C09', G, "        ( sou, leg ) = ps_quote( sou, depth + 1 )\n        if leg is not None:\n            ast", "        ( sou, leg ) = ps_quote( sou, depth + 1 )\n        if leg:\n            ast"),
    ('falsy form of a name', 'C09', G, "                if form is None:\n                    raise SyntaxError( '%s: form expected' % ( callee()) + sou.loc())\n\n                named", "                if not form:\n                    raise SyntaxError( '%s: form expected' % ( callee()) + sou.loc())\n\n                named"),
    ('falsy condition', 'C09', G, "            if cond is None:\n", "            if not cond:\n"),
    ('falsy list element', 'C09', G, "            if leg is None:\n                raise SyntaxError( '%s: form expected' % ( callee()) + sou.loc())\n\n            lst.append(", "            if not leg:\n                raise SyntaxError( '%s: form expected' % ( callee()) + sou.loc())\n\n            lst.append("),
    ('falsy binding form', 'C09', G, "            if form is None:\n", "            if not form:\n"),
    ('falsy argument', 'C09', G, "            if form is not None:\n", "            if form:\n"),
    ('text extended only when not empty', 'C09', G, "        self.ast[ pos:pos ] = lst", "        if self.ast:\n            self.ast[ pos:pos ] = lst"),
    ('header after the first', 'C09', G, "ast.extend_text( 0, header )", "ast.extend_text( 1, header )"),
    ('set skips one too many', 'C09', G, "return ( sou[ 1: ], SET( *binding ))", "return ( sou[ 2: ], SET( *binding ))"),
    ('set leaves its bracket', 'C09', G, "return ( sou[ 1: ], SET( *binding ))", "return ( sou, SET( *binding ))"),
    ('let gap with a wrong length', 'C09', G, "( sou, _ ) = ps_gap( sou[ l_LET: ], depth + 1 )", "( sou, _ ) = ps_gap( sou[ l_LET + 1: ], depth + 1 )"),
    ('let tag of set', 'C09', G, "( sou, _ ) = ps_gap( sou[ l_LET_T: ], depth + 1 )", "( sou, _ ) = ps_gap( sou[ l_IMPORT_T: ], depth + 1 )"),
    ('let forgets its form', 'C09', G, "return ( sou[ 1: ], LET( binding[ 0 ], binding[ 1 ], leg ))", "return ( sou[ 1: ], LET( binding[ 0 ], binding[ 1 ], binding[ 1 ]))"),
    ('binding keeps the last name', 'C09', G, "            lval.append( leg )\n#   ---- gap\n            ( sou, _ ) = ps_gap( sou, depth + 1 )\n#   ---- )", "            lval = [ leg ]\n#   ---- gap\n            ( sou, _ ) = ps_gap( sou, depth + 1 )\n#   ---- )"),
    ('macro forgets a parameter', 'C09', G, "        pars.append( leg )\n", "        pars = [ leg ]\n"),
    ('macro ends at the first bracket', 'C09', G, "        ( sou, leg, _, depth_pth ) = next( plain )\n#   ---- ) & [eq depth_pth 0]\n        if ( sou[ :1 ] == ')' ) and ( depth_pth == 0 ):\n            return ( sou[ 1: ], MACRO", "        ( sou, leg, _, depth_pth ) = next( plain )\n#   ---- ) & [eq depth_pth 0]\n        if sou[ :1 ] == ')':\n            return ( sou[ 1: ], MACRO"),
    ('emit forgets its form', 'C09', G, "return ( sou[ 1: ], EMIT( var, leg ))", "return ( sou[ 1: ], EMIT( var, None ))"),
    ('application skips the tag look', 'C09', G, "                    name = None\n                else:\n                    sou = look", "                    name = None\n                    sou = look\n                else:\n                    sou = look"),
    ('named argument dropped', 'C09', G, "                named.append(( name, form ))", "                named = [( name, form )]"),
    ('argument dropped', 'C09', G, "                args.append( EMBED( form ) if embed else form )", "                args = [ EMBED( form ) if embed else form ]"),
    ('only the first argument', 'C09', G, "                args.append( EMBED( form ) if embed else form )", "                args.append( EMBED( form ) if embed else func )"),
    ('c remark loses its mark', 'C09', G, "                return ( sou[( i + 2 ): ], REMARK( sou[ :( i + 2 )]))", "                return ( sou[( i + 2 ): ], REMARK( sou[ :i ]))"),
    ('c remark leaves its end', 'C09', G, "                return ( sou[( i + 2 ): ], REMARK( sou[ :( i + 2 )]))", "                return ( sou[ i: ], REMARK( sou[ :( i + 2 )]))"),
    ('line remark eats the newline', 'C09', G, "                break\n            i += 1\n        return ( sou[ i: ], REMARK( sou[ :i ]))\n\n#   ---- /*", "                break\n            i += 1\n        return ( sou[ i + 1: ], REMARK( sou[ :i ]))\n\n#   ---- /*"),
    ('python remark without hash', 'C09', G, "#               -- leave EOL\n                break\n            i += 1\n        return ( sou[ i: ], REMARK( sou[ :i ]))\n\n    return ( sou, None )", "#               -- leave EOL\n                break\n            i += 1\n        return ( sou[ i: ], REMARK( sou[ 1:i ]))\n\n    return ( sou, None )"),
    ('plain keeps a character less', 'C09', G, "yield ( sou[ i: ], PLAIN( sou[ :i ], indent ), depth_pth_sq, depth_pth )", "yield ( sou[ i: ], PLAIN( sou[ :i - 1 ], indent ), depth_pth_sq, depth_pth )"),
    ('plain does not count square', 'C09', G, "        if symbol == ord( '[' ):\n            depth_pth_sq += 1\n", "        if symbol == ord( '[' ):\n            depth_pth_sq = 1\n"),
    ('plain counts below', 'C09', G, "            if depth_pth_sq:\n                depth_pth_sq -= 1\n", "            depth_pth_sq -= 1\n"),
    ('plain does not close', 'C09', G, "            if depth_pth:\n                depth_pth -= 1\n", "            if depth_pth > 1:\n                depth_pth -= 1\n"),
    ('plain forgets outer depth', 'C09', G, "    depth_pth_sq = pth_sq\n    depth_pth = pth\n", "    depth_pth_sq = pth_sq\n    depth_pth = 0\n"),
    ('variable late loses name', 'C09', G, "            return ( sou, VAR( LATE_BOUND(), leg ))", "            return ( sou, VAR( LATE_BOUND(), '' ))"),
    ('variable one colon', 'C09', G, "            ( sou, leg ) = ps_atom( sou[ 2: ], depth + 1 )\n            if leg is None:\n                raise SyntaxError( '%s: atom", "            ( sou, leg ) = ps_atom( sou[ 1: ], depth + 1 )\n            if leg is None:\n                raise SyntaxError( '%s: atom"),
    ('variable forgets region', 'C09', G, "            region.append( leg )\n", "            region = [ leg ]\n"),
    ('lambda forgets default', 'C09', G, "                bound.append(( late, leg, form ))", "                bound.append(( late, leg, None ))"),
    ('lambda forgets late', 'C09', G, "                bound.append(( late, leg, form ))", "                bound.append(( [], leg, form ))"),
    ('lambda refuge length', 'C09', G, "                    ( sou, _ ) = ps_gap( sou[ 4: ], depth + 1 )", "                    ( sou, _ ) = ps_gap( sou[ 5: ], depth + 1 )"),
    ('lambda forgets first bound', 'C09', G, "                bound.append(( late, leg, form ))\n", "                bound = [( late, leg, form )]\n"),
    ('form forgets the else part', 'C09', G, "            return ( sou, COND( cond, leg, form ))", "            return ( sou, COND( cond, leg, None ))"),
    ('form forgets the condition', 'C09', G, "            return ( sou, COND( cond, leg, form ))", "            return ( sou, COND( leg, leg, form ))"),
    ('code ends at first square bracket', 'C09', G, "            if ( rest[ :1 ] == ']' ) and ( leg.depth_pth_sq == 0 ):", "            if rest[ :1 ] == ']':"),
    ('code takes the other depth', 'C09', G, "            if ( rest[ :1 ] == ']' ) and ( leg.depth_pth_sq == 0 ):", "            if ( rest[ :1 ] == ']' ) and ( leg.depth_pth == 0 ):"),
    ('dual comma eaten', 'C09', G, "            if look[ :l_DUALCOMMA ] == ps_DUALCOMMA:\n                return ( rest, leg )", "            if look[ :l_DUALCOMMA ] == ps_DUALCOMMA:\n                return ( rest[ l_DUALCOMMA: ], leg )"),
    ('dual comma text eats the bracket', 'C09', G, "            if ( look[ :1 ] == ')' )  and ( leg.depth_pth == 0 ):\n                return ( rest, leg )", "            if ( look[ :1 ] == ')' )  and ( leg.depth_pth == 0 ):\n                return ( look, leg )"),
    ('dual semi half', 'C09', G, "                return ( rest[ l_DUALSEMI: ], leg )", "                return ( rest[ 1: ], leg )"),
    ('open bracket always one', 'C09', G, "return 1 if sou[ :1 ] == '[' else 2 if sou[ :2 ] == '\\\\[' else 0", "return 1 if sou[ :1 ] == '[' else 1 if sou[ :2 ] == '\\\\[' else 0"),
    ('list drops a form', 'C09', G, "            lst.append( EMBED( leg ) if embed else leg )", "            lst = [ EMBED( leg ) if embed else leg ]"),
    ('list ends early', 'C09', G, "        return( sou[ 1: ], LIST( lst ))", "        return( sou, LIST( lst ))"),
    ('infix ends at inner bracket', 'C09', G, "            if ( rest[ :1 ] == ')' ) and ( leg.depth_pth == 0 ):\n                return ( rest[ 1: ], INFIX", "            if rest[ :1 ] == ')':\n                return ( rest[ 1: ], INFIX"),
    ('infix starts late', 'C09', G, "        text = ps_text( sou[ l_INFIX: ], depth + 1 )", "        text = ps_text( sou[ l_INFIX + 1: ], depth + 1 )"),
    ('atom loses the last letter', 'C09', G, "ATOM( sou[ :i ]) if i else None )", "ATOM( sou[ :i - 1 ]) if i else None )"),
    ('atom doubles the last letter', 'C09', G, "    return ( sou[ i: ], ATOM( sou[ :i ])", "    return ( sou[ i - 1: ], ATOM( sou[ :i ])"),
    ('quote leaves the bracket', 'C09', G, "                return ( sou[ 1: ], STR( leg ))", "                return ( sou, STR( leg ))"),
    ('quote ends at first bracket', 'C09', G, "            if ( sou[ :1 ] == ')' ) and ( depth_pth == 0 ):\n                return ( sou[ 1: ], STR( leg ))", "            if sou[ :1 ] == ')':\n                return ( sou[ 1: ], STR( leg ))"),
    ('quote skips the wrong length', 'C09', G, "    pos = ( l_BQUOTE if sou[ :l_BQUOTE ] == ps_BQUOTE else", "    pos = ( l_QUOTE if sou[ :l_BQUOTE ] == ps_BQUOTE else"),
    ('python string without its tail', 'C09', G, "                return ( sou[ p: ], STR( sou[ :p ]))\n\n#           -- tail on other line\n            _1x = False", "                return ( sou[ p: ], STR( sou[ :mch_head.end()]))\n\n#           -- tail on other line\n            _1x = False"),
    ('python string last line', 'C09', G, "            return ( sou[ sou_p: ], STR( sou[ :sou_p ]))", "            return ( sou[ sou_p: ], STR( ln ))"),
    ('comment ends at the first bracket', 'C09', G, "            if ( sou[ :1 ] == ')' ) and ( depth_pth == 0 ):\n                return ( sou[ 1: ], COMMENT())", "            if sou[ :1 ] == ')':\n                return ( sou[ 1: ], COMMENT())"),
    ('text does not keep the depth', 'C09', G, "            plain = ps_plain( sou, depth_pth_sq, depth_pth, None if ast else '', depth + 1 )", "            plain = ps_plain( sou, 0, 0, None if ast else '', depth + 1 )"),
    ('text doubles plain', 'C09', G, "        if sou == _plain_ret and ast:\n            ast.pop()\n", "        if sou == _plain_ret and ast:\n            pass\n"),
    ('text always pops', 'C09', G, "        if sou == _plain_ret and ast:\n            ast.pop()\n", "        if _plain_ret is not None and ast:\n            ast.pop()\n"),
    ('text swaps the depths', 'C09', G, "yield ( sou[ : ], TEXT( ast, depth_pth_sq, depth_pth ))", "yield ( sou[ : ], TEXT( ast, depth_pth, depth_pth_sq ))"),
    ('slice position', 'C09', G, "return SOURCE( str.__getitem__( self, a ), self.input_file, self.pos + d )", "return SOURCE( str.__getitem__( self, a ), self.input_file, d )"),
    ('slice file', 'C09', G, "return SOURCE( str.__getitem__( self, a ), self.input_file, self.pos + d )", "return SOURCE( str.__getitem__( self, a ), None, self.pos + d )"),
    ('source copy position', 'C09', G, "            obj.pos = val.pos\n", "            obj.pos = pos\n"),
    ('header loses the shebang', 'C09', G, "            header.append( leg )\n            ( rest, eol ) = ps_eol( rest, depth + 1 )\n", "            ( rest, eol ) = ps_eol( rest, depth + 1 )\n"),
    ('header keeps text when there is none', 'C09', G, "#           -- not a Python remark\n            break\n\n    return ( sou, None )", "#           -- not a Python remark\n            break\n\n    return ( rest, None )"),
    ('mode remark dropped', 'C09', G, "            ( sou, leg ) = ps_remark_python( sou, depth + 1 )\n            if leg is not None:\n                ast.append( leg )\n                continue", "            ( sou, leg ) = ps_remark_python( sou, depth + 1 )\n            if leg is not None:\n                continue"),
    ('number leaves sign', 'C09', G, "        return ( sou[ mch.end(): ], FLOAT( leg.replace( ' ', '' )))", "        return ( sou[ mch.end() - 1: ], FLOAT( leg.replace( ' ', '' )))"),
    ('value eats a quote', 'C09', G, "    ( sou, leg ) = ps_quote( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n    ( sou, leg ) = ps_number", "    ( sou, leg ) = ps_quote( sou, depth + 1 )\n\n    ( sou, leg ) = ps_number"),
]
REFACTORS = [
    ('c09 header inline', '', [
        (G, "            ast.extend_text( 0, header )", "            ast.ast[ 0:0 ] = header"),
    ]),
    ('c09 header new text', '', [
        (G, "            ast.extend_text( 0, header )", "            ast = TEXT( header + ast.ast )"),
    ]),
    ('c09 extend by sum', '', [
        (G, "        self.ast[ pos:pos ] = lst", "        self.ast = self.ast[ :pos ] + lst + self.ast[ pos: ]"),
    ]),
    ('c09 bracket helper', '', [
        (G, "    return ( sou[ 1: ], SET( *binding ))", "    sou = _skip( sou, 1 )\n    return ( sou, SET( *binding ))"),
        (G, "#   ---------------------------------------------------------------------------\n@echo__ps_\ndef ps_set(", "#   ---------------------------------------------------------------------------\ndef _skip( txt, n ):\n    return txt[ n: ]\n\n#   ---------------------------------------------------------------------------\n@echo__ps_\ndef ps_set("),
    ]),
    ('c09 list loop', '', [
        (G, "        while sou[ :1 ] != ')':\n#   ---- EMBED\n", "        while True:\n            if sou.startswith( ')' ):\n                break\n#   ---- EMBED\n"),
    ]),
    ('c09 application loop conditions', '', [
        (G, "            if form is not None:\n                args.append( EMBED( form ) if embed else form )\n            else:\n#   ---- }0...\n                if embed:\n                    raise SyntaxError( '%s: unexpected \"*\"' % ( callee()) + sou.loc())\n\n                break\n",
            "            if form is None:\n                if embed:\n                    raise SyntaxError( '%s: unexpected \"*\"' % ( callee()) + sou.loc())\n\n                break\n            if embed:\n                form = EMBED( form )\n            args.append( form )\n"),
    ]),
    ('c09 value chain', '', [
        (G, "    ( sou, leg ) = ps_quote( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n    ( sou, leg ) = ps_number( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n    return ( sou, None )",
            "    for rule in ( ps_quote, ps_number ):\n        ( sou, leg ) = rule( sou, depth + 1 )\n        if leg is not None:\n            return ( sou, leg )\n\n    return ( sou, None )"),
    ]),
    ('c09 former nested', '', [
        (G, "#   ---- value\n    ( sou, leg ) = ps_value( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n\n#   ---- variable\n    ( sou, leg ) = ps_variable( sou, depth + 1 )\n    if leg is not None:\n        return ( sou, leg )\n",
            "#   ---- value\n    ( rest, leg ) = ps_value( sou, depth + 1 )\n    if leg is None:\n#   ---- variable\n        ( rest, leg ) = ps_variable( rest, depth + 1 )\n    if leg is not None:\n        return ( rest, leg )\n    sou = rest\n"),
    ]),
    ('c09 infix shared', '', [
        (G, "    if sou[ :1 ] == '{':\n        text = ps_text( sou[ 1: ], depth + 1 )\n        while True:\n#   ---- text\n            ( rest, leg ) = next( text )\n#   ---- }\n            if rest[ :1 ] == '}':\n                return ( rest[ 1: ], INFIX( leg, sou.input_file, sou.pos ))\n",
            "    if sou[ :1 ] == '{':\n        for ( rest, leg ) in ps_text( sou[ 1: ], depth + 1 ):\n            if rest[ :1 ] == '}':\n                return ( rest[ 1: ], INFIX( leg, sou.input_file, sou.pos ))\n"),
    ]),
    ('c09 plain counting helper', '', [
        (G, "        if symbol == ord( '[' ):\n            depth_pth_sq += 1\n        elif symbol == ord( ']' ):\n            if depth_pth_sq:\n                depth_pth_sq -= 1\n        elif symbol == ord( '(' ):\n            depth_pth += 1\n        elif symbol == ord( ')' ):\n            if depth_pth:\n                depth_pth -= 1\n",
            "        c = chr( symbol )\n        if c == '[':\n            depth_pth_sq += 1\n        elif c == '(':\n            depth_pth += 1\n        elif c == ']' and depth_pth_sq > 0:\n            depth_pth_sq -= 1\n        elif c == ')' and depth_pth > 0:\n            depth_pth -= 1\n"),
    ]),
    ('c09 plain max', '', [
        (G, "            if depth_pth_sq:\n                depth_pth_sq -= 1\n", "            depth_pth_sq = max( depth_pth_sq - 1, 0 )\n"),
    ]),
    ('c09 remark find', '', [
        (G, "        i = 2\n        l = len( sou ) - 1\n        while i < l:\n#   ---- */\n            if sou[ i:( i + 2 )] == '*/':\n                return ( sou[( i + 2 ): ], REMARK( sou[ :( i + 2 )]))\n\n            i += 1\n",
            "        i = sou.find( '*/', 2 )\n        if i != -1:\n            end = i + 2\n            return ( sou[ end: ], REMARK( sou[ :end ]))\n"),
    ]),
    ('c09 atom regex', '', [
        (G, "    i = 0\n    if _ord( sou, 0 ) in ps_LETTER:\n        i = 1\n        while _ord( sou, i ) in ps_LETTER | ps_FIGURE:\n            i += 1\n\n    return ( sou[ i: ], ATOM( sou[ :i ]) if i else None )",
            "    if _ord( sou, 0 ) not in ps_LETTER:\n        return ( sou, None )\n    end = 1\n    while _ord( sou, end ) in ps_LETTER | ps_FIGURE:\n        end += 1\n    name = sou[ :end ]\n    return ( sou[ end: ], ATOM( name ))"),
    ]),
    ('c09 text continue order', '', [
        (G, "        if sou == _plain_ret and ast:\n            ast.pop()\n        else:\n            plain = ps_plain( sou, depth_pth_sq, depth_pth, None if ast else '', depth + 1 )\n",
            "        again = bool( ast ) and sou == _plain_ret\n        if not again:\n            plain = ps_plain( sou, depth_pth_sq, depth_pth, None if ast else '', depth + 1 )\n        else:\n            ast.pop()\n"),
    ]),
    ('c09 text slice item', '', [
        (G, "        if sou == _plain_ret and ast:\n            ast.pop()\n", "        if sou == _plain_ret and ast:\n            del ast[ -1 ]\n"),
    ]),
    ('c09 slice position', '', [
        (G, "        d = a if not isinstance( a, slice ) else a.start if a.start else 0\n        return SOURCE( str.__getitem__( self, a ), self.input_file, self.pos + d )",
            "        if isinstance( a, slice ):\n            d = a.start or 0\n        else:\n            d = a\n        part = SOURCE( str.__getitem__( self, a ), self.input_file, self.pos + d )\n        return part"),
    ]),
    ('c09 python string end', '', [
        (G, "#           -- tail is found\n            sou_p += mch_tail.end( 0 )\n            return ( sou[ sou_p: ], STR( sou[ :sou_p ]))", "#           -- tail is found\n            end = sou_p + mch_tail.end()\n            whole = sou[ :end ]\n            return ( sou[ end: ], STR( whole ))"),
    ]),
    ('c09 macro for', '', [
        (G, "    plain = ps_plain( sou, 0, 0, None, depth + 1 )\n    while True:\n#   ---- plain\n        ( sou, leg, _, depth_pth ) = next( plain )\n#   ---- ) & [eq depth_pth 0]\n        if ( sou[ :1 ] == ')' ) and ( depth_pth == 0 ):\n            return ( sou[ 1: ], MACRO( name, pars, str( leg )))",
            "    for ( sou, leg, _, depth_pth ) in ps_plain( sou, 0, 0, None, depth + 1 ):\n        if depth_pth or not sou.startswith( ')' ):\n            continue\n        return ( sou[ 1: ], MACRO( name, pars, str( leg )))"),
    ]),
    ('c09 code helper', '', [
        (G, "    elif sou[ :1 ] == '[':\n        text = ps_text( sou[ 1: ], depth + 1 )\n        while True:\n#   ---- text\n            ( rest, leg ) = next( text )\n#   ---- ']' & [eq depth_pth_sq 0]\n            if ( rest[ :1 ] == ']' ) and ( leg.depth_pth_sq == 0 ):\n                return ( rest[ 1: ], leg )\n",
            "    elif sou[ :1 ] == '[':\n        return _square( sou[ 1: ], depth )\n"),
        (G, "#   ---------------------------------------------------------------------------\ndef _open_sq_bracket(", "#   ---------------------------------------------------------------------------\ndef _square( sou, depth ):\n    text = ps_text( sou, depth + 1 )\n    while True:\n        ( rest, leg ) = next( text )\n        if ( rest[ :1 ] == ']' ) and not leg.depth_pth_sq:\n            return ( rest[ 1: ], leg )\n\n#   ---------------------------------------------------------------------------\ndef _open_sq_bracket("),
    ]),
]
