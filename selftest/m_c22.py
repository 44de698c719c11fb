"""C22: one edit each, and edits of the evaluator that keep it"""
G = 'pp/yugen.py'
TL = """        for i in node:
            if not _is_term( i ):
                return False

        return True

#   ---- LAZY
    if isinstance( node, LAZY ):
        return True

#   ---- str based | int | float
    if isinstance( node, str ) or isinstance( node, int ) or isinstance( node, float ):
        return True

    return False
"""
TT = "        return _is_term( node.ast )\n"
CALL = "                        if _is_term( node.args ):\n                            try:\n                                val = node.fn.fn( *node.args )\n"
RED = "                            if _is_term( node.args[ 1: ]):\n"
SUB = "                        if _is_term( node.args ):\n                            pos = int( node.fn )\n"
SUBR = "                                return node.args[ pos ] if pos < len( node.args ) else None\n"
SUBL = "                                return node.args[ 0 ][ pos ] if pos < len( node.args[ 0 ]) else None\n"
FMT = """                    term = True
                    for i, ( var, val ) in enumerate( node.named ):
                        val = yueval( val, env, depth + 1 )
                        node.named[ i ] = ( var, val )
                        term = term and _is_term( val )
                    if not term or not _is_term( node.args ):
#                       -- irreducible
                        return node
"""
INF = """                if not isinstance( node.ast, str ):
#                   -- irreducible
                    return node

                try:
                    tree"""
INFC = """                if not node.env.eval_local( env, depth + 1 ):
#                   -- irreducible
                    return node

                try:
                    code"""
MC = """                if not node.env.eval_local( env, depth + 1 ):
#                   -- irreducible
                    return node

                node.l_form = _substitute"""
EVA = """                if not isinstance( node.ast, str ):
#                   -- irreducible
                    return node

                if isinstance( node.ast, STR ):"""
CND = """                if not _is_term( node.cond ):
#                   -- irreducible
                    return COND_CLOSURE( node.cond, node.leg_1, node.leg_0 )

                node = node.leg_1 if node.cond else node.leg_0
"""
CNC = """                    node.leg_1 = yueval( node.leg_1, env, depth + 1 )
                    node.leg_0 = yueval( node.leg_0, env, depth + 1 )
#                   -- irreducible
                    return node

                node = yueval( node.leg_1 if node.cond else node.leg_0, env, depth + 1 )
"""
TXT = """                if _is_term( t ):
                    return _plain_with_browse( t ) if config.pp_browse else _plain( t )

#               -- irreducible
                return t
"""
SETC = """                if _is_term( node.form ):
                    return node.form
"""
LCL = "                if node.env.unassigned() is not NOT_FOUND:\n                    node.l_form"
EVL = """            if result and not _is_term( val ):
                result = False
"""
DEAD = """                        if _detect_deadlock( node.args ):
                            raise TypeError( '%s: irreducible expression' % ( _callee()) + node.loc())
"""
MUTANTS = [
 ('term any', 'C22', G, TL, TL.replace("            if not _is_term( i ):\n                return False\n\n        return True\n", "            if _is_term( i ):\n                return True\n\n        return not node\n")),
 ('term first only', 'C22', G, TL, TL.replace("                return False\n\n        return True\n", "                return False\n            return True\n\n        return True\n")),
 ('term shallow', 'C22', G, TL, TL.replace("not _is_term( i )", "not isinstance( i, ( list, TRIM )) and not _is_term( i )")),
 ('term from second', 'C22', G, TL, TL.replace("for i in node:", "for i in node[ -2: ]:")),
 ('term trim', 'C22', G, TT, "        return True\n"),
 ('term atom', 'C22', G, TL, TL.replace("    if isinstance( node, str ) or", "    if isinstance( node, str ) and not isinstance( node, ATOM ) or")),
 ('term float', 'C22', G, TL, TL.replace(" or isinstance( node, float )", "")),
 ('term empty', 'C22', G, TL, TL.replace("    if isinstance( node, str ) or", "    if isinstance( node, str ) and len( node ) or")),
 ('term lazy', 'C22', G, TL, TL.replace("    if isinstance( node, LAZY ):\n        return True\n", "    if isinstance( node, LAZY ):\n        return _is_term( node.ast )\n")),
 ('term builtin', 'C22', G, TL, TL.replace("isinstance( node, LAZY )", "isinstance( node, ( LAZY, BUILTIN ))")),
 ('term bound', 'C22', G, TL, TL.replace("    return False\n", "    return isinstance( node, BASE_MARK )\n") .replace("                return isinstance( node, BASE_MARK )", "                return False")),
 ('call early', 'C22', G, CALL, CALL.replace('_is_term( node.args )', '_is_term( node.args[ :2 ])')),
 ('call last', 'C22', G, CALL, CALL.replace('_is_term( node.args )', '_is_term( node.args[ -1: ])')),
 ('call late bound', 'C22', G, CALL, CALL.replace('_is_term( node.args )', '_is_term( node.args ) or len( node.args ) > 2 and not any( isinstance( x, VAR ) for x in node.args )')),
 ('call fewer', 'C22', G, CALL, CALL.replace('*node.args', '*node.args[ :2 ]')),
 ('call reversed', 'C22', G, CALL, CALL.replace('*node.args', '*reversed( node.args )')),
 ('reduce', 'C22', G, RED, RED.replace('node.args[ 1: ]', 'node.args[ 2: ]')),
 ('subscript', 'C22', G, SUB, "                        if True:\n                            pos = int( node.fn )\n"),
 ('subscript one', 'C22', G, SUB, SUB.replace('_is_term( node.args )', '_is_term( node.args ) or int( node.fn ) < len( node.args ) and _is_term( node.args[ int( node.fn )])')),
 ('subscript bound', 'C22', G, SUBR, SUBR.replace('<', '<=')),
 ('subscript list', 'C22', G, SUBL, SUBL.replace('[ pos ]', '[ pos - 1 ]')),
 ('format named', 'C22', G, FMT, FMT.replace('term = term and _is_term( val )', 'term = _is_term( val )')),
 ('format args', 'C22', G, FMT, FMT.replace('not term or not _is_term( node.args )', 'not term')),
 ('format one of', 'C22', G, FMT, FMT.replace('not term or not', 'not term and not')),
 ('format mixed', 'C22', G, FMT, FMT.replace('if not term or not _is_term( node.args ):', 'if node.named and not term or not node.named and not _is_term( node.args ):')),
 ('infix', 'C22', G, INF, INF.replace('not isinstance( node.ast, str )', 'isinstance( node.ast, VAR )')),
 ('infix closure', 'C22', G, INFC, INFC.replace("                if not node.env.eval_local( env, depth + 1 ):\n#                   -- irreducible\n                    return node\n", "                node.env.eval_local( env, depth + 1 )\n                if node.env.unassigned() is not NOT_FOUND:\n                    return node\n")),
 ('eval local last', 'C22', G, EVL, "            result = _is_term( val )\n"),
 ('eval local first', 'C22', G, EVL, EVL.replace("if result and not", "if key == self.order[ 0 ] and not")),
 ('macro', 'C22', G, MC, MC.replace("if not node.env.eval_local( env, depth + 1 ):", "if not node.env.eval_local( env, depth + 1 ) and node.env.unassigned() is not NOT_FOUND:")),
 ('eval text', 'C22', G, EVA, EVA.replace("if not isinstance( node.ast, str ):", "if not isinstance( node.ast, ( str, TRIM )):")),
 ('eval list', 'C22', G, EVA, EVA.replace("                if isinstance( node.ast, STR ):", "                if isinstance( node.ast, STR ):").replace("if not isinstance( node.ast, str ):", "if isinstance( node.ast, list ):\n                    node.ast = _plain( node.ast )\n                if not isinstance( node.ast, str ):")),
 ('cond truth', 'C22', G, CND, CND.replace('not _is_term( node.cond )', 'not _is_term( node.cond ) and not isinstance( node.cond, COND_CLOSURE )')),
 ('cond list', 'C22', G, CND, CND.replace('not _is_term( node.cond )', 'not isinstance( node.cond, list ) and not _is_term( node.cond )')),
 ('cond legs swapped', 'C22', G, CND, CND.replace('COND_CLOSURE( node.cond, node.leg_1, node.leg_0 )', 'COND_CLOSURE( node.cond, node.leg_0, node.leg_1 )')),
 ('cond none', 'C22', G, CND, CND.replace('if node.cond else', 'if node.cond is not None else')),
 ('cond empty', 'C22', G, CND, CND.replace('if node.cond else', 'if node.cond or isinstance( node.cond, str ) else')),
 ('cond closure leg', 'C22', G, CNC, CNC.replace('node.leg_1 if node.cond else node.leg_0', 'node.leg_1 if node.cond is not None else node.leg_0')),
 ('cond closure lost', 'C22', G, CNC, CNC.replace('node.leg_0 = yueval( node.leg_0, env, depth + 1 )\n', 'node.leg_0 = None\n')),
 ('cond closure crossed', 'C22', G, CNC, CNC.replace('node.leg_0 = yueval( node.leg_0, env', 'node.leg_0 = yueval( node.leg_1, env')),
 ('text', 'C22', G, TXT, TXT.replace('_is_term( t )', '_is_term( t[ -1: ])')),
 ('text any', 'C22', G, TXT, TXT.replace('_is_term( t )', '_is_term( t ) or any( isinstance( x, PLAIN ) for x in t )')),
 ('text lost', 'C22', G, TXT, TXT.replace("                return t\n", "                return T([ x for x in t if not isinstance( x, TRIM )], node.indent )\n")),
 ('set closure', 'C22', G, SETC, SETC.replace('_is_term( node.form )', '_is_term( node.form ) or isinstance( node.form, list )')),
 ('set closure open', 'C22', G, SETC, SETC.replace('_is_term( node.form )', 'not isinstance( node.form, VAR )')),
 ('closure', 'C22', G, LCL, LCL.replace('is not NOT_FOUND', '== node.env.order[ 0 ]')),
 ('deadlock eager', 'C22', G, DEAD, DEAD.replace('_detect_deadlock( node.args )', '_detect_deadlock( node.args ) or any( isinstance( x, L_CLOSURE ) for x in node.args )')),
 ('deadlock in a list', 'C22', G, "    if isinstance( node, BUILTIN ):\n#       -- built-in function without application\n        return True\n", "    if isinstance( node, ( BUILTIN, EVAL )):\n        return True\n"),
]
REFACTORS = [
 ('r22 term all', G, TL, """        return all( _is_term( i ) for i in node )

    return isinstance( node, ( LAZY, str, int, float ))
"""),
 ('r22 term flag', G, TL, TL.replace("            if not _is_term( i ):\n                return False\n\n        return True\n", "            if _is_term( i ):\n                continue\n            break\n        else:\n            return True\n        return False\n")),
 ('r22 term order', G, TL, """        return not [ 1 for i in node if not _is_term( i )]

    if isinstance( node, ( float, int )):
        return True
    if isinstance( node, str ):
        return True
    return isinstance( node, LAZY )
"""),
 ('r22 call negated', G, "                        if _is_term( node.args ):\n                            try:\n", "                        ready = _is_term( node.args )\n                        if ready:\n                            try:\n"),
 ('r22 call list', G, CALL, CALL.replace('*node.args', '*list( node.args )')),
 ('r22 subscript', G, SUB + """#                           -- (syntactic sugar) if only one argument and it's a list - apply operation to it
                            if len( node.args ) == 1 and isinstance( node.args[ 0 ], list ):
""" + SUBL + "                            else:\n" + SUBR, """                        if _is_term( node.args ):
                            pos = int( node.fn )
                            seq = node.args
                            if len( seq ) == 1 and isinstance( seq[ 0 ], list ):
                                seq = seq[ 0 ]
                            if pos >= len( seq ):
                                return None
                            return seq[ pos ]
"""),
 ('r22 format', G, FMT, """                    named = [( var, yueval( val, env, depth + 1 )) for var, val in node.named ]
                    node.named = named
                    if not ( _is_term( node.args ) and _is_term([ val for var, val in named ])):
                        return node
"""),
 ('r22 cond helper', G, CND, """                if _is_term( node.cond ):
                    if node.cond:
                        node = node.leg_1
                    else:
                        node = node.leg_0
                    continue
                return COND_CLOSURE( node.cond, node.leg_1, node.leg_0 )
"""),
 ('r22 cond closure', G, CNC, CNC.replace("                node = yueval( node.leg_1 if node.cond else node.leg_0, env, depth + 1 )\n", "                leg = node.leg_0\n                if node.cond:\n                    leg = node.leg_1\n                node = yueval( leg, env, depth + 1 )\n")),
 ('r22 text', G, TXT, """                if not _is_term( t ):
                    return t

                render = _plain_with_browse if config.pp_browse else _plain
                return render( t )
"""),
 ('r22 set closure', G, SETC, "                if not _is_term( node.form ):\n                    return node\n\n                return node.form\n"),
 ('r22 infix', G, INF, INF.replace("                if not isinstance( node.ast, str ):\n#                   -- irreducible\n                    return node\n", "                text = node.ast\n                if not isinstance( text, str ):\n                    return node\n")),
 ('r22 macro', G, MC, MC.replace("                if not node.env.eval_local( env, depth + 1 ):\n", "                ready = node.env.eval_local( env, depth + 1 )\n                if not ready:\n")),
 ('r22 eval', G, EVA, EVA.replace("if not isinstance( node.ast, str ):", "if not ( isinstance( node.ast, str )):")),
 ('r22 closure', G, LCL, LCL.replace("if node.env.unassigned() is not NOT_FOUND:", "missing = node.env.unassigned()\n                if missing is not NOT_FOUND:")),
]
