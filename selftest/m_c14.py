"""C14: one edit each, and edits of the evaluator that keep it"""
G = 'pp/yugen.py'
VAR = "                return copy.deepcopy( val )\n\n#   ---- LAMBDA --> L_CLOSURE"
LOOP = """                        for arg in node.args:
                            fn = copy.deepcopy( arg )
                            x = yueval( APPLY( fn, [ x ], []), env, depth + 1 )
"""
EMITC = "                    result = copy.deepcopy( val )\n\n                if node.ast:"
UPD = "                    env.update_variable( node.var.reg, node.var.atom, val )\n"
CPY = """        return ENV( copy.deepcopy( self.parent, memo )
        , [( key, copy.deepcopy( self.__getitem__( key ), memo )) for key in self.order ])
"""
CONST = """                    if isinstance( val, list ):
#                       -- e.g. list from a script, ($emit) could change it
                        val = copy.deepcopy( val )
                    return str( val ) if isinstance( val, native_str ) else val

#   ---- APPLY -- int"""
EXPR = """                    if isinstance( val, list ):
#                       -- e.g. list from a script, ($emit) could change it
                        val = copy.deepcopy( val )
                    return str( val ) if isinstance( val, native_str ) else val

                except"""
MUTANTS = [
 ('var not copied', 'C14', G, VAR, VAR.replace('copy.deepcopy( val )', 'val')),
 ('var shallow', 'C14', G, VAR, VAR.replace('deepcopy', 'copy')),
 ('var list only', 'C14', G, VAR, VAR.replace('copy.deepcopy( val )', 'copy.deepcopy( val ) if isinstance( val, list ) else val')),
 ('var terms shared', 'C14', G, VAR, VAR.replace('copy.deepcopy( val )', 'val if _is_term( val ) else copy.deepcopy( val )')),
 ('var closure shared', 'C14', G, VAR, VAR.replace('copy.deepcopy( val )', 'val if isinstance( val, M_CLOSURE ) else copy.deepcopy( val )')),
 ('var list shallow', 'C14', G, VAR, VAR.replace('copy.deepcopy( val )', 'LIST( val ) if isinstance( val, LIST ) else copy.deepcopy( val )')),
 ('var memo', 'C14', G, VAR, VAR.replace('copy.deepcopy( val )', 'copy.deepcopy( val, feedback.__dict__ )')),
 ('foreach hoisted', 'C14', G, LOOP, LOOP.replace("                            fn = copy.deepcopy( arg )\n", "                            fn = arg\n")),
 ('foreach once', 'C14', G, "                    lst = LIST()\n                    for x in node.fn:\n" + LOOP, "                    lst = LIST()\n                    fns = copy.deepcopy( node.args )\n                    for x in node.fn:\n" + LOOP.replace("                            fn = copy.deepcopy( arg )\n", "                            fn = arg\n").replace('node.args', 'fns')),
 ('foreach after', 'C14', G, LOOP, """                        for i, arg in enumerate( node.args ):
                            x = yueval( APPLY( arg, [ x ], []), env, depth + 1 )
                            node.args[ i ] = copy.deepcopy( arg )
"""),
 ('foreach shallow', 'C14', G, LOOP, LOOP.replace('deepcopy', 'copy')),
 ('foreach single argument', 'C14', G, LOOP, LOOP.replace("copy.deepcopy( arg )", "copy.deepcopy( arg ) if len( node.args ) > 1 else arg")),
 ('emit not copied', 'C14', G, EMITC, EMITC.replace('copy.deepcopy( val )', 'val')),
 ('emit list head stays', 'C14', G, "                        result = val[ 0 ]\n                        del val[ 0 ]\n", "                        result = val[ 0 ]\n"),
 ('emit no update', 'C14', G, UPD, "                    if val is not None:\n                        env.update_variable( node.var.reg, node.var.atom, val )\n"),
 ('emit always', 'C14', G, UPD + "                return result", UPD + "                else:\n                    env.update_variable( node.var.reg, node.var.atom, result )\n                return result"),
 ('set updates', 'C14', G, "                env_l = ENV( env )\n                if isinstance( node.lval, ATOM ):\n", "                if isinstance( node, SET ) and isinstance( node.lval, ATOM ) and isinstance( node.ast, INT ):\n                    env.update_variable([], node.lval, node.ast )\n                env_l = ENV( env )\n                if isinstance( node.lval, ATOM ):\n"),
 ('env copy shares', 'C14', G, CPY, CPY.replace("copy.deepcopy( self.__getitem__( key ), memo )", "self.__getitem__( key )")),
 ('env copy shares terms', 'C14', G, CPY, "        return ENV( copy.deepcopy( self.parent, memo )\n        , [( key, self[ key ] if isinstance( self[ key ], LIST ) else copy.deepcopy( self[ key ], memo )) for key in self.order ])\n"),
 ('env copy loop shares', 'C14', G, CPY, "        res = ENV( copy.deepcopy( self.parent, memo ))\n        for key in self.order:\n            res[ key ] = dict.__getitem__( self, key )\n        return res\n"),
 ('list copy shallow', 'C14', G, "class LIST( BASE_LIST ):", "class LIST( BASE_LIST ):\n    def __deepcopy__( self, memo = None ):\n        return LIST( self[:])\n"),
 ('closure copy self', 'C14', G, "class L_CLOSURE( LAMBDA_CLOSURE ):", "class L_CLOSURE( LAMBDA_CLOSURE ):\n    def __deepcopy__( self, memo = None ):\n        return self\n"),
 ('const shared', 'C14', G, CONST, CONST.replace('copy.deepcopy( val )', 'val')),
 ('expr shared', 'C14', G, EXPR, EXPR.replace('copy.deepcopy( val )', 'val')),
 ('expr shallow', 'C14', G, EXPR, EXPR.replace('copy.deepcopy( val )', 'LIST( val )')),
 ('macro cache', 'C14', G, "                node = yuparse( _macro )\n", "                if ( node.decl, node.ast ) not in feedback.macros:\n                    feedback.macros[( node.decl, node.ast )] = yuparse( _macro )\n                node = feedback.macros[( node.decl, node.ast )]\n"),
 ('lookup popped', 'C14', G, "                val = env.lookup( node.reg, node.atom )\n                if val is NOT_FOUND:\n#   ---- VAR -- LATE", "                val = env.lookup( node.reg, node.atom )\n                if isinstance( val, LIST ):\n                    val.sort()\n                if val is NOT_FOUND:\n#   ---- VAR -- LATE"),
]
REFACTORS = [
 ('eval var helper', '', [(G, VAR, VAR.replace('copy.deepcopy( val )', '_own( val )')), (G, "@echo__eval_\ndef yueval(", "def _own( val ):\n    return copy.deepcopy( val )\n\n#   ---\n@echo__eval_\ndef yueval(")]),
 ('eval var immutable shortcut', '', [(G, VAR, VAR.replace('copy.deepcopy( val )', 'val if isinstance( val, int ) or isinstance( val, float ) else copy.deepcopy( val )'))]),
 ('eval var str shortcut', '', [(G, VAR, "                if isinstance( val, ( int, float )):\n                    return val\n\n" + VAR)]),
 ('eval foreach comprehension', '', [(G, LOOP, LOOP.replace("                            fn = copy.deepcopy( arg )\n", "").replace("APPLY( fn,", "APPLY( copy.deepcopy( arg ),"))]),
 ('eval foreach all', '', [(G, LOOP, "                        for fn in copy.deepcopy( node.args ):\n                            x = yueval( APPLY( fn, [ x ], []), env, depth + 1 )\n")]),
 ('eval foreach helper', '', [(G, LOOP, LOOP.replace("                            fn = copy.deepcopy( arg )\n                            x = yueval( APPLY( fn, [ x ], []), env, depth + 1 )\n", "                            x = _each( arg, x, env, depth + 1 )\n")), (G, "@echo__eval_\ndef yueval(", "def _each( arg, x, env, depth ):\n    return yueval( APPLY( copy.deepcopy( arg ), [ x ], []), env, depth )\n\n#   ---\n@echo__eval_\ndef yueval(")]),
 ('eval emit pop', '', [(G, "                        result = val[ 0 ]\n                        del val[ 0 ]\n", "                        result = val.pop( 0 )\n")]),
 ('eval emit early', '', [(G, "                    if len( val ):\n                        result = val[ 0 ]\n                        del val[ 0 ]\n                    else:\n                        result = None\n", "                    result = None\n                    if val:\n                        result = val[ 0 ]\n                        del val[ 0 ]\n")]),
 ('eval emit helper', '', [(G, UPD, "                    _update( env, node.var, val )\n"), (G, "@echo__eval_\ndef yueval(", "def _update( env, var, val ):\n    env.update_variable( var.reg, var.atom, val )\n\n#   ---\n@echo__eval_\ndef yueval(")]),
 ('env copy loop', '', [(G, CPY, "        res = ENV( copy.deepcopy( self.parent, memo ))\n        for key in self.order:\n            res[ key ] = copy.deepcopy( self[ key ], memo )\n        return res\n")]),
 ('env copy xlocal', '', [(G, CPY, "        local = []\n        for key, val in self.xlocal():\n            local.append(( key, copy.deepcopy( val, memo )))\n        return ENV( copy.deepcopy( self.parent, memo ), local )\n")]),
 ('list copy deep', '', [(G, "class LIST( BASE_LIST ):", "class LIST( BASE_LIST ):\n    def __deepcopy__( self, memo = None ):\n        return LIST([ copy.deepcopy( x, memo ) for x in self ])\n")]),
 ('eval const always', '', [(G, CONST, CONST.replace("                    if isinstance( val, list ):\n#                       -- e.g. list from a script, ($emit) could change it\n                        val = ", "                    val = "))]),
 ('eval var noop', '', [(G, VAR, "                pass\n" + VAR)]),
 ('eval env name', '', [(G, "                val = env.lookup( node.reg, node.atom )\n                if val is NOT_FOUND:\n#   ---- VAR -- LATE", "                found = env.lookup( node.reg, node.atom )\n                val = found\n                if found is NOT_FOUND:\n#   ---- VAR -- LATE")]),
 ('eval tail recursion', '', [(G, "                env = env_l\n                node = node.form\n                # fall through -- yueval( node )\n", "                return yueval( node.form, env_l, depth + 1 )\n")]),
 ('eval cond recursion', '', [(G, "                node = node.leg_1 if node.cond else node.leg_0\n                # fall through -- yueval( node )\n", "                leg = node.leg_0\n                if node.cond:\n                    leg = node.leg_1\n                node = leg\n                # fall through -- yueval( node )\n")]),
 ('eval macro local', '', [(G, "                _macro = str( len( yushell.inclusion ) - 1 )\n                yushell.source[ _macro ] = ( node.decl, node.ast )\n                node = yuparse( _macro )\n", "                index = len( yushell.inclusion ) - 1\n                name = str( index )\n                yushell.source[ name ] = ( node.decl, node.ast )\n                tree = yuparse( name )\n                node = tree\n")]),
]
