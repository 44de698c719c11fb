"""C25: one edit each, and edits of scopes and applications that keep it"""
G = 'pp/yugen.py'
PLH = r"""re_PLACEHOLDER = re.compile( r'\(\$([-\w]+)\)' )"""
SETI = """        if key in self.order:
            self.order.remove( key )
        self.order.append( key )

        dict.__setitem__( self, key, value )
"""
LOOK = """        while env is not None:
            if env.__contains__( var ):
                return env.__getitem__( var )

            env = env.parent
"""
UPD = """        while env is not None:
            if env.__contains__( var ):
                dict.__setitem__( env, var, value )
                return var

            env = env.parent
"""
UNA = """        for key in self.order:
            if isinstance( self.__getitem__( key ), BOUND ):
                return key

        return NOT_FOUND
"""
EVL = """        for key in self.order:
            val = yueval( self.__getitem__( key ), env, depth )
            if result and not _is_term( val ):
                result = False
            dict.__setitem__( self, key, val )
        return result
"""
NAMED = "                        var, val = node.named.pop( 0 )\n                        if var in node.fn.env:"
REFUGE = """                        if var == __va_args__:
#   TODO: handle if refuge is not the last parameter...
                            val = LIST( node.args )
                            node.args = []
                        else:"""
LETS = """                        for i, var in enumerate( node.lval ):
                            if len( val ) > i:
                                env_l[ var ] = val[ i ]
                            else:
                                log.warn( 'there is nothing to assign to "%s"' % ( str( var )) + node.loc())
                                env_l[ var ] = None
"""
MZIP = "                , list( zip( node.pars, [ BOUND()] * len( node.pars )))), node.name ))])"
FILL = """                node.l_form = _substitute( node.l_form, [( str( var ), _plain_back( val )) for var, val in node.env.xlocal()])
"""
FMT = """                    values = [( str( i ), _plain( val )) for i, val in enumerate( node.args )]
                    values.extend(( str( var ), _plain( val )) for var, val in node.named )
                    return STR( _substitute( node.fn, values ))
"""
SUB = """    values = dict( reversed( values ))
    return re_PLACEHOLDER.sub( lambda mch : values.get( mch.group( 1 ), mch.group( 0 )), st )
"""
EACH = """                    for x in node.fn:
                        for arg in node.args:
                            fn = copy.deepcopy( arg )
                            x = yueval( APPLY( fn, [ x ], []), env, depth + 1 )
                        if x is not None:
                            lst.append( x )
                    return lst
"""
LCL = """                node.env.parent = env
                if node.env.unassigned() is not NOT_FOUND:"""
VARB = """                val = env.lookup( node.reg, node.atom )
                if val is NOT_FOUND:
#   ---- VAR -- LATE_BOUND"""
DFLT = "                        val = yueval( node.fn.default[ var ], env, depth + 1 )\n"
MORE = "                    if not node.named and not node.args and node.fn.env.unassigned() not in node.fn.default:\n"
ELAM = """                    if default is not None:
                        d_default[ var ] = yueval( default, env, depth + 1 )
"""
APS = "                    node.fn.env[ var ] = val\n"
SETC = "                node.env.parent = env\n                node.form = yueval( node.form, node.env, depth + 1 )\n"

MUTANTS = [
 ('order by front', 'C25', G, SETI, SETI.replace('self.order.append( key )', 'self.order.insert( 0, key )')),
 ('order twice', 'C25', G, SETI, SETI.replace("        if key in self.order:\n            self.order.remove( key )\n", '')),
 ('setitem outer', 'C25', G, SETI, SETI.replace('dict.__setitem__( self, key, value )', 'dict.__setitem__( self.parent if self.parent is not None and key in self.parent else self, key, value )')),
 ('lookup falsy', 'C25', G, LOOK, LOOK.replace('if env.__contains__( var ):', 'if env.get( var ):')),
 ('lookup None', 'C25', G, LOOK, LOOK.replace('if env.__contains__( var ):', 'if env.get( var ) is not None:')),
 ('lookup skips bound', 'C25', G, LOOK, LOOK.replace('env.__contains__( var )', 'env.__contains__( var ) and not isinstance( env.__getitem__( var ), BOUND )')),
 ('lookup outermost', 'C25', G, LOOK, LOOK.replace("                return env.__getitem__( var )\n", "                found = env.__getitem__( var )\n").replace("        while", "        found = NOT_FOUND\n        while") .replace("            env = env.parent\n", "            env = env.parent\n        return found\n")),
 ('lookup stops at an empty scope', 'C25', G, LOOK, LOOK.replace('while env is not None', 'while env')),
 ('update outermost', 'C25', G, UPD, UPD.replace("if env.__contains__( var ):", "if env.__contains__( var ) and ( env.parent is None or var not in env.parent ):")),
 ('update all', 'C25', G, UPD, UPD.replace("                return var\n", "")),
 ('update reorders', 'C25', G, UPD, UPD.replace("dict.__setitem__( env, var, value )", "env.order.remove( var )\n                dict.__setitem__( env, var, value )")),
 ('update here', 'C25', G, UPD, UPD.replace("dict.__setitem__( env, var", "dict.__setitem__( self, var")),
 ('unassigned last', 'C25', G, UNA, UNA.replace('in self.order', 'in reversed( self.order )')),
 ('unassigned sorted', 'C25', G, UNA, UNA.replace('in self.order', 'in sorted( self.order )')),
 ('unassigned falsy', 'C25', G, UNA, UNA.replace('isinstance( self.__getitem__( key ), BOUND )', 'not self.__getitem__( key ) or isinstance( self.__getitem__( key ), BOUND )')),
 ('eval_local stops', 'C25', G, EVL, EVL.replace('                result = False\n', '                return False\n')),
 ('eval_local setitem', 'C25', G, EVL, EVL.replace('in self.order', 'in list( self.order )').replace('dict.__setitem__( self, key, val )', 'self.__setitem__( key, val )').replace('        return result\n', '        self.order.sort()\n        return result\n')),
 ('eval_local scope', 'C25', G, EVL, EVL.replace(', env, depth', ', self, depth')),
 ('set last name', 'C25', G, "                        for var in node.lval:\n                            env_l[ var ] = val\n", "                        env_l[ node.lval[ 0 ]] = val\n"),
 ('set in place', 'C25', G, "                env_l = ENV( env )\n                if isinstance( node.lval, ATOM ):", "                env_l = env\n                if isinstance( node.lval, ATOM ):"),
 ('set without parent', 'C25', G, "                env_l = ENV( env )\n                if isinstance( node.lval, ATOM ):", "                env_l = ENV( env.parent )\n                if isinstance( node.lval, ATOM ):"),
 ('set off by one', 'C25', G, LETS, LETS.replace('val[ i ]', 'val[ i - 1 ]')),
 ('set short', 'C25', G, LETS, LETS.replace('len( val ) > i', 'len( val ) > i + 1')),
 ('set updates outer', 'C25', G, "#   ---- SET --> ENV\n                if isinstance( node, SET ):\n", "#   ---- SET --> ENV\n                if isinstance( node, SET ) and isinstance( node.lval, ATOM ):\n                    env.update_variable( None, node.lval, val )\n                if isinstance( node, SET ):\n"),
 ('builtin first', 'C25', G, VARB, "                if node.atom in builtin:\n                    return BUILTIN( node.atom, builtin[ node.atom ])\n" + VARB),
 ('builtin before globals', 'C25', G, VARB, VARB.replace('if val is NOT_FOUND:', 'if val is not NOT_FOUND and env.parent is not None and node.atom in builtin:\n                    return BUILTIN( node.atom, builtin[ node.atom ])\n                if val is NOT_FOUND:')),
 ('macro parameters reversed', 'C25', G, MZIP, MZIP.replace('zip( node.pars,', 'zip( node.pars[ ::-1 ],')),
 ('macro parameters sorted', 'C25', G, MZIP, MZIP.replace('zip( node.pars,', 'zip( sorted( node.pars ),')),
 ('macro filled wrongly', 'C25', G, FILL, FILL.replace('_plain_back( val )', '_plain_back( node.env[ node.env.order[ -1 ]] )')),
 ('macro filled partly', 'C25', G, FILL, FILL.replace('in node.env.xlocal()', 'in list( node.env.xlocal())[ :2 ]')),
 ('macro filled one by one', 'C25', G, FILL, """                for var, val in node.env.xlocal():
                    node.l_form = _substitute( node.l_form, [( str( var ), _plain_back( val ))])
"""),
 ('macro filled by replace', 'C25', G, FILL, """                for var, val in node.env.xlocal():
                    node.l_form = node.l_form.replace( '($' + str( var ) + ')', _plain_back( val ))
"""),
 ('format filled by replace', 'C25', G, SUB, """    for var, val in values:
        st = st.replace( '($' + var + ')', val )
    return st
"""),
 ('placeholder without dash', 'C25', G, PLH, PLH.replace('[-', '[')),
 ('placeholder with one sign', 'C25', G, PLH, PLH.replace('+', '')),
 ('named last', 'C25', G, NAMED, NAMED.replace('if var in node.fn.env', 'if var not in node.fn.env and env.lookup( None, var ) is not NOT_FOUND:\n                            val = yueval( val, env, depth + 1 )\n                        elif var in node.fn.env')),
 ('named ignored', 'C25', G, "                            raise TypeError( '%s: function has no parameter \"%s\"' % ( _callee(), str( var ))\n                            + var.loc())\n", "                            log.warn( '%s: function has no parameter \"%s\"' % ( _callee(), str( var )))\n                            continue\n"),
 ('named first unassigned', 'C25', G, "                            val = yueval( val, env, depth + 1 )\n                        else:\n                            raise TypeError( '%s: function", "                            val = yueval( val, env, depth + 1 )\n                            if len( node.named ) == 0:\n                                var = node.fn.env.unassigned() if node.fn.env.unassigned() is not NOT_FOUND else var\n                        else:\n                            raise TypeError( '%s: function"),
 ('positional before named', 'C25', G, "                    if node.named:\n                        var, val = node.named.pop( 0 )", "                    if node.named and not node.args:\n                        var, val = node.named.pop( 0 )"),
 ('refuge first only', 'C25', G, REFUGE, REFUGE.replace('LIST( node.args )', 'LIST( node.args[ :2 ])')),
 ('refuge reversed', 'C25', G, REFUGE, REFUGE.replace('LIST( node.args )', 'LIST( node.args[ ::-1 ])')),
 ('refuge any', 'C25', G, REFUGE, REFUGE.replace('if var == __va_args__:', 'if __va_args__ in node.fn.env:')),
 ('default wins', 'C25', G, MORE, "                    for key in node.fn.default:\n                        if not isinstance( node.fn.env[ key ], BOUND ) and len( node.fn.default ) > 1:\n                            node.fn.env[ key ] = node.fn.default[ key ]\n" + MORE),
 ('default of another', 'C25', G, DFLT, DFLT.replace('node.fn.default[ var ]', 'list( node.fn.default.values())[ 0 ]')),
 ('default early', 'C25', G, ELAM, ELAM + "                        env_l[ var ] = d_default[ var ]\n                        continue\n"),
 ('default of falsy', 'C25', G, ELAM, ELAM.replace('d_default[ var ]', 'd_default[ node.bound[ 0 ][ 1 ]]')),
 ('value to outer', 'C25', G, APS, "                    node.fn.env.parent = None\n                    ( env if var in env else node.fn.env )[ var ] = val\n                    node.fn.env[ var ] = val\n"),
 ('closure keeps its scope', 'C25', G, LCL, LCL.replace('node.env.parent = env', 'node.env.parent = node.env.parent or env.parent')),
 ('body in the scope of the caller', 'C25', G, "                env = node.env\n                node = node.l_form\n", "                env = node.env if node.late else node.env.parent\n                node = node.l_form\n"),
 ('set closure', 'C25', G, SETC, SETC.replace('node.env.parent = env', 'node.env.parent = env.parent')),
 ('format zero based', 'C25', G, FMT, FMT.replace('str( i )', 'str( i + 1 )')),
 ('format named by number', 'C25', G, FMT, FMT.replace('for var, val in node.named )', 'for var, ( _, val ) in zip([ x[ 0 ] for x in node.named ][ ::-1 ], node.named ))')),
 ('format drops the last', 'C25', G, FMT, FMT.replace("enumerate( node.args )", "enumerate( node.args[ :2 ])")),
 ('foreach reversed', 'C25', G, EACH, EACH.replace('for arg in node.args', 'for arg in node.args[ ::-1 ]')),
 ('foreach of empty', 'C25', G, EACH, EACH.replace('if x is not None', 'if x')),
 ('foreach prepends', 'C25', G, EACH, EACH.replace('lst.append( x )', 'lst.insert( 0, x )')),
 ('foreach nested', 'C25', G, EACH, EACH.replace("                        if x is not None:\n                            lst.append( x )\n", "                            if x is not None:\n                                lst.append( x )\n")),
]
REFACTORS = [
 ('r25 lookup loop', G, LOOK, """        while True:
            if var in env:
                return env[ var ]

            if env.parent is None:
                break
            env = env.parent
"""),
 ('r25 lookup recursive', G, LOOK, """        if var in env:
            return dict.get( env, var )
        if env.parent is not None:
            return env.parent.lookup( None, var )
"""),
 ('r25 update try', G, UPD, """        while env is not None:
            if var not in env:
                env = env.parent
                continue
            dict.update( env, { var: value })
            return var
"""),
 ('r25 unassigned gen', G, UNA, """        for key, value in self.xlocal():
            if not isinstance( value, BOUND ):
                continue
            return key
        return NOT_FOUND
"""),
 ('r25 unassigned next', G, UNA, "        return next(( key for key in self.order if isinstance( self[ key ], BOUND )), NOT_FOUND )\n"),
 ('r25 eval_local all', G, EVL, """        for key in list( self.order ):
            dict.__setitem__( self, key, yueval( self[ key ], env, depth ))
        return all([ _is_term( self[ key ]) for key in self.order ])
"""),
 ('r25 init items', G, "            for key, value in local:\n                self.__setitem__( key, value )\n", "            for item in local:\n                self[ item[ 0 ]] = item[ 1 ]\n"),
 ('r25 set split', G, LETS, """                        vals = list( val ) + [ None ] * max( 0, len( node.lval ) - len( val ))
                        for i in range( len( node.lval )):
                            if i >= len( val ):
                                log.warn( 'there is nothing to assign to "%s"' % ( str( node.lval[ i ])) + node.loc())
                            env_l[ node.lval[ i ]] = vals[ i ]
"""),
 ('r25 macro pars', G, MZIP, "                , [( par, BOUND()) for par in node.pars ]), node.name ))])"),
 ('r25 macro fill', G, FILL, """                pairs = []
                for var in list( node.env.order ):
                    pairs.append(( str( var ), _plain_back( node.env[ var ])))
                node.l_form = _substitute( node.l_form, pairs )
"""),
 ('r25 format loop', G, FMT, """                    pairs = []
                    for key, val in list( enumerate( node.args )) + list( node.named ):
                        pairs.append(( str( key ), _plain( val )))
                    return STR( _substitute( node.fn, pairs ))
"""),
 ('r25 substitute', G, SUB, """    table = {}
    for key, val in values:
        table.setdefault( key, val )

    def _value( mch ):
        key = mch.group( 1 )
        if key in table:
            return table[ key ]
        return mch.group( 0 )

    return re.sub( r'\\(\\$([A-Za-z0-9_-]+)\\)', _value, st )
"""),
 ('r25 substitute split', G, SUB, """    table = dict( reversed( values ))
    pieces = re_PLACEHOLDER.split( st )
    for i in range( 1, len( pieces ), 2 ):
        pieces[ i ] = table.get( pieces[ i ], '($%s)' % ( pieces[ i ]))
    return ''.join( pieces )
"""),
 ('r25 foreach helper', G, EACH, """                    for x in node.fn:
                        val = x
                        for i in range( len( node.args )):
                            val = yueval( APPLY( copy.deepcopy( node.args[ i ]), [ val ], []), env, depth + 1 )
                        if val is None:
                            continue
                        lst.append( val )
                    return lst
"""),
 ('r25 refuge', G, REFUGE, REFUGE.replace("                            val = LIST( node.args )\n                            node.args = []\n", "                            rest, node.args = node.args, []\n                            val = LIST( rest )\n")),
 ('r25 named', G, NAMED, "                        var, val = node.named[ 0 ]\n                        del node.named[ 0 ]\n                        if var in node.fn.env:"),
 ('r25 more', G, MORE, "                    rest = node.fn.env.unassigned()\n                    if not ( node.named or node.args or rest in node.fn.default ):\n"),
 ('r25 body', G, "                env = node.env\n                node = node.l_form\n", "                node, env = node.l_form, node.env\n"),
 ('r25 named order', G, "                            val = yueval( val, env, depth + 1 )\n                        else:\n                            raise TypeError( '%s: function has no parameter \"%s\"' % ( _callee(), str( var ))\n                            + var.loc())\n", "                        else:\n                            raise TypeError( '%s: function has no parameter \"%s\"' % ( _callee(), str( var ))\n                            + var.loc())\n                        val = yueval( val, env, depth + 1 )\n"),
]
