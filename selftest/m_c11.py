"""C11: messages of errors."""
Y = 'pp/yugen.py'
MUTANTS = [
    ('c11 location dropped in the parser', 'C11', Y, "raise SyntaxError( '%s: unclosed comment' % ( callee()) + sou.loc())", "raise SyntaxError( '%s: unclosed comment' % ( callee()))"),
    ('c11 tag dropped in the parser', 'C11', Y, "raise SyntaxError( '%s: unclosed comment' % ( callee()) + sou.loc())", "raise SyntaxError( 'unclosed comment' + sou.loc())"),
    ('c11 text after the location', 'C11', Y, "raise SyntaxError( '%s: function expected' % ( callee()) + sou.loc())", "raise SyntaxError( '%s: function expected' % ( callee()) + sou.loc() + ' or variable' )"),
    ('c11 location dropped in the evaluator', 'C11', Y, "raise TypeError( '%s: irreducible expression' % ( _callee()) + node.loc())", "raise TypeError( '%s: irreducible expression' % ( _callee()))"),
    ('c11 tag dropped in the evaluator', 'C11', Y, "raise TypeError( '%s: illegal parameters list' % ( _callee()) + bound_atom.loc())", "raise TypeError( 'illegal parameters list' + bound_atom.loc())"),
    ('c11 repr instead of a location', 'C11', Y, "raise TypeError( '%s: irreducible expression' % ( _callee()) + node.loc())", "raise TypeError( '%s: irreducible expression' % ( _callee()) + str( node ))"),
    ('c11 error of the parser located twice', 'C11', Y, "or not arg.startswith( 'yueval' ) and not arg.startswith( 'python' ) and not arg.startswith( 'ps_' )):", "or not arg.startswith( 'yueval' ) and not arg.startswith( 'python' )):"),
    ('c11 foreign error without a location', 'C11', Y, "or not arg.startswith( 'yueval' ) and not arg.startswith( 'python' ) and not arg.startswith( 'ps_' )):", "and not arg.startswith( 'yueval' ) and not arg.startswith( 'python' ) and not arg.startswith( 'ps_' )):"),
    ('c11 error without arguments', 'C11', Y, """        arg = e.args[ 0 ] if e.args else None
        if not isinstance( arg, str ) or not""", """        arg = e.args[ 0 ]
        if not isinstance( arg, str ) or not"""),
    ('c11 error with a number', 'C11', Y, "if not isinstance( arg, str ) or not arg.startswith( 'ps_' ) and not arg.startswith( 'python' ):", "if arg is None or not arg.startswith( 'ps_' ) and not arg.startswith( 'python' ):"),
    ('c11 errors of an evaluated text swallowed', 'C11', Y, """                raise_( e_type, 'python: %s' % ( e ) + node.loc(), tb )

#   ---- raised exception""", """                log.error( 'python: %s' % ( e ) + node.loc())
                return node

#   ---- raised exception"""),
    ('c11 text of the foreign error lost', 'C11', Y, "raise_( e_type, 'python: %s' % ( e ) + node.loc(), tb )", "raise_( e_type, 'python: %s' % ( e_type ) + node.loc(), tb )"),
    ('c11 type lost', 'C11', Y, """#   ---- raised exception
        else:
            raise_( e_type, e, tb )

#   ---------------------------------------------------------------------------
def ps_text""", """#   ---- raised exception
        else:
            raise SyntaxError( e )

#   ---------------------------------------------------------------------------
def ps_text"""),
    ('c11 import without a location', 'C11', Y, "raise_( e_type, 'ps_import_python: %s' % ( e ) + script.loc(), tb )", "raise_( e_type, 'ps_import_python: %s' % ( e ), tb )"),
    ('c11 import without a tag', 'C11', Y, "raise_( e_type, 'ps_import: %s' % ( e ) + lib.loc(), tb )", "raise_( e_type, '%s' % ( e ) + lib.loc(), tb )"),
    ('c11 import of a script swallowed', 'C11', Y, "raise_( e_type, 'ps_import_python: %s' % ( e ) + script.loc(), tb )", "log.warn( 'ps_import_python: %s' % ( e ) + script.loc())"),
    ('c11 creation unprotected', 'C11', Y, """        try:
            value = e_type( value )
        except Exception:                                                                                              #pylint: disable=broad-except
#           -- message is not enough to create the exception, e.g. UnicodeDecodeError
            value = RuntimeError( value )
""", """        value = e_type( value )
"""),
    ('c11 line of the beginning', 'C11', Y, "eol = sou.find( EOL, pos )", "eol = sou.find( EOL )"),
    ('c11 line off by one', 'C11', Y, "result += fmt % ( decl, len( lnlist ))", "result += fmt % ( decl, len( lnlist ) - 1 )"),
    ('c11 splitlines', 'C11', Y, "lnlist = sou[ :eol ].split( EOL )", "lnlist = sou[ :eol ].splitlines()"),
    ('c11 pointer off', 'C11', Y, "lnp = ' ' * ( pos - eol + len( ln )) + '^'", "lnp = ' ' * ( pos - eol + len( ln ) - 1 ) + '^'"),
    ('c11 first line shown', 'C11', Y, "ln = lnlist[ -1 ].lstrip()", "ln = lnlist[ 0 ].lstrip()"),
    ('c11 call of the macro not shown', 'C11', Y, "            result += _loc( call.input_file, call.pos, False )", "            pass"),
    ('c11 declaration of the macro not shown', 'C11', Y, "        result += _loc( decl.input_file, decl.pos, False )\n", ""),
    ('c11 position of APPLY', 'C11', Y, "_apply = APPLY( func, args, named, sou.input_file, pos )", "_apply = APPLY( func, args, named, sou.input_file, 0 )"),
    ('c11 place of INFIX without a file', 'C11', Y, "return ( rest[ 1: ], INFIX( leg, sou.input_file, sou.pos ))", "return ( rest[ 1: ], INFIX( leg, None, sou.pos ))"),
    ('c11 loc of the wrong thing', 'C11', Y, """    def loc( self ):
        return _loc( self.input_file, self.pos ) if self.input_file else _loc_repr( self )

#   ---------------------------------------------------------------------------
class BASE_STR""", """    def loc( self ):
        return _loc_repr( self )

#   ---------------------------------------------------------------------------
class BASE_STR"""),
    ('c11 tag of callee', 'C11', Y, "return inspect.getouterframes( inspect.currentframe())[ 1 ][ 1:4 ][ 2 ]", "return inspect.getouterframes( inspect.currentframe())[ 0 ][ 1:4 ][ 2 ]"),
]
REFACTORS = [
    ('c11 callee by stack', '', [(Y, "return inspect.getouterframes( inspect.currentframe())[ 1 ][ 1:4 ][ 2 ]", "return inspect.stack()[ 1 ][ 3 ]")]),
    ('c11 callee by frame', '', [(Y, "return inspect.getouterframes( inspect.currentframe())[ 1 ][ 1:4 ][ 2 ]", "return inspect.currentframe().f_back.f_code.co_name")]),
    ('c11 format', '', [(Y, "raise SyntaxError( '%s: function expected' % ( callee()) + sou.loc())", "raise SyntaxError( '{}: function expected{}'.format( callee(), sou.loc()))")]),
    ('c11 one format', '', [(Y, "raise SyntaxError( '%s: function expected' % ( callee()) + sou.loc())", "raise SyntaxError( '%s: function expected%s' % ( callee(), sou.loc()))")]),
    ('c11 message first', '', [(Y, "raise SyntaxError( '%s: function expected' % ( callee()) + sou.loc())", "message = callee() + ': function expected'\n        raise SyntaxError( message + sou.loc())")]),
    ('c11 tuple of tags', '', [(Y, "or not arg.startswith( 'yueval' ) and not arg.startswith( 'python' ) and not arg.startswith( 'ps_' )):", "or not arg.startswith(( 'yueval', 'python', 'ps_' ))):")]),
    ('c11 handler with a helper', '', [(Y, "if not isinstance( arg, str ) or not arg.startswith( 'ps_' ) and not arg.startswith( 'python' ):", "if not _is_tagged( arg ):"),
                                       (Y, "def yuparse( input_file ):", "def _is_tagged( arg ):\n    return isinstance( arg, str ) and ( arg.startswith( 'ps_' ) or arg.startswith( 'python' ))\n\n#   ---------------------------------------------------------------------------\ndef yuparse( input_file ):")]),
    ('c11 handler turned round', '', [(Y, """        if not isinstance( arg, str ) or not arg.startswith( 'ps_' ) and not arg.startswith( 'python' ):
            raise_( e_type, 'python: %s' % ( e ) + sou.loc(), tb )

#   ---- raised exception
        else:
            raise_( e_type, e, tb )
""", """        if isinstance( arg, str ) and ( arg.startswith( 'ps_' ) or arg.startswith( 'python' )):
#   ---- raised exception
            raise

        raise_( e_type, 'python: %s' % ( e ) + sou.loc(), tb )
""")]),
    ('c11 count of lines', '', [(Y, "result += fmt % ( decl, len( lnlist ))", "result += fmt % ( decl, sou.count( EOL, 0, eol ) + 1 )")]),
    ('c11 eol first', '', [(Y, """    eol = sou.find( EOL, pos )
    if eol == -1:
        eol = len( sou )
    lnlist""", """    end = sou.find( EOL, pos )
    eol = end if end >= 0 else len( sou )
    lnlist""")]),
    ('c11 import except as', '', [(Y, """    except:
        e_type, e, tb = sys.exc_info()
        raise_( e_type, 'ps_import_eval: %s' % ( e ) + infix.loc(), tb )
""", """    except:
        ( e_type, e, tb ) = sys.exc_info()
        message = 'ps_import_eval: %s' % ( e )
        raise_( e_type, message + infix.loc(), tb )
""")]),
    ('c11 fail helper', '', [(Y, "raise SyntaxError( '%s: function expected' % ( callee()) + sou.loc())", "_fail( callee(), 'function expected', sou )"),
                             (Y, "def yuparse( input_file ):", "def _fail( tag, what, sou ):\n    raise SyntaxError( '%s: %s' % ( tag, what ) + sou.loc())\n\n#   ---------------------------------------------------------------------------\ndef yuparse( input_file ):")]),
]
