"""One edit each, written from the text of the property: (name, property, file, old, new)."""
Y = 'pp/yup.py'
G = 'pp/yugen.py'
MUTANTS = [
 ('backup after write', 'C01', Y, "            shell_backup( fn_o )\n#           -- output file writing\n            shell_savetofile( fn_o, plain )\n", "            shell_savetofile( fn_o, plain )\n            shell_backup( fn_o )\n"),
 ('no backup', 'C01', Y, "            shell_backup( fn_o )\n", ""),
 ('backup of derived name only', 'C01', Y, "#           -- check if the name of output file is changed\n            if feedback.output_file:\n                fn_o = feedback.output_file\n#           -- output file backup\n            shell_backup( fn_o )\n", "            shell_backup( fn_o )\n            if feedback.output_file:\n                fn_o = feedback.output_file\n"),
 ('backup before translation', 'C01', [(Y, "            shell_backup( fn_o )\n", ""), (Y, "        text = _stream.read()\n", "        text = _stream.read()\n        shell_backup( fn_o )\n")]),
 ('backup failure ignored', 'C01', Y, "        os.rename( fn, fn_bak )", "        try:\n            os.rename( fn, fn_bak )\n        except OSError:\n            pass"),
 ('remove instead of backup', 'C01', Y, "        os.rename( fn, fn_bak )", "        os.remove( fn )"),
 ('backup only if not read-only', 'C01', Y, "            shell_backup( fn_o )\n", "            if shell.read_only:\n                shell_backup( fn_o )\n"),
 ('bak removed even without output', 'C01', Y, "    if os.path.isfile( fn ):\n        fn_bak = fn + E_BAK\n        if os.path.isfile( fn_bak ):\n            os.chmod( fn_bak, stat.S_IWRITE )\n            os.remove( fn_bak )\n", "    fn_bak = fn + E_BAK\n    if os.path.isfile( fn_bak ):\n        os.chmod( fn_bak, stat.S_IWRITE )\n        os.remove( fn_bak )\n    if os.path.isfile( fn ):\n"),
 ('ast saved over output', 'C01', Y, "                fn_o = fn_ast if fn_ast != fn_o else fn_o + E_AST\n", ""),
 ('ok without isinstance', 'C01', Y, "        ok = isinstance( plain, str )\n        if ok:", "        ok = plain is not None\n        if ok:"),
 ('eval error returns ok', 'C01', Y, "        return False, ''\n\n    if TR2F:", "        return bool( TR2F ), ''\n\n    if TR2F:"),
 ('backup skipped on repeat', 'C01', Y, "            shell_backup( fn_o )\n", "            if not config.passage:\n                shell_backup( fn_o )\n"),
 ('bak suffix by extension', 'C01', Y, "        fn_bak = fn + E_BAK\n", "        fn_bak = os.path.splitext( fn )[ 0 ] + E_BAK\n"),
 ('isfile inverted', 'C01', Y, "    if os.path.isfile( fn ):\n        fn_bak", "    if not os.path.isfile( fn ):\n        fn_bak"),

 ('ok marker before stream', 'C02', Y, "    ok, plain, fn_o = _pp_stream( f, fn, fn_o )\n    f.close()\n", "    print( OK )\n    ok, plain, fn_o = _pp_stream( f, fn, fn_o )\n    f.close()\n"),
 ('io error keeps ok', 'C02', Y, "        ok = False\n        plain = None\n\n    return ( ok, plain, fn_o )", "        plain = None\n\n    return ( ok, plain, fn_o )"),
 ('write after report', 'C02', Y, "            shell_savetofile( fn_o, plain )\n            if shell.read_only", "            if plain:\n                shell_savetofile( fn_o, plain )\n            if shell.read_only"),
 ('count only last', 'C02', Y, "                    f_failed += 1\n", "                    f_failed = 1\n"),
 ('stop at failure', 'C02', Y, "        return f_failed << 2\n", "            if f_failed:\n                break\n\n        return f_failed << 2\n"),
 ('shift 1', 'C02', Y, "        return f_failed << 2\n", "        return f_failed << 1\n"),
 ('failed repeat passes', 'C02', Y, "                if not _pp_file( path ):\n                    f_failed += 1\n                    break\n                if not feedback.repeat:", "                if not _pp_file( path ):\n                    f_failed += not config.passage\n                    break\n                if not feedback.repeat:"),
 ('main drops status', 'C02', '__main__.py', "    return cli( sys.argv[ 1: ])", "    cli( sys.argv[ 1: ])"),
 ('proc_file drops ok', 'C02', Y, "    return ( ok, fn_o )\n\n#   ---------------------------------------------------------------------------\ndef cli", "    return ( bool( fn_o ), fn_o )\n\n#   ---------------------------------------------------------------------------\ndef cli"),
 ('ast counts as ok', 'C02', Y, "                log.warn( 'result was saved as AST file' )\n", "                log.warn( 'result was saved as AST file' )\n                ok = True\n"),
 ('saves unreduced', 'C02', Y, "            shell_savetofile( fn_o, plain )\n            if shell.read_only", "            shell_savetofile( fn_o, text )\n            if shell.read_only"),
 ('savetofile swallows', 'C02', Y, "    with open( fn, mode='w', encoding='utf8' ) as f:\n        f.write( text )\n", "    try:\n        with open( fn, mode='w', encoding='utf8' ) as f:\n            f.write( text )\n    except IOError as e:\n        log.critical( FAIL, type( e ).__name__, str( e ))\n"),
 ('returned name derived', 'C02', Y, "    ok, data, fn_o = _pp_stream( _stream, fn, fn_o )\n    return ( ok, data, fn_o, yushell.shrink )", "    ok, data, _ = _pp_stream( _stream, fn, fn_o )\n    return ( ok, data, fn_o, yushell.shrink )"),

 ('parse handler narrowed', 'C03', Y, "        if trace.enabled:\n            trace.info( repr( ast ))\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n    except: ", "        if trace.enabled:\n            trace.info( repr( ast ))\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n    except ( SyntaxError, TypeError, NameError ): "),
 ('eval handler Exception', 'C03', Y, "            trace.info( plain )\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n    except: ", "            trace.info( plain )\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n    except Exception: "),
 ('handler indexes args', 'C03', Y, "        arg = e.args[ 0 ] if e.args else None\n", "        arg = e.args[ 0 ]\n"),
 ('handler startswith', 'C03', Y, "( shell.traceback == TRACEBACK_PYTHON ) and isinstance( arg, str ) and arg.startswith( 'python' )", "( shell.traceback == TRACEBACK_PYTHON ) and arg and arg.startswith( 'python' )"),
 ('unicode error escapes', 'C03', Y, "    except ( IOError, ValueError ) as e:", "    except IOError as e:"),
 ('no log when quiet', 'C03', Y, "            log.error( 'unable to translate input text into plain text' )", "            if not shell.quiet:\n                log.error( 'unable to translate input text into plain text' )"),
 ('not plain as warning', 'C03', Y, "            log.error( 'unable to translate input text into plain text' )", "            log.warn( 'unable to translate input text into plain text' )"),
 ('error to trace only', 'C03', Y, "        if TR2F:\n            trace.info( msg )\n        log.error( msg )\n", "        if TR2F:\n            trace.info( msg )\n        else:\n            log.error( msg )\n"),
 ('open failure exits', 'C03', Y, "        log.critical( FAIL, type( e ).__name__, str( e ))\n        return False\n", "        log.critical( FAIL, type( e ).__name__, str( e ))\n        sys.exit( 4 )\n"),
 ('repl ends at failure', 'C03', Y, "                _pp_test( test, False )\n", "                if not _pp_test( test, False ):\n                    break\n"),
 ('proc_file open uncaught', 'C03', Y, "    except IOError as e:\n#       -- e.g. file operation failure\n        log.critical( FAIL, type( e ).__name__, str( e ))\n        return ( False, None )", "    except FileNotFoundError as e:\n#       -- e.g. file operation failure\n        log.critical( FAIL, type( e ).__name__, str( e ))\n        return ( False, None )"),
 ('cache handler narrowed', 'C03', Y, "        except:                                                                                                        #pylint: disable=bare-except\n#           -- process input", "        except AttributeError:\n#           -- process input"),
 ('ast pass after handler', 'C03', [(Y, "            plain = make_ast_readable( plain )\n", "            pass\n"), (Y, "    if TR2F:\n        trace.info( ___ )\n    return ( ok, plain )", "    if not ok:\n        plain = make_ast_readable( plain )\n    if TR2F:\n        trace.info( ___ )\n    return ( ok, plain )")]),

 ('not strict', 'C04', Y, "_getmtime( d ) < t for d", "_getmtime( d ) <= t for d"),
 ('any', 'C04', Y, "if all( _getmtime", "if any( _getmtime"),
 ('source not compared', 'C04', Y, "            deps.append( fn )\n", ""),
 ('deps ignored', 'C04', Y, "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n", "            deps = [ fn ]\n"),
 ('missing dep is old', 'C04', Y, "        log.warn( 'unable to check dependency\\n%s: %s', type( e ).__name__, str( e ))\n        raise\n", "        log.warn( 'unable to check dependency\\n%s: %s', type( e ).__name__, str( e ))\n        return 0\n"),
 ('force ignored', 'C04', Y, "    if not cfg.get( 'force', False ) and os.path.isfile( fn_o ):", "    if os.path.isfile( fn_o ):"),
 ('only existing deps', 'C04', Y, "for d in deps ):", "for d in deps if os.path.isfile( d )):"),
 ('wrong direction', 'C04', Y, "_getmtime( d ) < t for d", "t < _getmtime( d ) for d"),
 ('only first dep', 'C04', Y, "for d in deps ):", "for d in deps[ -1: ]):"),
 ('compares bak', 'C04', Y, "t = os.path.getmtime( fn_o )", "t = os.path.getmtime( fn_o + E_BAK )"),
 ('force or', 'C04', Y, "not cfg.get( 'force', False ) and os.path", "not cfg.get( 'force', False ) or os.path"),
 ('integer times', 'C04', Y, "_getmtime( d ) < t for d", "int( _getmtime( d )) <= int( t ) for d"),
 ('dep default fn only', 'C04', Y, "            deps = cfg.get( 'dependency', [])\n", "            deps = cfg.get( 'dependencies', [])\n"),

 ('locale encoding', 'C19', Y, "    with open( fn, mode='w', encoding='utf8' ) as f:\n        f.write( text )", "    with open( fn, mode='w' ) as f:\n        f.write( text )"),
 ('utf8 sig', 'C19', Y, "    with open( fn, mode='w', encoding='utf8' ) as f:\n        f.write( text )", "    with open( fn, mode='w', encoding='utf-8-sig' ) as f:\n        f.write( text )"),
 ('update in place', 'C19', Y, "    with open( fn, mode='w', encoding='utf8' ) as f:\n        f.write( text )", "    with open( fn, mode='r+' if os.path.isfile( fn ) else 'w', encoding='utf8' ) as f:\n        f.write( text )"),
 ('request ignored on passage', 'C19', Y, "            if feedback.output_file:\n", "            if feedback.output_file and not config.passage:\n"),
 ('read only before write', 'C19', [(Y, "            if shell.read_only:\n                os.chmod( fn_o, stat.S_IREAD )\n", ""), (Y, "            shell_savetofile( fn_o, plain )\n            if isinst", "            if shell.read_only and os.path.isfile( fn_o ):\n                os.chmod( fn_o, stat.S_IREAD )\n            shell_savetofile( fn_o, plain )\n            if isinst")]),
 ('read only exec', 'C19', Y, "os.chmod( fn_o, stat.S_IREAD )", "os.chmod( fn_o, stat.S_IREAD | stat.S_IWUSR )"),
 ('read only derived name', 'C19', Y, "            if shell.read_only:\n                os.chmod( fn_o, stat.S_IREAD )\n", "            if shell.read_only and not feedback.output_file:\n                os.chmod( fn_o, stat.S_IREAD )\n"),
 ('read only only quiet', 'C19', Y, "            if shell.read_only:\n", "            if shell.read_only and not feedback.repeat:\n"),
 ('request relative to dir', 'C19', Y, "                fn_o = feedback.output_file\n", "                fn_o = os.path.join( shell.output_dir, feedback.output_file )\n"),
 ('chmod only plain', 'C19', [(Y, "            if shell.read_only:\n                os.chmod( fn_o, stat.S_IREAD )\n            if isinstance( plain, RESULT ):", "            if shell.read_only and not isinstance( plain, RESULT ):\n                os.chmod( fn_o, stat.S_IREAD )\n            if isinstance( plain, RESULT ):")]),

 ('reduce tail anyway', 'C06', G, "    if not config.pp_reduce_emptiness:\n        return text\n", "    if not config.pp_reduce_emptiness:\n        return text.rstrip() + EOL if text else text\n"),
 ('reduce without browse only', 'C06', G, "    if not config.pp_reduce_emptiness:\n        return text\n", "    if not config.pp_reduce_emptiness and not isinstance( text, RESULT ):\n        return text\n"),
 ('trim with browse ignores', 'C06', G, "        if not plain or not config.pp_trim_app_indent:\n            return plain\n\n        lnlist", "        if not plain:\n            return plain\n\n        lnlist"),
 ('trimmed plain', 'C06', G, "        st = str( self )\n\n        if config.pp_trim_app_indent and self.trim:", "        st = str( self )\n\n        if self.trim:"),
 ('trimmed plain or', 'C06', G, "        if config.pp_trim_app_indent and self.trim:\n#           -- delete spacing after SET or MACRO\n            return self[", "        if config.pp_trim_app_indent or self.trim:\n#           -- delete spacing after SET or MACRO\n            return self["),
 ('browse always', 'C06', G, "return _plain_with_browse( t ) if config.pp_browse else _plain( t )", "return _plain_with_browse( t ) if config.pp_browse or yushell.inclusion else _plain( t )"),
 ('json always', 'C06', Y, "            if isinstance( plain, RESULT ):\n#               -- browse writing", "            if getattr( plain, 'browse', None ) is not None:\n#               -- browse writing"),
 ('replace_steady RESULT', 'C06', G, "    if isinstance( text, RESULT ):\n        return RESULT( result, text.browse, text.offset )\n\n    return result", "    return RESULT( result, getattr( text, 'browse', None ), getattr( text, 'offset', None ))"),
 ('unbound always', 'C06', G, "                    if config.warn_unbound_application:\n", "                    if config.warn_unbound_application or node.fn in builtin:\n"),
 ('quiet prints ok', 'C06', Y, "        if not shell.quiet:\n            print( PP_O, PP_FILE % fn_o )\n            print( OK )\n", "        if not shell.quiet:\n            print( PP_O, PP_FILE % fn_o )\n        print( OK )\n"),
 ('quiet prints ast name', 'C06', Y, "                print( plain )\n            if not shell.quiet:\n                print( PP_O, PP_FILE % fn_o )\n    return ok", "                print( plain )\n            print( PP_O, PP_FILE % fn_o )\n    return ok"),
 ('remark c any', 'C06', G, "        if yushell.pp_skip_comments == PP_SKIP_C_COMMENTS:", "        if yushell.pp_skip_comments != PP_SKIP_PYTHON_COMMENTS:"),
 ('auto by input', 'C06', G, "PP_SKIP_PYTHON_COMMENTS if yushell.output_python else PP_SKIP_C_COMMENTS", "PP_SKIP_C_COMMENTS if yushell.output_python else PP_SKIP_PYTHON_COMMENTS"),
 ('auto also none', 'C06', G, "    if yushell.pp_skip_comments == PP_SKIP_COMMENTS_AUTO:", "    if yushell.pp_skip_comments in ( PP_SKIP_COMMENTS_AUTO, PP_SKIP_COMMENTS_NONE ):"),
 ('read only always on repeat', 'C06', Y, "            if shell.read_only:\n", "            if shell.read_only or feedback.repeat:\n"),

 ('browse from trim', 'C05', Y, "cfg.get( 'pp_browse', PP_BROWSE )", "cfg.get( 'pp_trim_app_indent', PP_BROWSE )"),
 ('browse default', 'C05', Y, "cfg.get( 'pp_browse', PP_BROWSE )", "cfg.get( 'pp_browse', PP_TRIM_APP_INDENT )"),
 ('keep former', 'C05', Y, "cfg.get( 'pp_define', [])", "cfg.get( 'pp_define', config.pp_define )"),
 ('read only kept', 'C05', Y, "    shell.read_only = cfg.get( 'read_only', READ_ONLY )\n", "    if 'read_only' in cfg:\n        shell.read_only = cfg[ 'read_only' ]\n"),
 ('traceback or', 'C05', Y, "cfg.get( 'traceback', TRACEBACK )", "cfg.get( 'traceback', TRACEBACK ) or TRACEBACK"),
 ('log scale', 'C05', Y, "log.setLevel( cfg.get( 'log_level', LOG_LEVEL ) * LOG_LEVEL__SCALE_ )", "log.setLevel( cfg.get( 'log_level', LOG_LEVEL * LOG_LEVEL__SCALE_ ))"),
 ('no twin sets true', 'C05', Y, "argp.add_argument( '--pp-no-browse', action = 'store_false'", "argp.add_argument( '--pp-no-browse', action = 'store_true'"),
 ('unbound dest', 'C05', Y, "'--warn-no-unbound-application', action = 'store_false'\n    , dest = 'warn_unbound_application' )", "'--warn-no-unbound-application', action = 'store_false'\n    , dest = 'warn_no_unbound_application' )"),
 ('define last', 'C05', Y, "'--pp-define', action = 'append', metavar", "'--pp-define', nargs = '*', metavar"),
 ('choices short', 'C05', Y, "choices = list( range( 1, 6 ))", "choices = list( range( 1, 5 ))"),
 ('defaults former', 'C05', Y, "    , pp_browse = PP_BROWSE\n", "    , pp_browse = config.pp_browse\n"),
 ('config order', 'C05', Y, "    _exec_yuconfig_script( '' + E_YUCFG, context )\n#   -- configuration for concrete source file\n    _exec_yuconfig_script( os.path.splitext( fn )[ 0 ] + E_YUCFG, context )\n", "    _exec_yuconfig_script( os.path.splitext( fn )[ 0 ] + E_YUCFG, context )\n    _exec_yuconfig_script( '' + E_YUCFG, context )\n"),
 ('define not through', 'C05', Y, "    if isinstance( context[ 'pp_define' ], list ):\n        cfg[ 'pp_define' ] = context[ 'pp_define' ]\n", ""),
 ('dependency as directory', 'C05', Y, "        cfg[ 'dependency' ] = context[ 'dependency' ]\n", "        cfg[ 'dependency' ] = context[ 'directory' ]\n"),
 ('type dict', 'C05', 'pp/yuconfig.py', "yuconfig_types = ( int, bool )", "yuconfig_types = ( bool, )"),
 ('configure once', 'C05', Y, "    _pp_configure( args.__dict__ )\n", "    if args.files:\n        _pp_configure( args.__dict__ )\n"),
 ("configure late", "C05", Y, "    _pp_configure( cfg )\n#   -- figure", "    if cfg.get( 'force', False ):\n        _pp_configure( cfg )\n#   -- figure"),
 ('default trim changed', 'C05', 'pp/yuconfig.py', "PP_TRIM_APP_INDENT = True", "PP_TRIM_APP_INDENT = False"),
 ('define shared default', 'C05', Y, "    , pp_define = []\n", "    , pp_define = config.pp_define\n"),
 ('first unreadable input', 'C03', Y, "#   -- nothing is deleted if the input text could not be read\n    yushell.shrink = 0\n", ""),

 ('builtin not reset', 'C07', G, "    builtin.clear()\n    builtin.update( _builtin_origin )\n", ""),
 ('builtin only updated', 'C07', G, "    builtin.clear()\n    builtin.update", "    builtin.update"),
 ('builtin reset if define', 'C07', G, "    builtin.clear()\n    builtin.update( _builtin_origin )\n", "    if config.pp_define:\n        builtin.clear()\n        builtin.update( _builtin_origin )\n"),
 ('script list kept', 'C07', G, "    yushell.script = []\n", "    yushell.script = getattr( yushell, 'script', [])\n"),
 ('source kept', 'C07', G, "    yushell.source = { SOURCE_EMPTY: ( '', '' ), yushell.input_file: ( _input, _unify_eol( text ))}\n", "    if not hasattr( yushell, 'source' ):\n        yushell.source = { SOURCE_EMPTY: ( '', '' ) }\n    yushell.source[ yushell.input_file ] = ( _input, _unify_eol( text ))\n"),
 ('feedback only once', 'C07', G, "    RESULT.clean()\n    feedback()\n", "    RESULT.clean()\n"),
 ('files kept', 'C07', G, "    RESULT.clean()\n    feedback()\n", "    feedback()\n"),
 ('feedback half', 'C07', G, "def feedback():\n    feedback.output_file = None\n    feedback.repeat = False\n\nfeedback()", "def feedback():\n    feedback.repeat = False\n\nfeedback.output_file = None\nfeedback()"),
 ('hazard kept', 'C07', [(G, "    yushell.hazard = []\n", ""), (G, "#   -- write trace into", "#   -- write trace into")]),
 ('inclusion module level', 'C07', [(G, "    yushell.inclusion = []\n", "    yushell.inclusion = _inclusion\n"), (G, "def yushell( text", "_inclusion = []\n\ndef yushell( text")]),
 ('unique memo', 'C07', G, "    'unique': lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set()),", "    'unique': lambda l, s=set() : LIST( x for x in l if not ( x in s or s.add( x ))),"),
 ('reversed in place', 'C07', G, "    'reversed': lambda val : val[ ::-1 ],", "    'reversed': lambda val : val.reverse() or val,"),
 ('import memo', 'C07', G, "def _import_source( lib, once ):", "_lib_cache = {}\n\ndef _import_source( lib, once ):\n    if lib in _lib_cache:\n        yushell.source[ lib ] = _lib_cache[ lib ]\n        return lib\n    _lib_cache[ lib ] = yushell.source.get( lib )\n"),
 ('ps default', 'C07', [(G, "def _list_to_bound( node ):", "def _list_to_bound( node, bound = []):"), (G, "        bound = []\n        for i in node:\n            if not isinstance( i, ATOM ):", "        for i in node:\n            if not isinstance( i, ATOM ):")]),
 ('script same module', 'C07', G, "        sys.modules.pop( name, None )\n", ""),
 ('shrink kept', 'C07', [(G, "    yushell.shrink = 0\n", ""), (Y, "    yushell.shrink = 0\n", "")]),
 ('passage kept', 'C07', Y, "    config.directory = cfg.get( 'directory', [])\n    config.passage = 0\n", "    config.directory = cfg.get( 'directory', [])\n"),
 ('env default filled', 'C07', G, "        node = L_CLOSURE( node.l_form, env_l, d_late, d_default )\n", "        node = L_CLOSURE( node.l_form, env_l, d_late, d_default )\n                env[ '$' ] = node\n"),
 ('directory insert', 'C07', G, "    yushell.directory.extend( config.directory )\n", "    sys.path.extend( config.directory )\n    yushell.directory.extend( config.directory )\n"),
 ('lru', 'C07', [(G, "def _unify_eol( st ):", "from functools import lru_cache\n@lru_cache( None )\ndef _resolve( lib ):\n    for d in yushell.directory:\n        lpath = os.path.join( d, lib )\n        if os.path.isfile( lpath ):\n            return lpath\n    return lib\n\ndef _unify_eol( st ):")]),
]
