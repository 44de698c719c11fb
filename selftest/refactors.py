"""Behaviour-preserving edits: every check has to stay quiet on each: (name, '', file, old, new)."""
Y = 'pp/yup.py'
G = 'pp/yugen.py'
REFACTORS = [
 ('backup early return', '', Y, "    if os.path.isfile( fn ):\n        fn_bak = fn + E_BAK\n        if os.path.isfile( fn_bak ):\n            os.chmod( fn_bak, stat.S_IWRITE )\n            os.remove( fn_bak )\n        os.rename( fn, fn_bak )", "    if not os.path.isfile( fn ):\n        return\n    fn_bak = '%s%s' % ( fn, E_BAK )\n    stale = os.path.isfile( fn_bak )\n    if stale:\n        os.chmod( fn_bak, stat.S_IWRITE )\n        os.unlink( fn_bak )\n    os.rename( fn, fn_bak )"),
 ('backup replace', '', Y, "        if os.path.isfile( fn_bak ):\n            os.chmod( fn_bak, stat.S_IWRITE )\n            os.remove( fn_bak )\n        os.rename( fn, fn_bak )", "        os.replace( fn, fn_bak )"),
 ('backup by exception', '', Y, "    if os.path.isfile( fn ):\n        fn_bak = fn + E_BAK\n        if os.path.isfile( fn_bak ):\n            os.chmod( fn_bak, stat.S_IWRITE )\n            os.remove( fn_bak )\n        os.rename( fn, fn_bak )", "    try:\n        os.rename( fn, fn + E_BAK )\n    except FileNotFoundError:\n        pass"),
 ('write helper', '', Y, "            shell_backup( fn_o )\n#           -- output file writing\n            shell_savetofile( fn_o, plain )\n            if shell.read_only:\n                os.chmod( fn_o, stat.S_IREAD )\n", "            _store( fn_o, plain )\n", ) if False else
 ('write helper', '', [(Y, "            shell_backup( fn_o )\n#           -- output file writing\n            shell_savetofile( fn_o, plain )\n            if shell.read_only:\n                os.chmod( fn_o, stat.S_IREAD )\n", "            _store( fn_o, plain )\n"), (Y, "def _pp_stream( _stream", "def _store( fn, text ):\n    shell_backup( fn )\n    shell_savetofile( fn, text )\n    if shell.read_only:\n        os.chmod( fn, stat.S_IREAD )\n\ndef _pp_stream( _stream")]),
 ('savetofile without with', '', Y, "    with open( fn, mode='w', encoding='utf8' ) as f:\n        f.write( text )\n", "    f = open( fn, 'w', encoding='utf8' )\n    try:\n        f.write( text )\n    finally:\n        f.close()\n"),
 ('inline backup', '', Y, "            shell_backup( fn_o )\n", "            fn_prev = fn_o + E_BAK\n            if os.path.isfile( fn_o ):\n                if os.path.isfile( fn_prev ):\n                    os.chmod( fn_prev, stat.S_IWRITE )\n                    os.remove( fn_prev )\n                os.rename( fn_o, fn_prev )\n"),
 ('pp_stream early failure', '', Y, "        ok, plain = _pp()\n        if ok:\n#           -- check if the name of output file is changed\n            if feedback.output_file:\n                fn_o = feedback.output_file\n", "        result = _pp()\n        ok, plain = result\n        if ok:\n            fn_o = feedback.output_file or fn_o\n"),
 ('noop statements', '', [(Y, "        text = _stream.read()\n", "        pass\n        text = _stream.read()\n"), (Y, "    if os.path.isfile( fn ):\n        fn_bak", "    None\n    if os.path.isfile( fn ):\n        fn_bak")]),
 ('failure helper', '', [(Y, "        log.critical( FAIL, type( e ).__name__, str( e ))\n        ok = False\n        plain = None\n", "        _report( e )\n        ok, plain = False, None\n"), (Y, "def _pp_stream( _stream", "def _report( err ):\n    log.critical( FAIL, type( err ).__name__, str( err ))\n\ndef _pp_stream( _stream")]),
 ('fn_o else branch', '', Y, "            if plain:\n#               -- plain contains AST (the output file itself can be called *.ast)\n                fn_ast = os.path.splitext( fn_o )[ 0 ] + E_AST\n                fn_o = fn_ast if fn_ast != fn_o else fn_o + E_AST\n#               -- output file writing\n                shell_savetofile( fn_o, plain )\n                log.warn( 'result was saved as AST file' )\n", "            if not plain:\n                return ( ok, plain, fn_o )\n            base, _ = os.path.splitext( fn_o )\n            fn_o = base + E_AST if base + E_AST != fn_o else fn_o + E_AST\n            shell_savetofile( fn_o, plain )\n            log.warn( 'result was saved as AST file' )\n"),
 ('cli sum', '', Y, "        f_failed = 0\n#       -- input files preprocessing\n        for path in args.files:\n            config.passage = 0\n            while True:\n                if not _pp_file( path ):\n                    f_failed += 1\n                    break\n                if not feedback.repeat:\n                    break\n                config.passage += 1\n\n        return f_failed << 2\n", "        return 4 * sum( 0 if _pp_all( path ) else 1 for path in args.files )\n") if False else
 ('cli helper', '', [(Y, "            config.passage = 0\n            while True:\n                if not _pp_file( path ):\n                    f_failed += 1\n                    break\n                if not feedback.repeat:\n                    break\n                config.passage += 1\n\n        return f_failed << 2\n", "            if not _pp_all( path ):\n                f_failed += 1\n\n        return f_failed * 4\n"), (Y, "def cli( arglist ):\n", "def _pp_all( path ):\n    config.passage = 0\n    while _pp_file( path ):\n        if not feedback.repeat:\n            return True\n        config.passage += 1\n    return False\n\ndef cli( arglist ):\n")]),
 ('deps loop flag', '', 'pp/yup.py', "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n#           -- if sources of dependencies are not changed...\n            if all( _getmtime( d ) < t for d in deps ):\n", "            fresh = True\n            t = os.path.getmtime( fn_o )\n            for d in cfg.get( 'dependency', []) + [ fn ]:\n                if _getmtime( d ) >= t:\n                    fresh = False\n            if fresh:\n"),
 ('deps loop break', '', 'pp/yup.py', "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n#           -- if sources of dependencies are not changed...\n            if all( _getmtime( d ) < t for d in deps ):\n", "            fresh = True\n            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n            for d in deps:\n                if not _getmtime( d ) < t:\n                    fresh = False\n                    break\n            if fresh:\n"),
 ('deps any', '', 'pp/yup.py', "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n#           -- if sources of dependencies are not changed...\n            if all( _getmtime( d ) < t for d in deps ):\n", "            deps = [ fn ] + list( cfg.get( 'dependency', []))\n            t = os.path.getmtime( fn_o )\n            if not any( _getmtime( d ) >= t for d in deps ):\n"),
 ('deps max', '', 'pp/yup.py', "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n#           -- if sources of dependencies are not changed...\n            if all( _getmtime( d ) < t for d in deps ):\n", "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n            if max( _getmtime( d ) for d in deps ) < t:\n"),
 ('deps source apart', '', 'pp/yup.py', "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n#           -- if sources of dependencies are not changed...\n            if all( _getmtime( d ) < t for d in deps ):\n", "            t = os.path.getmtime( fn_o )\n            if _getmtime( fn ) < t and all( _getmtime( d ) < t for d in cfg.get( 'dependency', [])):\n"),
 ('deps listcomp', '', 'pp/yup.py', "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n#           -- if sources of dependencies are not changed...\n            if all( _getmtime( d ) < t for d in deps ):\n", "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n            times = [ _getmtime( d ) for d in deps ]\n            if all( x < t for x in times ):\n"),
 ('deps helper', '', [('pp/yup.py', "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n            t = os.path.getmtime( fn_o )\n#           -- if sources of dependencies are not changed...\n            if all( _getmtime( d ) < t for d in deps ):\n", "            if _is_fresh( fn_o, cfg.get( 'dependency', []) + [ fn ]):\n"), ('pp/yup.py', 'def proc_stream(', 'def _is_fresh( fn_o, deps ):\n    t = os.path.getmtime( fn_o )\n    for d in deps:\n        if _getmtime( d ) >= t:\n            return False\n    return True\n\n#   ---------------------------------------------------------------------------\ndef proc_stream(')]),
 ('cache helper', '', [('pp/yup.py', "    if not cfg.get( 'force', False ) and os.path.isfile( fn_o ):", "    can_skip = os.path.isfile( fn_o ) and not cfg.get( 'force', False )\n    if can_skip:")]),
 ('force is', '', [('pp/yup.py', "    if not cfg.get( 'force', False ) and os.path.isfile( fn_o ):", "    force = cfg[ 'force' ] if 'force' in cfg else False\n    if force:\n        log.debug( 'forced' )\n    elif os.path.isfile( fn_o ):")]),
 ('reduce inverted', '', 'pp/yugen.py', '    if not config.pp_reduce_emptiness:\n        return text\n\n    if isinstance( text, RESULT ):\n        lnlist', '    enabled = config.pp_reduce_emptiness\n    if not enabled:\n        return text\n\n    if isinstance( text, RESULT ):\n        lnlist'),
 ('trim nested', '', 'pp/yugen.py', '        if not plain or not config.pp_trim_app_indent:\n            return plain\n\n        return self.indent.join( re_LINE.findall( dedent( plain )))', '        if plain and config.pp_trim_app_indent:\n            lines = re_LINE.findall( dedent( plain ))\n            return self.indent.join( lines )\n\n        return plain'),
 ('get_trimmed single', '', 'pp/yugen.py', '        st = str( self )\n\n        if config.pp_trim_app_indent and self.trim:\n#           -- delete spacing after SET or MACRO\n            return st.lstrip()\n\n        return st', '        if not ( config.pp_trim_app_indent and self.trim ):\n            return str( self )\n\n        return str( self ).lstrip()'),
 ('render helper', '', [('pp/yugen.py', 'return _plain_with_browse( t ) if config.pp_browse else _plain( t )', 'return _render( t )'), ('pp/yugen.py', 'def _list_to_bound( node ):', 'def _render( node ):\n    if config.pp_browse:\n        return _plain_with_browse( node )\n\n    return _plain( node )\n\n#   ---------------------------------------------------------------------------\ndef _list_to_bound( node ):')]),
 ('warn helper', '', [('pp/yugen.py', '                    if config.warn_unbound_application:\n                        log.warn( \'application of unbound atom "%s"\' % ( node.fn ) + node.fn.loc())\n', '                    _warn_unbound( node.fn )\n'), ('pp/yugen.py', 'def _list_to_bound( node ):', 'def _warn_unbound( fn ):\n    if not config.warn_unbound_application:\n        return\n    log.warning( \'application of unbound atom "%s"\' % ( fn ) + fn.loc())\n\n#   ---------------------------------------------------------------------------\ndef _list_to_bound( node ):')]),
 ('remark mode variable', '', 'pp/yugen.py', '        if yushell.pp_skip_comments == PP_SKIP_C_COMMENTS:\n#   ---- remark_c\n            ( sou, leg ) = ps_remark_c( sou, depth + 1 )\n            if leg is not None:\n                ast.append( leg )\n                continue\n        elif yushell.pp_skip_comments == PP_SKIP_PYTHON_COMMENTS:\n#   ---- remark_python\n            ( sou, leg ) = ps_remark_python( sou, depth + 1 )\n            if leg is not None:\n                ast.append( leg )\n                continue\n', '        mode = yushell.pp_skip_comments\n        leg = None\n        if mode == PP_SKIP_PYTHON_COMMENTS:\n#   ---- remark_python\n            ( sou, leg ) = ps_remark_python( sou, depth + 1 )\n        elif mode == PP_SKIP_C_COMMENTS:\n#   ---- remark_c\n            ( sou, leg ) = ps_remark_c( sou, depth + 1 )\n        if leg is not None:\n            ast.append( leg )\n            continue\n'),
 ('quiet helper', '', [('pp/yup.py', '        if not shell.quiet:\n            print( PP_O, PP_FILE % fn_o )\n            print( OK )\n', '        _say( PP_O, PP_FILE % fn_o )\n        _say( OK )\n'), ('pp/yup.py', 'def _pp_file( fn ):', 'def _say( *args ):\n    if not shell.quiet:\n        print( *args )\n\n#   ---------------------------------------------------------------------------\ndef _pp_file( fn ):')]),
 ('configure loop', '', Y, "    config.pp_skip_comments = cfg.get( 'pp_skip_comments', PP_SKIP_COMMENTS )\n    config.pp_trim_app_indent = cfg.get( 'pp_trim_app_indent', PP_TRIM_APP_INDENT )\n", "    for key, dflt in (( 'pp_skip_comments', PP_SKIP_COMMENTS ), ( 'pp_trim_app_indent', PP_TRIM_APP_INDENT )):\n        setattr( config, key, cfg.get( key, dflt ))\n"),
 ('configure in', '', Y, "    shell.read_only = cfg.get( 'read_only', READ_ONLY )\n", "    if 'read_only' in cfg:\n        shell.read_only = cfg[ 'read_only' ]\n    else:\n        shell.read_only = READ_ONLY\n"),
 ('configure get', '', [(Y, "    shell.read_only = cfg.get( 'read_only', READ_ONLY )\n", "    get = cfg.get\n    shell.read_only = get( 'read_only', READ_ONLY )\n")]),
 ('configure helper', '', [(Y, "    shell.read_only = cfg.get( 'read_only', READ_ONLY )\n", "    shell.read_only = _setting( cfg, 'read_only', READ_ONLY )\n"), (Y, "def _pp_configure( cfg ):", "def _setting( cfg, key, dflt ):\n    return cfg[ key ] if key in cfg else dflt\n\ndef _pp_configure( cfg ):")]),
 ('options loop', '', Y, "    argp.add_argument( '--pp-no-trim-app-indent', action = 'store_false', dest = 'pp_trim_app_indent' )\n    argp.add_argument( '--pp-trim-app-indent', action = 'store_true', dest = 'pp_trim_app_indent'\n    , help = PP_TRIM_APP_INDENT_HELP )\n", "    for opt, act in (( '--pp-no-trim-app-indent', 'store_false' ), ( '--pp-trim-app-indent', 'store_true' )):\n        argp.add_argument( opt, action = act, dest = 'pp_trim_app_indent', help = PP_TRIM_APP_INDENT_HELP )\n"),
 ('options helper', '', [(Y, "    argp.add_argument( '--pp-no-browse', action = 'store_false', dest = 'pp_browse' )\n    argp.add_argument( '--pp-browse', action = 'store_true', dest = 'pp_browse'\n    , help = PP_BROWSE_HELP )\n", "    _switch( argp, '--pp-%sbrowse', 'pp_browse', PP_BROWSE_HELP )\n"), (Y, "def shell_parse_cli_arguments( arglist ):", "def _switch( argp, opt, dest, text ):\n    argp.add_argument( opt % 'no-', action = 'store_false', dest = dest )\n    argp.add_argument( opt % '', action = 'store_true', dest = dest, help = text )\n\ndef shell_parse_cli_arguments( arglist ):")]),
 ('options list choices', '', Y, "choices = list( range( 1, 6 ))", "choices = [ 1, 2, 3, 4, 5 ]"),
 ('options partial', '', Y, "    argp.add_argument( '-d', action", "    add = argp.add_argument\n    add( '-d', action"),
 ('yuconfig loop', '', Y, "    if isinstance( context[ 'directory' ], list ):\n        cfg[ 'directory' ] = context[ 'directory' ]\n    if isinstance( context[ 'dependency' ], list ):\n        cfg[ 'dependency' ] = context[ 'dependency' ]\n    if isinstance( context[ 'pp_define' ], list ):\n        cfg[ 'pp_define' ] = context[ 'pp_define' ]\n", "    for k in ( 'directory', 'dependency', 'pp_define' ):\n        if isinstance( context[ k ], list ):\n            cfg[ k ] = context[ k ]\n"),
 ('yuconfig comp loop', '', Y, "    cfg = { k: val for k, val in list( context.items()) if isinstance( val, yuconfig_types )}\n", "    cfg = {}\n    for k, val in context.items():\n        if isinstance( val, yuconfig_types ):\n            cfg[ k ] = val\n"),
 ('yuconfig scripts loop', '', Y, "    _exec_yuconfig_script( '' + E_YUCFG, context )\n#   -- configuration for concrete source file\n    _exec_yuconfig_script( os.path.splitext( fn )[ 0 ] + E_YUCFG, context )\n", "    for base in ( '', os.path.splitext( fn )[ 0 ] ):\n        _exec_yuconfig_script( base + E_YUCFG, context )\n"),
 ('reset helper', '', [(G, "    builtin.clear()\n    builtin.update( _builtin_origin )\n", "    _reset_builtin()\n"), (G, "def _update_builtin_from_config():", "def _reset_builtin():\n    builtin.clear()\n    builtin.update( _builtin_origin )\n\ndef _update_builtin_from_config():")]),
 ('reset piecewise', '', G, "    builtin.clear()\n    builtin.update( _builtin_origin )\n", "    for k in list( builtin ):\n        del builtin[ k ]\n    for k, v in _builtin_origin.items():\n        builtin[ k ] = v\n"),
 ('yushell tuple', '', G, "    yushell.script = []\n    yushell.inclusion = []\n", "    yushell.script, yushell.inclusion = [], []\n"),
 ('yushell list call', '', G, "    yushell.hazard = []\n", "    yushell.hazard = list()\n"),
 ('yushell source loop', '', G, "    yushell.source = { SOURCE_EMPTY: ( '', '' ), yushell.input_file: ( _input, _unify_eol( text ))}\n", "    source = { SOURCE_EMPTY: ( '', '' )}\n    source[ yushell.input_file ] = ( _input, _unify_eol( text ))\n    yushell.source = source\n"),
 ('feedback inline', '', G, "    RESULT.clean()\n    feedback()\n", "    RESULT.files = {}\n    feedback.output_file = None\n    feedback.repeat = False\n"),
 ('directory rebuilt', '', G, "    yushell.directory = []\n", "    yushell.directory = list( [] )\n"),
 ('constant default', '', G, "def _list_to_bound( node ):", "def _list_to_bound( node, kinds = [ 'atom' ]):"),
 ('module table', '', G, "def _list_to_bound( node ):", "_BOUND_KINDS = { 'atom': 1 }\n\ndef _list_to_bound( node ):\n    _BOUND_KINDS.get( 'atom' )"),
 ('regex init eager', '', G, "    if yushell.output_python and not ps_string_python.initialized:\n", "    if not ps_string_python.initialized:\n"),
 ('cli passage variable', '', Y, "            config.passage = 0\n            while True:\n", "            config.passage = int( 0 )\n            while True:\n"),
]
