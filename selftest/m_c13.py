"""C13: one edit each after which a diagnostic setting changes what is translated, and edits that keep it out"""
G, Y = 'pp/yugen.py', 'pp/yup.py'
IN = "        trace__eval_in_( node, env, depth )\n        result = fn( node, env, depth )\n"
MUTANTS = [
    ('trace evaluates twice', 'C13', G, IN, "        trace__eval_in_( node, env, depth )\n        result = fn( fn( node, env, depth ) if trace.enabled else node, env, depth )\n"),
    ('fresh scope when traced', 'C13', G, IN, "        trace__eval_in_( node, env, depth )\n        if trace.enabled:\n            env = ENV( env )\n        result = fn( node, env, depth )\n"),
    ('deepest ends it', 'C13', G, "        if depth > trace.deepest:\n            trace.deepest = depth\n        trace__eval_in_", "        if depth > trace.deepest:\n            trace.deepest = depth\n        elif trace.deepest > 100:\n            return node\n        trace__eval_in_"),
    ('parser skips when traced', 'C13', G, "        trace__ps_( fn.__name__, sou, depth )\n        return fn( sou, depth )", "        trace__ps_( fn.__name__, sou, depth )\n        if trace.enabled:\n            sou = sou.lstrip()\n        return fn( sou, depth )"),
    ('representation trims', 'C13', G, "        return '%s(%s, %d, %d)' % ( self.__class__.__name__, repr( self.ast ), self.depth_pth_sq, self.depth_pth )", "        while self.ast and self.ast[ -1 ] == '':\n            self.ast.pop()\n        return '%s(%s, %d, %d)' % ( self.__class__.__name__, repr( self.ast ), self.depth_pth_sq, self.depth_pth )"),
    ('representation counts', 'C13', G, "        return '%s(%s, %s)' % ( self.__class__.__name__, dict.__repr__( self ), repr( self.parent ))", "        self.order.sort()\n        return '%s(%s, %s)' % ( self.__class__.__name__, dict.__repr__( self ), repr( self.parent ))"),
    ('result is what was traced', 'C13', Y, "            trace.info( plain )\n", "            plain = plain.rstrip()\n            trace.info( plain )\n"),
    ('syntax tree replaced', 'C13', Y, "            trace.info( repr( ast ))\n", "            ast = TEXT( ast )\n            trace.info( repr( ast ))\n"),
    ('traced to a file only', 'C13', Y, "        if TR2F:\n            trace.info( yushell.source[ yushell.input_file ][ 1 ])\n", "        if TR2F:\n            trace.info( yushell.source[ yushell.input_file ][ 1 ])\n            return True, ''\n"),
    ('traceback decides', 'C13', Y, "            msg += ''.join( traceback.format_tb( tb ))\n        msg += ''.join( traceback.format_exception_only( e_type, e ))\n        if TR2F:\n            trace.info( msg )\n        log.error( msg )\n        if trace.enabled:\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n        if TR2F:\n            trace.info( ___ )\n        return False, ''\n\n    if TR2F:",
     "            msg += ''.join( traceback.format_tb( tb ))\n            raise\n        msg += ''.join( traceback.format_exception_only( e_type, e ))\n        if TR2F:\n            trace.info( msg )\n        log.error( msg )\n        if trace.enabled:\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n        if TR2F:\n            trace.info( ___ )\n        return False, ''\n\n    if TR2F:"),
    ('level decides about browsing', 'C13', Y, "    config.pp_browse = cfg.get( 'pp_browse', PP_BROWSE )\n", "    config.pp_browse = cfg.get( 'pp_browse', PP_BROWSE ) and not cfg.get( 'trace_stage', TRACE_STAGE )\n"),
    ('level decides about comments', 'C13', Y, "    config.pp_browse = cfg.get( 'pp_browse', PP_BROWSE )\n", "    config.pp_browse = cfg.get( 'pp_browse', PP_BROWSE )\n    if cfg.get( 'trace_stage', TRACE_STAGE ):\n        config.pp_browse = False\n"),
    ('unused warning returns', 'C13', G, "                            log.warn( 'unused argument(s) %s' % ( repr( node.args )) + node.loc())\n", "                            log.warn( 'unused argument(s) %s' % ( repr( node.args )) + node.loc())\n                            if log.level > 30:\n                                return node.fn\n"),
    ('markers only when quiet', 'C13', Y, "            plain = replace_steady( reduce_emptiness( plain ))\n", "            plain = reduce_emptiness( plain )\n            if not trace.enabled:\n                plain = replace_steady( plain )\n"),
    ('bak kept by the trace', 'C13', Y, "    if TR2F:\n        trace.info( ___ )\n    return ( ok, plain )", "    if TR2F:\n        trace.info( ___ )\n        yushell.shrink = 0\n    return ( ok, plain )"),
    ('trace takes the text', 'C13', G, "        trace.info( _ast_pretty( repr( env )))\n", "        trace.info( _ast_pretty( repr( env.popitem() if env else env )))\n"),
    ('cut while traced', 'C13', G, "        trace.info( TR_PARSE % ( depth, name, repr( sou[ :TR_SLICE ])))\n", "        trace.info( TR_PARSE % ( depth, name, repr( sou[ :TR_SLICE ])))\n        sou.pos += 0\n"),
]
REFACTORS = [
    ('C13 early return', '', [(G, "    if trace.enabled:\n        trace.info( TR_PARSE % ( depth, name, repr( sou[ :TR_SLICE ])))", "    if not trace.enabled:\n        return\n    trace.info( TR_PARSE % ( depth, name, repr( sou[ :TR_SLICE ])))")]),
    ('C13 only called when on', '', [(G, IN + "        trace__eval_out_( result, depth )\n        return result\n", "        if not trace.enabled:\n            return fn( node, env, depth )\n        trace__eval_in_( node, env, depth )\n        result = fn( node, env, depth )\n        trace__eval_out_( result, depth )\n        return result\n")]),
    ('C13 local name', '', [(G, "    if trace.enabled:\n        trace.info( TR_EVAL_INPUT % ( depth, _ast_pretty( repr( node ))))\n        trace.info( _ast_pretty( repr( env )))", "    on = trace.enabled\n    if on:\n        text = _ast_pretty( repr( node ))\n        trace.info( TR_EVAL_INPUT % ( depth, text ))\n        trace.info( _ast_pretty( repr( env )))")]),
    ('C13 message helper', '', [(Y, "        if trace.enabled:\n            trace.info( plain )\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n", "        _trace_result( plain )\n"), (Y, "def _pp():", "def _trace_result( plain ):\n    if trace.enabled:\n        trace.info( plain )\n        trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n\n#   ---------------------------------------------------------------------------\ndef _pp():")]),
    ('C13 condition in yueval', '', [(G, "            if tr:\n#               -- trace eliminated tail recursion\n                trace__eval_in_( node, env, depth )\n            else:\n                tr = True\n", "            if tr and trace.enabled:\n                trace__eval_in_( node, env, depth )\n            tr = True\n")]),
    ('C13 max', '', [(G, "    if depth > trace.deepest:\n        trace.deepest = depth\n    if trace", "    trace.deepest = max( depth, trace.deepest )\n    if trace")]),
    ('C13 message list', '', [(Y, "        msg = '\\n'\n        arg = e.args[ 0 ] if e.args else None\n        if (( shell.traceback == TRACEBACK_ALL ) or\n            ( shell.traceback == TRACEBACK_PYTHON ) and isinstance( arg, str ) and arg.startswith( 'python' )):\n#           -- enabled traceback\n            msg += ''.join( traceback.format_tb( tb ))\n        msg += ''.join( traceback.format_exception_only( e_type, e ))\n        if TR2F:\n            trace.info( msg )\n        log.error( msg )\n        if trace.enabled:\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n        if TR2F:\n            trace.info( ___ )\n        return False, ''\n\n    if TR2F:", "        parts = [ '\\n' ]\n        arg = e.args[ 0 ] if e.args else None\n        full = shell.traceback == TRACEBACK_ALL\n        if full or shell.traceback == TRACEBACK_PYTHON and isinstance( arg, str ) and arg.startswith( 'python' ):\n            parts.extend( traceback.format_tb( tb ))\n        parts.extend( traceback.format_exception_only( e_type, e ))\n        msg = ''.join( parts )\n        if TR2F:\n            trace.info( msg )\n        log.error( msg )\n        if trace.enabled:\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n        if TR2F:\n            trace.info( ___ )\n        return False, ''\n\n    if TR2F:")]),
]
