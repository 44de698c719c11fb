"""C16: one edit each, written from the text of the property, and edits that keep it"""
I = '__init__.py'
CHK = "    try:\n        parse( code, fn_o )\n    except ( SyntaxError, ValueError ):\n#       -- e.g. null character (ValueError)\n        yutraceback.print_exc( 0 )\n        code = ''\n    return code\n"
MUTANTS = [
 ('not checked', 'C16', I, CHK, "    return code\n"),
 ('error returned', 'C16', I, "        yutraceback.print_exc( 0 )\n        code = ''\n", "        yutraceback.print_exc( 0 )\n"),
 ('ok ignored', 'C16', I, "    if not ok:\n        return ''\n", "    if not ok and not code:\n        return ''\n"),
 ('narrow', 'C16', I, "    except Exception:\n", "    except ( IOError, UnicodeError ):\n"),
 ('narrow check', 'C16', I, "    except ( SyntaxError, ValueError ):\n", "    except SyntaxError:\n"),
 ('source checked', 'C16', I, "        parse( code, fn_o )\n", "        parse( code.rstrip( '\\x00' ), fn_o )\n"),
 ('first line', 'C16', I, "        parse( code, fn_o )\n", "        parse( code.splitlines()[ 0 ], fn_o )\n"),
 ('returns none', 'C16', I, "    if not ok:\n        return ''\n", "    if not ok:\n        return None\n"),
 ('any prefix', 'C16', I, "        if len( coding ) != len( __pp_name__ ):\n#           -- wrong coding format\n            return None\n", ""),
 ('any dot', 'C16', I, "        if dot != len( __pp_name__ ):\n#           -- wrong coding format\n            return None\n", ""),
 ('unknown is utf8', 'C16', I, "        if basecodec is None:\n#           -- unknown <encoding>\n            return None\n", "        if basecodec is None:\n#           -- unknown <encoding>\n            basecodec = utf_8\n"),
 ('always utf8', 'C16', I, "        decode=decoder_factory( basecodec ),\n", "        decode=decoder_factory( utf_8 ),\n"),
 ('inc utf8', 'C16', I, "        incrementaldecoder=incremental_decoder_factory( basecodec ),\n", "        incrementaldecoder=incremental_decoder_factory( utf_8 ),\n"),
 ('not final', 'C16', I, "            if input and final:\n", "            if input:\n"),
 ('consumes', 'C16', I, "            return '', 0\n", "            return '', len( input )\n"),
 ('no bytes', 'C16', I, "    return decode_stream( fn, StringIO( read_header( fn ) + data )), bytesencoded\n", "    return decode_stream( fn, StringIO( read_header( fn ) + data )), len( data )\n"),
 ('errors dropped', 'C16', I, "basecodec.decode( input, errors )\n", "basecodec.decode( input, 'ignore' )\n"),
 ('encode utf8', 'C16', I, "        encode=basecodec.encode,\n", "        encode=utf_8.encode,\n"),
 ('contains', 'C16', I, "    if not coding.lower().startswith( __pp_name__ ):", "    if __pp_name__ not in coding.lower():"),
 ('rest of coding', 'C16', I, "coding[( dot + 1 ): ]", "coding[ dot: ]"),
 ('header only if missing', 'C16', I, "StringIO( read_header( fn ) + data )", "StringIO( read_header( fn ) or data )"),
 ('raw data', 'C16', I, "    except Exception:\n        yutraceback.print_exc( None )\n        ok = False\n", "    except Exception:\n        yutraceback.print_exc( None )\n        return _stream.getvalue()\n"),
 ('no print_exc', 'C16', 'pylib/yutraceback3.py', "def print_exc(", "def print_exception("),
]
REFACTORS = [
 ('codec early return', '', [(I, CHK, "    try:\n        parse( code, fn_o )\n    except ( SyntaxError, ValueError ):\n        yutraceback.print_exc( 0 )\n        return ''\n    return code\n")]),
 ('codec valid helper', '', [(I, CHK, "    return code if _valid( code, fn_o ) else ''\n"), (I, "def decode_stream(", "def _valid( code, fn ):\n    from ast import parse\n    from .pylib import yutraceback\n    try:\n        parse( code, fn )\n        return True\n    except ( SyntaxError, ValueError ):\n        yutraceback.print_exc( 0 )\n    return False\n\ndef decode_stream(")]),
 ('codec compile', '', [(I, "        parse( code, fn_o )\n", "        compile( code, fn_o, 'exec' )\n")]),
 ('codec partition', '', [(I, "    dot = coding.find( '.' )\n    if dot != -1:\n", "    dot = coding.find( '.' )\n    if '.' in coding:\n")]),
 ('codec incremental else', '', [(I, "            if input and final:\n                return decoder_factory( basecodec )( input, errors )\n\n#           -- we don't support incremental decoding\n            return '', 0\n", "            if not final or not input:\n                return '', 0\n            return decoder_factory( basecodec )( input, errors )\n")]),
 ('codec result tuple', '', [(I, "        data, bytesencoded = basecodec.decode( input, errors )\n        fn = argv[ 0 ]\n        return decode_stream( fn, StringIO( read_header( fn ) + data )), bytesencoded\n", "        res = basecodec.decode( input, errors )\n        fn = argv[ 0 ]\n        head = read_header( fn )\n        text = decode_stream( fn, StringIO( head + res[ 0 ]))\n        return ( text, res[ 1 ])\n")]),
 ('codec search else', '', [(I, "    if not coding.lower().startswith( __pp_name__ ):\n        return None\n", "    name = coding.lower()\n    if name[ :len( __pp_name__ )] != __pp_name__:\n        return None\n")]),
 ('codec regex', '', [(I, "        data, bytesencoded = basecodec.decode( input, errors )\n", "        pass\n        data, bytesencoded = basecodec.decode( input, errors )\n")]),
]
