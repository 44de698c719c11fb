From 40895c96f0f878b38436688c506ae582ea529c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 01/37] fix: pass the exit status on from the console script
 and module entry points

The number of failed files, documented as the exit status, was dropped by
main() and by the '__main__' modules, so every run ended with status 0.
---
 __main__.py    | 4 ++--
 pp/__main__.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/__main__.py b/__main__.py
index bb3893c..1850ffa 100644
--- a/__main__.py
+++ b/__main__.py
@@ -21,8 +21,8 @@ from .pp.yup import cli
 
 #   ---------------------------------------------------------------------------
 def main():
-    cli( sys.argv[ 1: ])
+    return cli( sys.argv[ 1: ])
 
 #   ---------------------------------------------------------------------------
 if __name__ == '__main__':
-    main()
+    sys.exit( main())
diff --git a/pp/__main__.py b/pp/__main__.py
index 5451dce..82903da 100644
--- a/pp/__main__.py
+++ b/pp/__main__.py
@@ -2,4 +2,4 @@ import sys
 from .yup import cli
 
 if __name__ == '__main__':
-    cli( sys.argv[ 1: ])
+    sys.exit( cli( sys.argv[ 1: ]))
-- 
2.43.0


From ddcbc640d8a0c7837331e66e4e878dd18e6fa53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 02/37] fix: report a file as failed if its output could not be
 written or its text not decoded

An OSError while writing left the result 'ok', so the file was reported as
translated; a UnicodeError while reading or writing was not caught at all and
ended the whole run with a traceback.
---
 pp/yup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index cd3f586..c4e983e 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -426,9 +426,11 @@ def _pp_stream( _stream, fn, fn_o ):
                 shell_savetofile( fn_o, plain )
                 log.warn( 'result was saved as AST file' )
 
-    except IOError as e:
+    except ( IOError, UnicodeError ) as e:
 #       -- e.g. file operation failure
         log.critical( FAIL, type( e ).__name__, str( e ))
+        ok = False
+        plain = None
 
     return ( ok, plain, fn_o )
 
-- 
2.43.0


From 16eb3830fbbe8166bcdc80e8cc2aeb619768e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 03/37] fix: log parser and evaluator errors also when tracing
 to stdout

With tracing enabled and no trace file the message went neither to the trace
nor to the log, so the translation failed without a word.
---
 pp/yup.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index c4e983e..f84181d 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -295,7 +295,6 @@ def _pp():
 #   ---------------
     trace.set_current( TRACE_STAGE_PARSE )
     TR2F = trace.enabled and trace.file
-    LOG = not trace.enabled or trace.file
 #   -- parse
     try:
         if TR2F:
@@ -317,8 +316,7 @@ def _pp():
         msg += ''.join( traceback.format_exception_only( e_type, e ))
         if TR2F:
             trace.info( msg )
-        if LOG:
-            log.error( msg )
+        log.error( msg )
         if trace.enabled:
             trace.info( trace.TEMPL_DEEPEST, trace.deepest )
         if TR2F:
@@ -328,7 +326,6 @@ def _pp():
 #   -- eval
     trace.set_current( TRACE_STAGE_EVAL )
     TR2F = trace.enabled and trace.file
-    LOG = not trace.enabled or trace.file
     try:
         plain = yueval( ast )
 
@@ -355,8 +352,7 @@ def _pp():
         msg += ''.join( traceback.format_exception_only( e_type, e ))
         if TR2F:
             trace.info( msg )
-        if LOG:
-            log.error( msg )
+        log.error( msg )
         if trace.enabled:
             trace.info( trace.TEMPL_DEEPEST, trace.deepest )
         if TR2F:
-- 
2.43.0


From 77101ec9ec1b44388e02022cd76f4349d3bd4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 04/37] fix: return the name of the output file that was
 actually written

proc_stream() and proc_file() returned the derived name even if the source
text had requested another one with ($set __OUTPUT_FILE__ ...).
---
 pp/yup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index f84181d..4c5b85f 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -537,7 +537,7 @@ def proc_stream( _stream, fn ):
 #           -- process input file in the usual way
             pass
 
-    ok, data, _ = _pp_stream( _stream, fn, fn_o )
+    ok, data, fn_o = _pp_stream( _stream, fn, fn_o )
     return ( ok, data, fn_o, yushell.shrink )
 
 #   ---------------------------------------------------------------------------
-- 
2.43.0


From 3e7dd0f3d7685dce0b05157f36e4e0b4547f074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 05/37] fix: do not remember the elements of former lists in
 ($unique)

The set of seen elements was a default argument shared by all calls.
---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 446cb7c..1097004 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2780,7 +2780,7 @@ builtin.update({
     'sum': sum,
     'TAB': lambda : STEADY_TAB,
     'typeof': lambda val : ATOM( val.__class__.__name__ ),
-    'unique': lambda l, s=set() : LIST( x for x in l if not ( x in s or s.add( x ))),
+    'unique': lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set()),
     'unq': _unq,
 })
 
-- 
2.43.0


From 96dce535b3f417b341d44d03b3d4d90bb5665637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 06/37] fix: make documented ($maketrans), ($translate),
 ($repeat) and ($atol) work on Python 3

The first and third did not exist there, the others used what exists in
Python 2 only.
---
 pp/yugen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 1097004..b235d04 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2720,15 +2720,17 @@ if 'lower' not in builtin:
         'rfind': lambda s, *args : s.rfind( *args ),
         'atof': lambda s : float( s ),
         'atoi': lambda s , base=10 : int( s, base ),
-        'atol': lambda s, base=10 : long( s, base ),
+        'atol': lambda s, base=10 : int( s, base ),
         'ljust': lambda s, width, *args : s.ljust( width, *args ),
         'rjust': lambda s, width, *args : s.rjust( width, *args ),
         'center': lambda s, width, *args : s.center( width, *args ),
         'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else repr( x ).zfill( width ),
         'expandtabs': lambda s, tabsize=8 : s.expandtabs( tabsize ),
-        'translate': lambda s, table, deletions="" : s.translate( table, deletions ) if deletions or table is None else s.translate( table + s[ :0 ]),
+        'maketrans': lambda x, y : ''.join( map( chr, range( 256 ))).translate( str.maketrans( str( x ), str( y ))),
+        'translate': lambda s, table, deletions='' : ''.join( x for x in s if x not in deletions ).translate( table ),
         'capitalize': lambda s : s.capitalize(),
-        'replace': lambda s, old, new, maxreplace=-1 : s.replace( old, new, maxreplace )
+        'replace': lambda s, old, new, maxreplace=-1 : s.replace( old, new, maxreplace ),
+        'repeat': lambda seq, i : seq * i
     })
 
 builtin.update( vars( operator ))
-- 
2.43.0


From a683b30d60e827d5a9c1c7273c02a9eef3cdff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 07/37] fix: forget names defined by a former input file in the
 same process

Names of Python scripts imported by one file, and constants defined in the
configuration of one file, stayed visible to all files processed after it.
---
 pp/yugen.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index b235d04..c0c0ea0 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2786,8 +2786,15 @@ builtin.update({
     'unq': _unq,
 })
 
+#   ---------------------------------------------------------------------------
+# -- the table without definitions of configuration and imported scripts
+_builtin_origin = dict( builtin )
+
 #   ---------------------------------------------------------------------------
 def _update_builtin_from_config():
+#   -- forget definitions of the previous run
+    builtin.clear()
+    builtin.update( _builtin_origin )
     for x in config.pp_define:
         pair = x.split( ':', 1 )
         rest, atom = ps_atom( pair[ 0 ].strip())
-- 
2.43.0


From d65105e25ca476f1fbfe75560f44135dfb17e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 08/37] fix: tell the source location of an unexpected end of
 file

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index c0c0ea0..d46c8b9 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1528,7 +1528,7 @@ def ps_plain( sou, pth_sq, pth, indent, depth = 0 ):
         symbol = _ord( sou, i )
 #   ---- ANY
         if symbol is None:
-            raise EOFError( '%s: unexpected EOF:' % ( callee()))
+            raise EOFError( '%s: unexpected EOF:' % ( callee()) + sou.loc())
 
         if symbol not in ps_ANY:
             raise SyntaxError( '%s: forbidden character' % ( callee()) + sou.loc())
@@ -2138,7 +2138,7 @@ def ps_string_python( sou, depth = 0 ):
         ln_start, ln_end = _getline( sou, ln_end )
         ln = sou[ ln_start:ln_end ]
         if not ln:
-            raise EOFError( '%s: unexpected EOF into multi-line string:' % ( callee()))
+            raise EOFError( '%s: unexpected EOF into multi-line string:' % ( callee()) + sou.loc())
 
         mch_tail = re_tail.match( ln )
         if mch_tail:
-- 
2.43.0


From 24cdc9cb3581a6f2f1a6a59bf0d04d4ba84fdd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 09/37] fix: accept octal literals with the traditional prefix
 and signed floats with spacing

Both match the grammar of a number, but the conversion failed on Python 3.
---
 pp/yugen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index d46c8b9..50e08eb 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -817,6 +817,8 @@ re_INT = re.compile( r"""
   | [1-9]\d*               #  decimal
 )[lL]?
 """, re.VERBOSE )
+#   ---- prefix of traditional octal number
+re_OCT_PREFIX = re.compile( r'^([+-]?)0(?=[0-7])' )
 #   ---- float
 re_FLOAT = re.compile( r'^[+-]? *(?:\d+(?:\.\d+))(?:[eE][+-]?\d+)?' )
 #   ---- string literal
@@ -2194,7 +2196,7 @@ def ps_number( sou, depth = 0 ):
     mch = re_FLOAT.match( sou )
     if mch:
         leg = mch.group( 0 )
-        return ( sou[ mch.end(): ], FLOAT( leg ))
+        return ( sou[ mch.end(): ], FLOAT( leg.replace( ' ', '' )))
 
 #   ---- integer
     mch = re_INT.match( sou )
@@ -2202,6 +2204,8 @@ def ps_number( sou, depth = 0 ):
         leg = mch.group( 0 )
         if leg[ -1 ] in [ 'l', 'L' ]:
             leg = leg[ :-1 ]
+#       -- Python 3 knows neither the traditional octal prefix nor spacing after the sign
+        leg = re_OCT_PREFIX.sub( r'\g<1>0o', ''.join( leg.split()))
         return ( sou[ mch.end(): ], INT( leg, 0 ))
 
     return ( sou, None )
-- 
2.43.0


From 78498a6bb490ba047b05bc982feff25c3fefb245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 10/37] fix: start every command line run from the default
 settings

---
 pp/yup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 4c5b85f..8ee672e 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -113,13 +113,13 @@ def shell_parse_cli_arguments( arglist ):
     )
     argp.add_argument( '--version', action = 'version', version = '%(app)s %(version)s' % { 'app': APP, 'version': VERSION })
     argp.add_argument( 'files', metavar = 'FILE', type = str, nargs = '*', help = "an input file" )
-    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = shell.quiet
+    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = QUIET
     , help = QUIET_HELP )
     argp.add_argument( '-d', action = 'append', metavar = 'DIR', dest = 'directory'
     , help = "an import directory" )
     argp.add_argument( '-o', '--output', metavar = 'DIR', dest = 'output_dir', default = ''
     , help = "an output directory" )
-    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = shell.read_only
+    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = READ_ONLY
     , help = READ_ONLY_HELP )
 #   -- preprocessor options
     argp.add_argument( '--pp-skip-comments', metavar = 'TYPE', type = int, dest = 'pp_skip_comments'
@@ -149,7 +149,7 @@ def shell_parse_cli_arguments( arglist ):
     argp.add_argument( '-b', '--traceback', metavar = 'TYPE', type = int, dest = 'traceback'
     , default = TRACEBACK, choices = list( range( 0, 3 ))
     , help = TRACEBACK_HELP )
-    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = shell.type_output
+    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = TYPE_OUTPUT
     , help = TYPE_OUTPUT_HELP )
     argp.add_argument( '-i', '--input', metavar = 'TEXT', type = str, dest = 'text', default = ''
     , help = "an input text (used by Web Console)" )
-- 
2.43.0


From 8c21722c69b7b805ff632aaef5c3b1d2e85d913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 11/37] fix: report an unreadable first input of a process as
 failed

---
 pp/yup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pp/yup.py b/pp/yup.py
index 8ee672e..337d21d 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -537,6 +537,8 @@ def proc_stream( _stream, fn ):
 #           -- process input file in the usual way
             pass
 
+#   -- nothing is deleted if the input text could not be read
+    yushell.shrink = 0
     ok, data, fn_o = _pp_stream( _stream, fn, fn_o )
     return ( ok, data, fn_o, yushell.shrink )
 
-- 
2.43.0


From 2a19adbfc27f8a2832cb9b5a77261ef058bfc99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 12/37] fix: start every run from the first passage

---
 pp/yup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yup.py b/pp/yup.py
index 337d21d..bd4e412 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -250,6 +250,7 @@ def _pp_configure( cfg ):
     config.pp_define = cfg.get( 'pp_define', [])
     config.warn_unbound_application = cfg.get( 'warn_unbound_application', WARN_UNBOUND_APPLICATION )
     config.directory = cfg.get( 'directory', [])
+    config.passage = 0
     shell.quiet = cfg.get( 'quiet', QUIET )
     shell.type_output = cfg.get( 'type_output', TYPE_OUTPUT )
     shell.output_dir = cfg.get( 'output_dir', '' )
-- 
2.43.0


From 9d9ccf139ad4c62374f7f29c59c48b395141dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 13/37] fix: do not keep names of a formerly imported script of
 the same name

---
 pp/yugen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 50e08eb..94b0fb6 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -902,6 +902,8 @@ def _import_python( name, script ):
             if os.path.isfile( lpath ):
                 break
     try:
+#       -- do not load into the module of a former script of the same name
+        sys.modules.pop( name, None )
         mod = imp.load_source( name, str( lpath ))
         builtin.update( vars( mod ))
     except:
-- 
2.43.0


From 5c9784aedec45d79354cdd968d91e94423b79a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 14/37] fix: provide print_exc() of yutraceback on Python 3 as
 well

---
 pylib/yutraceback3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index ce98dd2..dd9aa9b 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -156,6 +156,10 @@ class StackSummary(list):
         return result
 
 
+@functools.wraps(traceback.print_exc)
+def print_exc(limit=None, file=None):
+    traceback.print_exc(limit, file)
+
 @functools.wraps(sys.excepthook)
 def excepthook(etype, value, tb):
     if issubclass(etype, KeyboardInterrupt):
-- 
2.43.0


From b37bb95be199159ad6d2260d3aa73ff85bdf2c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 15/37] fix: report generated code with a null character as
 invalid

---
 __init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/__init__.py b/__init__.py
index c5ccd7c..5692b19 100644
--- a/__init__.py
+++ b/__init__.py
@@ -69,7 +69,8 @@ def decode_stream( fn, _stream ):
 #   -- check syntax of the preprocessed code
     try:
         parse( code, fn_o )
-    except SyntaxError:
+    except ( SyntaxError, ValueError ):
+#       -- e.g. null character (ValueError)
         yutraceback.print_exc( 0 )
         code = ''
     return code
-- 
2.43.0


From f74992c23dd888a8ed89d885caad0efd98c92617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:47 +0000
Subject: [PATCH 16/37] fix: figure out the output name after the configuration
 is set

---
 pp/yup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index bd4e412..752d53c 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -514,11 +514,11 @@ def proc_stream( _stream, fn ):
     """
 #   -- read shebang and magic comment again
     _stream.seek( 0 )
-#   -- figure out a name for output file
-    fn_o = _output_fn( fn )
-
     cfg = shell_parse_yuconfig( fn )
     _pp_configure( cfg )
+#   -- figure out a name for output file
+#   -- (depends on the configuration, which a former run could have changed)
+    fn_o = _output_fn( fn )
 #   -- check that we can skip re-preprocessing
     if not cfg.get( 'force', False ) and os.path.isfile( fn_o ):
         try:
-- 
2.43.0


From 2a18b1763734d10382b9238f4c9ea47ef67dda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 17/37] fix: do not turn the letters U+00FE and U+00FF of a
 text into a space and a tab

---
 pp/yugen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 94b0fb6..1dc0336 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2656,8 +2656,9 @@ class SKIP( BASE_MARK ):
 #   -----------------------------------
 
 SOURCE_EMPTY = '<null>'
-STEADY_SPACE = '\xFE'
-STEADY_TAB = '\xFF'
+#   -- Unicode noncharacters, no text contains them (unlike e.g. U+00FE and U+00FF)
+STEADY_SPACE = '\uFDD0'
+STEADY_TAB = '\uFDD1'
 
 #   ---------------------------------------------------------------------------
 def yushell( text, _input = None, _output = None ):
-- 
2.43.0


From 3c1cce6c5949a3957fc1b5093dfb8789f69a5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 18/37] fix: turn markers of ($SPACE) and ($TAB) into
 characters in ($q), ($qs) and ($print)

---
 pp/yugen.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 1dc0336..7d61929 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2701,9 +2701,17 @@ _title_template_python = """#  %(output)s was generated by %(app)s %(version)s
 
 #   ---------------------------------------------------------------------------
 def _print( s ):
-    sys.stdout.write( s )
+    sys.stdout.write( replace_steady( s ))
     sys.stdout.flush()
 
+#   ---------------------------------------------------------------------------
+def _repr( val ):
+    result = repr( val )
+#   -- keep markers of protected space and tab
+    for x in ( STEADY_SPACE, STEADY_TAB ):
+        result = result.replace( repr( x ).strip( "u'" ), x )
+    return result
+
 #   ---------------------------------------------------------------------------
 builtin = dict()
 builtin.update( vars( string ))
@@ -2775,8 +2783,8 @@ builtin.update({
     'or': operator.or_,
     'ord': lambda val : ord( val ) if isinstance( val, STR ) else ord( str( val )),
     'print': lambda *l : _print( ' '.join(( _unq( x ) if isinstance( x, STR ) else str( x )) for x in l )),
-    'q': lambda val : STR( '"%s"' % codecs.unicode_escape_encode( str( val ))[ 0 ].decode()),
-    'qs': lambda val : STR( "'%s'" % codecs.unicode_escape_encode( str( val ))[ 0 ].decode()),
+    'q': lambda val : STR( '"%s"' % codecs.unicode_escape_encode( replace_steady( str( val )))[ 0 ].decode()),
+    'qs': lambda val : STR( "'%s'" % codecs.unicode_escape_encode( replace_steady( str( val )))[ 0 ].decode()),
     'range': lambda *l : LIST( list( range( *l ))),
     'reversed': lambda val : val[ ::-1 ],
     're-split': lambda regex, val : LIST([ x for x in re.split( regex, val ) if x is not None ]),
@@ -2819,7 +2827,7 @@ builtin_special.update({
     'lazy': lambda val : LIST( LAZY( x ) for x in val ) if isinstance( val, list ) else LAZY( val ),
     'skip': SKIP(),
     'reduce': reduce,
-    'repr': repr,
+    'repr': _repr,
 })
 
 #   ---------------------------------------------------------------------------
-- 
2.43.0


From 3a8ea994f8e8d5a679405ea8714a658b90dd9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 19/37] fix: return a copy of the value from ($emit), so that
 using it does not change the variable

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 7d61929..374c6f4 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3711,7 +3711,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                     else:
                         result = None
                 else:
-                    result = val
+                    result = copy.deepcopy( val )
 
                 if node.ast:
                     val = yueval( APPLY( node.ast, [ val ], []), env, depth + 1 )
-- 
2.43.0


From a8322ee61b5c89480691e4f108539745ac815e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 20/37] fix: do not change a list of a script by using it

---
 pp/yugen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 374c6f4..0a299be 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3291,6 +3291,9 @@ def yueval( node, env = ENV(), depth = 0 ):
                         + node.fn.atom.loc())
 
                     val = node.fn.fn
+                    if isinstance( val, list ):
+#                       -- e.g. list from a script, ($emit) could change it
+                        val = copy.deepcopy( val )
                     return str( val ) if isinstance( val, native_str ) else val
 
 #   ---- APPLY -- int | float (subscripting)
@@ -3686,6 +3689,9 @@ def yueval( node, env = ENV(), depth = 0 ):
                 try:
                     code = compile( node.tree, '', 'eval' )
                     val = eval( code, dict( globals(), **builtin ), node.env )                                        #pylint: disable=eval-used
+                    if isinstance( val, list ):
+#                       -- e.g. list from a script, ($emit) could change it
+                        val = copy.deepcopy( val )
                     return str( val ) if isinstance( val, native_str ) else val
 
                 except:
-- 
2.43.0


From 7cb5644b60f144f33c22f61ede7d58c1595d881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 21/37] fix: joining rendered texts does not change the browse
 data of the parts

RESULT.add_text appended to the lists of its left operand; for a list that
holds the same text twice it never ended, as it walked the list it extended.
---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 0a299be..e026afa 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2968,8 +2968,8 @@ class RESULT( str ):
 #   -----------------------------------
     def add_text( self, other ):
         if other:
-            browse = self.browse
-            offset = self.offset
+            browse = list( self.browse )
+            offset = list( self.offset )
             l = len( self )
             base = offset[ -1 ][ 1 ] if offset else 0
             for p, val in other.offset:
-- 
2.43.0


From 8e2b9485eed8486864ac0047c8c95bfc5070fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 22/37] fix: a hexadecimal number with a doubled long suffix
 raised ValueError

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index e026afa..b092657 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -810,7 +810,7 @@ ps_EMBED = '*'
 #   ---- integer number
 re_INT = re.compile( r"""
 ^[+-]?[ \t]*(?:
-    0[xX][\da-fA-F]+[lL]?  #  hexadecimal
+    0[xX][\da-fA-F]+       #  hexadecimal
   | 0[bB][01]+             #  binary
   | 0[oO][0-7]+            #  octal
   | 0[0-7]*                #  octal
-- 
2.43.0


From 9ccab2d0724a4ee80a60eb50260a3a313594428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 23/37] fix: the magic comment was garbled when 'yupp.' was
 capitalised or appeared earlier in it

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index b092657..9af43aa 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1495,7 +1495,7 @@ def ps_header_python( sou, depth = 0 ):
                     return ( rest, header )
 
 #               -- delete 'yupp.' from a magic comment
-                i = leg.find( ps_CODING )
+                i = mch.start( 1 ) + 1 - l_CODING
                 header.extend(( REMARK( leg[ :i ]), REMARK( leg[( i + l_CODING ): ])))
                 return ( rest, header )
 
-- 
2.43.0


From d75ee0e28197035a215775a37094c00afbc069f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 24/37] fix: a C literal with a line continued by a backslash
 was not recognised

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 9af43aa..67a355a 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -822,9 +822,9 @@ re_OCT_PREFIX = re.compile( r'^([+-]?)0(?=[0-7])' )
 #   ---- float
 re_FLOAT = re.compile( r'^[+-]? *(?:\d+(?:\.\d+))(?:[eE][+-]?\d+)?' )
 #   ---- string literal
-re_STR = re.compile( r'^"(?:\\.|[^\\"])*"' )
+re_STR = re.compile( r'^"(?:\\.|[^\\"])*"', re.DOTALL )
 #   ---- character literal
-re_CHR = re.compile( r"^'(?:\\.|[^\\'])*'" )
+re_CHR = re.compile( r"^'(?:\\.|[^\\'])*'", re.DOTALL )
 #   ---- coding (Python)
 re_CODING = re.compile( r'coding[:=][ \t]*yupp(\.[-_a-zA-Z0-9]+)?(?:\W|$)', re.IGNORECASE )
 ps_CODING = 'yupp.'
-- 
2.43.0


From 8b37ae76aed7415dec89a14b47dc54119bc4e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 25/37] fix: a default of a late bound parameter was dropped
 silently (the grammar does not allow one)

---
 pp/yugen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 67a355a..7163d0c 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1667,6 +1667,9 @@ def ps_lambda( sou, depth = 0 ):
                     raise SyntaxError( '%s: "." expected' % ( callee()) + sou.loc())
 #   ---- ..
                 if sou[ :2 ] == '..':
+                    if form is not None:
+                        raise SyntaxError( '%s: late bound with default' % ( callee()) + sou.loc())
+
                     late.append( leg )
 #   ---- gap
                     ( sou, _ ) = ps_gap( sou[ 2: ], depth + 1 )
-- 
2.43.0


From d41d3c85a4752fe6214d9cee827373b27b69f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 26/37] fix: a Python source that ends with its header was not
 translated

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 7163d0c..077c25a 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -562,8 +562,7 @@ class TEXT( BASE_OBJECT ):
 
 #   -----------------------------------
     def extend_text( self, pos, lst ):
-        if self.ast:
-            self.ast[ pos:pos ] = lst
+        self.ast[ pos:pos ] = lst
 
 #   ---------------------------------------------------------------------------
 class VAR( BASE_OBJECT ):
@@ -959,6 +958,7 @@ def yuparse( input_file ):
             ( sou, header ) = ps_header_python( sou, 0 )
 
 #   ---- text
+        ast = TEXT([])
         text = ps_text( sou, 0 )
         while sou:
             ( sou, ast ) = next( text )
-- 
2.43.0


From b2a726a61499dd979fc2742c6a6e44a04443d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 27/37] fix: the names of an embedded expression were evaluated
 in the order of their hashes

---
 pp/yugen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 077c25a..5d5090b 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2632,11 +2632,13 @@ class INFIX_VISITOR( NodeVisitor ):
     """
 #   -----------------------------------
     def __init__( self ):
-        self.names = set()
+#       -- in order of appearance (order of evaluation)
+        self.names = []
 
 #   -----------------------------------
     def visit_Name( self, node ):
-        self.names.add( node.id )
+        if node.id not in self.names:
+            self.names.append( node.id )
 
 #   ---------------------------------------------------------------------------
 class LAZY( BASE_OBJECT, CAPTION ):
-- 
2.43.0


From ada31b12cc73dcf55c448e1965f4d417405bd33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 28/37] fix: the message and the location of an error were lost
 when its type needs more than a message (e.g. UnicodeDecodeError)

---
 pp/yugen.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 5d5090b..8322d5b 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -23,7 +23,7 @@ from builtins import zip
 from builtins import range
 from builtins import object
 from builtins import int
-from future.utils import raise_
+from future.utils import raise_ as _raise
 from future.utils import native_str
 import sys
 import os
@@ -84,6 +84,17 @@ APP_DELIMIT = ' <-- '
 def callee():
     return inspect.getouterframes( inspect.currentframe())[ 1 ][ 1:4 ][ 2 ]
 
+#   ---------------------------------------------------------------------------
+def raise_( e_type, value, tb ):
+    if not isinstance( value, e_type ):
+        try:
+            value = e_type( value )
+        except Exception:                                                                                              #pylint: disable=broad-except
+#           -- message is not enough to create the exception, e.g. UnicodeDecodeError
+            value = RuntimeError( value )
+
+    _raise( type( value ), value, tb )
+
 #   ---------------------------------------------------------------------------
 def _create_logger( name, handler, _format ):
     l = logging.getLogger( name )
-- 
2.43.0


From c7d60e0cad486ecb9137fcfabd6ed3b6ae853c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 29/37] fix: errors after a form feed or on an empty line were
 reported with a wrong line

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 8322d5b..abf3767 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -244,7 +244,7 @@ def _loc( input_file, pos, pointer = True ):
     eol = sou.find( EOL, pos )
     if eol == -1:
         eol = len( sou )
-    lnlist = sou[ :eol ].splitlines()
+    lnlist = sou[ :eol ].split( EOL )
     result += fmt % ( decl, len( lnlist ))
     ln = lnlist[ -1 ].lstrip() if lnlist else '<not found>'
     result += LOC_LINE % ( ln )
-- 
2.43.0


From 3977ee4e821eb15ab28ecae00291045879747dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 30/37] fix: coro-quit makes its own label as coro-yield and
 coro-wait do

---
 lib/coroutine.yu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/coroutine.yu b/lib/coroutine.yu
index be885d4..8aa2a86 100644
--- a/lib/coroutine.yu
+++ b/lib/coroutine.yu
@@ -102,6 +102,7 @@ enum {
 
 ($macro coro-quit ()($do ]
 	/* quit */
+	($set __label (L__($emit __label_iter inc)))
 	*co_p = &&($__label);
 
 	($__label):
-- 
2.43.0


From 7246b5edf895fdaf86038478bd388f6a23a89961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 31/37] fix: an unreduced result is not written over an output
 file called *.ast

---
 pp/yup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 752d53c..a3a4c76 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -417,8 +417,9 @@ def _pp_stream( _stream, fn, fn_o ):
                     })))
         else:
             if plain:
-#               -- plain contains AST
-                fn_o = os.path.splitext( fn_o )[ 0 ] + E_AST
+#               -- plain contains AST (the output file itself can be called *.ast)
+                fn_ast = os.path.splitext( fn_o )[ 0 ] + E_AST
+                fn_o = fn_ast if fn_ast != fn_o else fn_o + E_AST
 #               -- output file writing
                 shell_savetofile( fn_o, plain )
                 log.warn( 'result was saved as AST file' )
-- 
2.43.0


From 0345377ac5f5b82952d1eabba18bb13810d17e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 32/37] fix: a requested output name with a null character
 fails its own file only

---
 pp/yup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index a3a4c76..b50b978 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -424,8 +424,8 @@ def _pp_stream( _stream, fn, fn_o ):
                 shell_savetofile( fn_o, plain )
                 log.warn( 'result was saved as AST file' )
 
-    except ( IOError, UnicodeError ) as e:
-#       -- e.g. file operation failure
+    except ( IOError, ValueError ) as e:
+#       -- e.g. file operation failure, wrong encoding (UnicodeError), null character in the requested name
         log.critical( FAIL, type( e ).__name__, str( e ))
         ok = False
         plain = None
-- 
2.43.0


From f7198ca60aa76e89a8377653349cd13cda50e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 33/37] fix: a reused output is read as UTF-8, the encoding it
 was written in

---
 pp/yup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index b50b978..56d5c1c 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -529,7 +529,7 @@ def proc_stream( _stream, fn ):
 #           -- if sources of dependencies are not changed...
             if all( _getmtime( d ) < t for d in deps ):
 #               -- ...just read output file
-                with open( fn_o, 'r' ) as f:
+                with open( fn_o, 'r', encoding='utf8' ) as f:
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-- 
2.43.0


From 2210b2417e2c90f250f31f817efb77a83641c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 34/37] fix: placeholders in an argument of a format string or
 macro are not replaced

---
 pp/yugen.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index abf3767..8f1d486 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -831,6 +831,8 @@ re_INT = re.compile( r"""
 re_OCT_PREFIX = re.compile( r'^([+-]?)0(?=[0-7])' )
 #   ---- float
 re_FLOAT = re.compile( r'^[+-]? *(?:\d+(?:\.\d+))(?:[eE][+-]?\d+)?' )
+#   ---- placeholder of format string or macro text
+re_PLACEHOLDER = re.compile( r'\(\$([-\w]+)\)' )
 #   ---- string literal
 re_STR = re.compile( r'^"(?:\\.|[^\\"])*"', re.DOTALL )
 #   ---- character literal
@@ -3036,6 +3038,15 @@ def _plain_with_browse( node ):
 #   ---- str based | int | float
     return RESULT( str( node ))
 
+#   ---------------------------------------------------------------------------
+def _substitute( st, values ):
+    """
+    Replace each placeholder ($name) with its value (a value is not searched for placeholders).
+    """
+#   -- the first value of a name is used
+    values = dict( reversed( values ))
+    return re_PLACEHOLDER.sub( lambda mch : values.get( mch.group( 1 ), mch.group( 0 )), st )
+
 #   ---------------------------------------------------------------------------
 def _list_to_bound( node ):
     """
@@ -3429,11 +3440,9 @@ def yueval( node, env = ENV(), depth = 0 ):
 #                       -- irreducible
                         return node
 
-                    for i, val in enumerate( node.args ):
-                        node.fn = node.fn.replace( '($' + str( i ) + ')', _plain( val ))
-                    for var, val in node.named:
-                        node.fn = node.fn.replace( '($' + str( var ) + ')', _plain( val ))
-                    return STR( node.fn )
+                    values = [( str( i ), _plain( val )) for i, val in enumerate( node.args )]
+                    values.extend(( str( var ), _plain( val )) for var, val in node.named )
+                    return STR( _substitute( node.fn, values ))
 
 #   ---- APPLY -- list ("for each" loop)
                 elif isinstance( node.fn, list ):
@@ -3612,8 +3621,7 @@ def yueval( node, env = ENV(), depth = 0 ):
 #                   -- irreducible
                     return node
 
-                for var, val in node.env.xlocal():
-                    node.l_form = node.l_form.replace( '($' + str( var ) + ')', _plain_back( val ))
+                node.l_form = _substitute( node.l_form, [( str( var ), _plain_back( val )) for var, val in node.env.xlocal()])
                 node = EVAL( node.l_form, node.decl, node.call )
                 # fall through -- yueval( node )
 
-- 
2.43.0


From aae6c8aa3555a64d3c9821fb0aa9d6ac08f1bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 35/37] fix: a continued Python string ends at the quote that
 began it

---
 pp/yugen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 8f1d486..db85da8 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2145,8 +2145,9 @@ def ps_string_python( sou, depth = 0 ):
 #               -- tail on the same line
                 return ( sou[ p: ], STR( sou[ :p ]))
 
-#           -- tail on other line
-            re_tail = ps_string_python.re_STR_1x1_TAIL if "'" in head else ps_string_python.re_STR_1x2_TAIL
+#           -- tail on other line (the other quote could be inside the string)
+            _1x1 = head.lstrip( 'uUrR' ).startswith( "'" )
+            re_tail = ps_string_python.re_STR_1x1_TAIL if _1x1 else ps_string_python.re_STR_1x2_TAIL
             _1x = True
     else:
         return ( sou, None )
-- 
2.43.0


From 4f6ae0db4226ca3c9d7665178cd344ce54c716ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 36/37] fix: getslice with one bound is the slice from there

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index db85da8..3b37877 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2787,7 +2787,7 @@ builtin.update({
     'crc32': lambda val : ( zlib.crc32( bytes( val, 'utf8' )) & 0xffffffff ),
     'dec': lambda val : ( val - 1 ),
     'div': operator.truediv,
-    'getslice': lambda l, *sl : l[ slice( *( None if x == '' else x for x in sl ))],
+    'getslice': lambda l, start, end='', *step : l[ slice( *( None if x == '' else x for x in ( start, end ) + step ))],
     'hex': hex,
     'inc': lambda val : ( val + 1 ),
 # -- redefine
-- 
2.43.0


From 6707da49e24d45247ae9f8204b6a99ef0f8ebecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 37/37] fix: only line ends of the source divide lines when
 white space is reduced or trimmed

---
 pp/yugen.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 3b37877..bdf7839 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -368,7 +368,7 @@ class PLAIN( BASE_STR ):
 #   -----------------------------------
     def add_indent( self, indent ):
         if self.indent is not None:
-            ln = self.splitlines( True )
+            ln = re_LINE.findall( self )
             if ord( self[ -1 ]) in ps_EOL:
                 ln.append( '' )
             return PLAIN( indent.join( ln )
@@ -759,6 +759,7 @@ def ps_term( _ ):
 #   ---- EOL
 EOL = '\n'
 ps_EOL = frozenset([ ord( EOL ), ord( '\r' )])
+re_LINE = re.compile( r'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+' )
 #   ---- SPACE | TAB
 ps_SPACE = frozenset([ ord( ' ' ), ord( '\t' )])
 #   ---- any Roman letter | _
@@ -2437,14 +2438,14 @@ class TRIM( BASE_OBJECT, CAPTION ):
         if not plain or not config.pp_trim_app_indent:
             return plain
 
-        return self.indent.join( dedent( plain ).splitlines( True ))
+        return self.indent.join( re_LINE.findall( dedent( plain )))
 
 #   -----------------------------------
     def trim_with_browse( self, plain ):
         if not plain or not config.pp_trim_app_indent:
             return plain
 
-        lnlist = plain.splitlines( True )
+        lnlist = re_LINE.findall( plain )
 
 #       -- find shared indent, mark empty lines
         cutting = ''
@@ -3884,7 +3885,7 @@ def reduce_emptiness( text ):
         return text
 
     if isinstance( text, RESULT ):
-        lnlist = text.splitlines( True )
+        lnlist = re_LINE.findall( text )
 
 #       -- find empty lines
         empty = set()
@@ -3940,7 +3941,7 @@ def reduce_emptiness( text ):
 
     _filter.empty = False
 
-    return '\n'.join([ x.rstrip() for x in text.splitlines() if _filter( x )]) + '\n'
+    return '\n'.join([ x.rstrip() for x in re_LINE.findall( text ) if _filter( x )]) + '\n'
 
 #   ---------------------------------------------------------------------------
 def replace_steady( text ):
-- 
2.43.0

