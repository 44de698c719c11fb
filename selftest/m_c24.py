"""C24: one edit each after which a shipped library is incomplete, and edits that keep it whole"""
S, C, H, N, L, R, K, P = ('lib/' + x for x in ('stdlib.yu', 'coroutine.yu', 'h.yu', 'coroutine-h.yu', 'h-light.yu', 'README.md', 'corolib.yu', 'coroutine-py.yu'))
MUTANTS = [
    ('no import of stdlib', 'C24', C, "($import stdlib)\n", ""),
    ('import misspelt', 'C24', K, "($import coroutine-h)", "($import coroutine_h)"),
    ('name of a function misspelt', 'C24', S, "($join ($split [", "($join ($splitt ["),
    ('variable misspelt', 'C24', S, "($cols-($id) \\__i.($ (($body)) \\__var.($__i __var)))", "($cols-($id) \\__i.($ (($body)) \\__var.($__i __vra)))"),
    ('parameter not written as one', 'C24', S, "($macro skip-if (cond)($if ($cond) ($skip)))", "($macro skip-if (cond)($if cond ($skip)))"),
    ('macro not closed', 'C24', S, "($macro skip-if-not (cond)($if ($not ($cond)) ($skip)))", "($macro skip-if-not (cond)($if ($not ($cond)) ($skip))"),
    ('text not closed', 'C24', C, "\t($&exit)\n\treturn CO_YIELD;\n[ ))", "\t($&exit)\n\treturn CO_YIELD;\n))"),
    ('documented macro is gone', 'C24', S, "($macro undef (name)", "($macro undefine (name)"),
    ('documented function is gone', 'C24', S, "($set unless ", "($set if-not "),
    ('counterpart is gone', 'C24', N, "($macro coro-restart ()", "($macro coro-again ()"),
    ('counterpart takes more', 'C24', N, "($macro coro-call (name) CORO", "($macro coro-call (name how) CORO"),
    ('macro of another header', 'C24', N, "CORO_QUIT(($&exit))", "CORO_LEAVE(($&exit))"),
    ('too few for the macro of the header', 'C24', N, "SEMAPHORE_INIT( ($name), ($val) )", "SEMAPHORE_INIT( ($name) )"),
    ('one branch without it', 'C24', H, "#define ($h-name)_INIT( ... )\n", ""),
    ('not removed', 'C24', H, "#undef ($h-name)_VAR_C_INIT\n", ""),
    ('endif missing', 'C24', L, "#undef ($h-name)_INL\n#endif\n", "#undef ($h-name)_INL\n"),
    ('brace of extern C', 'C24', H, "#ifdef __cplusplus\n}\n#endif", "#ifdef __cplusplus\n#endif"),
    ('more arguments than parameters', 'C24', C, "($coro-wait,, ($name) > 0 )", "($coro-wait,, ($name) > 0 ,, 1 )"),
    ('argument of another name', 'C24', S, "($body \\type type \\arg-begin ]", "($if \\thn type \\arg-begin ]"),
    ('helper renamed at its definition', 'C24', P, "($macro coro (name)", "($macro coroutine (name)"),
    ('macro of a light header', 'C24', L, "($macro inline ()", "($macro inlined ()"),
    ('label not made', 'C24', C, "\t/* wait */\n\t($set __label (L__($emit __label_iter inc)))\n", "\t/* wait */\n"),
    ('counter misspelt', 'C24', C, "/* yield */\n\t($set __label (L__($emit __label_iter inc)))", "/* yield */\n\t($set __label (L__($emit __label_itr inc)))"),
    ('braces of define', 'C24', C, "\t($exit)\n\treturn CO_END;\n}", "\t($exit)\n\treturn CO_END;\n"),
]
REFACTORS = [
    ('C24 variable renamed', '', [(S, "($cols-($id) \\__i.($ (($body)) \\__var.($__i __var)))", "($cols-($id) \\__k.($ (($body)) \\__row.($__k __row)))")]),
    ('C24 macro as a function', '', [(S, "($macro skip-if (cond)($if ($cond) ($skip)))", "($macro skip-if (what)($if ($what) ($skip)))")]),
    ('C24 helper macro', '', [(C, "($macro coro-local ()static)", "($macro co-storage ()static)\n\n($macro coro-local ()($co-storage))")]),
    ('C24 comment', '', [(C, "($macro coro-local ()static)", "($! storage ( of ) locals )\n\n($macro coro-local ()static)")]),
    ('C24 default given', '', [(S, "\\cond.\\then:[].\\else:[].($ then ? cond | else)", "\\cond.\\then:[].\\else:[].($ else ? ($not cond) | then)")]),
    ('C24 header reordered', '', [(H, "#define ($h-name)_VAR( decl ) \\\n\tdecl\n#define ($h-name)_VAR_INIT( decl, ... ) \\\n\tdecl = __VA_ARGS__\n", "#define ($h-name)_VAR_INIT( decl, ... ) \\\n\tdecl = __VA_ARGS__\n#define ($h-name)_VAR( decl ) \\\n\tdecl\n")]),
    ('C24 comment at the end', '', [(S, "($set INT_MIN { -sys.maxsize - 1 })", "($set INT_MIN { -sys.maxsize - 1 })\n($! end of the library )\n")]),
    ('C24 hash comment at the end', '', [(S, "($set INT_MIN { -sys.maxsize - 1 })", "($set INT_MIN { -sys.maxsize - 1 })\n# end of the library (it's here)\n")]),
]
