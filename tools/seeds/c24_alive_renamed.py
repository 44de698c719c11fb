PROPERTY = 'C24'
NEEDS = 'a coroutine that waits for another one with coro-wait-coro'
BREAKS = 'the macro coro-wait-coro applies a macro that no library defines'
EDITS = [
 ('lib/coroutine.yu', '($macro coro-wait-coro (coro) ($coro-wait,,!($coro-alive,,($coro))))', '($macro coro-wait-coro (coro) ($coro-wait,,!($coro-is-alive,,($coro))))'),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu-c', '($import corolib)\n($coro-context A);\n($coro-define A ]\n\t($coro-wait-coro,,st);\n[ )\n')
finish(ok and 'CO_END' in text and 'is-alive' not in text, 'not translated: %r' % (text,))
'''
