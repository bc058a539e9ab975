from ..spec import *

FATAL = 5


@contract('__logger', tags=['C22'], safety=['C22'])
def logger(c):
    level, file, line, func, fmt = c.args[:5]
    S = c.S
    c.requires(And(le(0, level), le(level, FATAL)), 'the level is one of the six')
    c.requires_str(file, 'file', BIG)
    c.requires_str(func, 'func', BIG)
    c.requires_str(fmt, 'format', BIG)
    if c.mode == 'call':
        # the arguments suit the format
        format_segs(c.ex, c.st, fmt, c.args[5:], '__logger')
        yield
        if isinstance(level, int) and level == FATAL:
            c.noreturn(ge(FATAL, c.S.i32(c.glob('LEVEL'))))
        return
    LEVEL, LOG_FILE = c.glob('LEVEL'), c.glob('LOG_FILE')
    ghosts(c, 'io')
    c.modifies('P', LOG_FILE, 0, 8)
    c.allocates()
    err = S.p(c.glob('stderr'))
    c.environment(Not(eq(err.o, 0)))
    th = S.i32(LEVEL)
    on = ge(level, th)
    f0 = S.p(LOG_FILE)
    target = If(eq(f0.o, 0), err.o, f0.o)
    written = lambda v: And(eq(v.g('io.msg'), add(S.g('io.msg'), 1)), eq(v.g('io.fmt.o'), fmt.o), eq(v.g('io.fmt.f'), fmt.f), eq(v.g('io.file'), target))
    c.on_exit(lambda v: And(on, eq(level, FATAL), written(v)))
    yield
    T_ = c.T
    c.ensures(Imp(on, written(T_)), 'an enabled message is written once, to the log')
    c.ensures(Imp(Not(on), eq(T_.g('io.n'), S.g('io.n'))), 'a disabled message is not written')
    c.ensures(Not(And(on, eq(level, FATAL))), 'a fatal message does not return')


@contract('log_level_is_enabled', tags=['C22'], safety=['C22'])
def log_level_is_enabled(c):
    level, = c.args
    yield
    c.ensures(Iff(c.ret, ge(level, c.S.i32(c.glob('LEVEL')))), 'agrees with the gate of the logger')


@contract('log_set_level', tags=['C22'], safety=['C22'])
def log_set_level(c):
    level, = c.args
    c.modifies('32', c.glob('LEVEL'), 0, 4)
    yield
    c.ensures(eq(c.T.i32(c.glob('LEVEL')), level), 'the threshold is the given level')
