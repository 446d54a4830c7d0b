LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough
    for v in ('fo', 'asan'):
        ctx.build(v); exe = ctx.cc(v, 'net.c'); n = 8
        plan = [('--mode split --k %d' % (3 if v == 'fo' else 2), n), ('--mode big --tier thorough', n), ('--mode cut', n), ('--mode chan --k %d' % (7 if t else 5 if v == 'fo' else 4), n), ('--mode conn', 1)]
        for p, k in plan: ctx.run([[exe, '--shard', '%d/%d' % (i, k), *p.split()] for i in range(k)], label=v + ' ' + p)
    ctx.extra['rule'] = 'state = message sequence (6 messages incl. empty and terminator-like ones, 18 lengths around the buffer size) plus position; transition = one read or write of the real message layer on a virtual connection whose every split is enumerated (all splits of short messages, every single cut and every chunk size of long ones); all early ends, read and write errors at every byte, 13 broken length fields with 9 amounts of data; two channels with every schedule of the first k steps; all success/failure patterns of up to 3 addresses'
    ctx.assume.append('the operating system delivers the bytes of a stream in order; the socket is replaced by an interposed read/write')
