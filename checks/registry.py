"""Which queries decide which property, with their bounds."""
CHECKS = {}


def chk(pid, title, queries, **kw):
    CHECKS[pid] = dict(title=title, queries=queries, **kw)


def q(name, src, reach=(), t=300, what="", **kw):
    defs = {k: v for k, v in kw.items() if k.isupper()}
    rest = {k: v for k, v in kw.items() if not k.isupper()}
    return dict(name=name, src=src, defs=defs, reach=list(reach), t=t, what=what, **rest)


_ctors = ["list", "slist", "queue", "rbtree", "trigger", "bigint", "stack", "mutex", "cond", "fiber", "fiber_for_thread", None,
          "scheduler", "discipline", "message", "message_discipline", "condition_discipline", "psock_descriptor", "psock_input_buffer",
          "psock_output_buffer", "psock_user", "psock_async", "psock_br", "mailbox", "conditional", "scheduler_add", "bigint_clone", "thread"]
chk("A01", "constructors", [
    q(n, "res/ctor.c", KIND=k, t=120, reach=["constructed", "failed", "repeated", "released"]) for k, n in enumerate(_ctors) if n] + [
    q("refused_" + n, "res/ctor.c", KIND=_ctors.index(n), OSFAIL=1, t=120, reach=["constructed", "failed", "repeated", "released", "system call failed"]) for n in ("stack", "fiber", "psock_async")],
    outside="constructors whose resources come only from the operating system (sockets by address or host name: P10; OS failures of threads, stacks: H01, K01)")
chk("A02", "containers release", [
    q(n, "res/own.c", KIND=k, N=4, deep=dict(N=6), reach=["failure reported", "end"] + (["used after a failure"] if k != 3 else []) + (["cleared"] if k != 2 else []))
    for k, n in enumerate(["list", "slist", "queue", "rbtree"])] + [
    q("long_" + n, "res/own.c", KIND=k, LONG=260, max_steps=100000000, reach=["failure reported", "end"]) for k, n in enumerate(["list", "slist", "queue", "rbtree"])])
chk("A03", "bump allocator", [
    q("bump", "alloc/bump.c", R=144, STEPS=3, deep=dict(STEPS=4, R=160), j=6, reach=["region too small", "block", "two blocks", "does not fit", "reset", "reallocate or reclaim", "end"]),
    q("large", "alloc/bump_long.c", max_steps=100000000, j=4, reach=["does not fit", "any size", "again", "end"]),
    q("any_size", "alloc/bump_any.c", reach=["does not fit", "large block", "far block", "reset", "end"]),
])
chk("A04", "allocator dispatch, malloc allocator", [
    q("dispatch", "alloc/dispatch.c", reach=["allocate", "reclaim", "reallocate", "control", "no control"]),
    q("malloc", "alloc/mallocator.c", j=2, reach=["create failed", "allocate failed", "reallocate failed", "reallocated", "reclaimed", "end"]),
], outside="the optional runtime check of method tables (V01)")
chk("L01", "list", [
    q("ops", "list/list_ops.c", N=4, STEPS=3, deep=dict(N=5),  reach=["insert_head", "append_tail", "append", "insert", "child_swap", "pop", "clear", "insertion failed", "end"]),
    q("very_long", "res/counts.c", KIND=0, max_steps=1000000000, reach=["all in", "end"]),
    q("long", "list/list_ops.c", LONG=300, STEPS=2, j=4, reach=["insert_head", "append_tail", "append", "insert", "child_swap", "pop", "clear", "insertion failed", "end"]),
])
chk("L02", "slist", [
    q("ops", "slist/slist_ops.c", N=4, STEPS=3, deep=dict(N=5),  reach=["insert_head", "append_tail", "append", "next_pop", "child_swap", "pop", "clear", "insertion failed", "end"]),
    q("very_long", "res/counts.c", KIND=1, max_steps=1000000000, reach=["all in", "end"]),
    q("long", "slist/slist_ops.c", LONG=300, STEPS=2, j=2, reach=["insert_head", "append_tail", "append", "next_pop", "child_swap", "pop", "clear", "insertion failed", "end"]),
])
chk("L03", "container swap", [
    q("list", "list/swap.c", STEPS=3, j=4, deep=dict(STEPS=4),  reach=["append next to a node", "insert next to a node", "pop", "clear", "swapped again", "end"]),
    q("slist", "list/swap.c", SL=1, STEPS=3, j=2, deep=dict(STEPS=4),  reach=["append next to a node", "pop next to a node", "pop", "clear", "swapped again", "end"]),
    q("rbtree", "rbtree/rb_swap.c", STEPS=3, j=2, deep=dict(STEPS=4),  reach=["insert", "delete", "clear", "swapped again", "insert after the other is gone", "end"]),
    q("long_list", "list/swap.c", LONG=300, STEPS=1, reach=["append next to a node", "insert next to a node", "pop", "clear", "swapped again", "end"]),
    q("long_slist", "list/swap.c", LONG=300, STEPS=1, SL=1, reach=["append next to a node", "pop next to a node", "pop", "clear", "swapped again", "end"]),
])
chk("Q01", "queue", [
    q("ops", "queue/queue_ops.c", N=3, STEPS=6, j=2, deep=dict(STEPS=7),  reach=["append", "insert", "pop", "pop empty", "insertion failed", "drained", "end"]),
    q("very_long", "res/counts.c", KIND=2, max_steps=1000000000, reach=["all in", "end"]),
    q("long", "queue/queue_ops.c", LONG=300, STEPS=4, reach=["append", "insert", "pop", "insertion failed", "drained", "end"]),
])
chk("R01", "rbtree map", [
    q("hist", "rbtree/rb_hist.c", N=4, DELS=1, deep=dict(N=5), deep_j=8, j=6, reach=["duplicate", "insert failed", "delete absent", "delete to caller", "delete and release", "clear", "end"]),
    q("step", "rbtree/rb_step.c", N=9, j=6, deep=dict(N=11), deep_j=8, reach=["insert", "delete", "end"]),
    q("very_long", "res/counts.c", KIND=3, max_steps=1000000000, reach=["all in", "end"]),
    q("long", "rbtree/rb_long.c", max_steps=100000000, j=2, deep=dict(COUNT=200), deep_j=8, reach=["any present key", "any absent key", "deleted", "end"]),
])
chk("R02", "rbtree balance", [
    q("step", "rbtree/rb_step.c", N=9, SHAPE=1, j=6, deep=dict(N=11), deep_j=8, reach=["insert", "delete", "end"]),
    q("hist", "rbtree/rb_hist.c", N=4, DELS=1, SHAPE=1, NOFIND=1, reach=["end"]),
    q("long", "rbtree/rb_long.c", SHAPE=1, max_steps=100000000, j=2, deep=dict(COUNT=200), deep_j=8, reach=["any present key", "any absent key", "deleted", "end"]),
])
chk("S01", "trim", [q("trim", "str/trim.c", N=12, deep=dict(N=16), reach=["whitespace test", "all whitespace", "left", "right", "both"]),
    q("very_long", "str/very.c", KIND=0, j=2, max_steps=1000000000, reach=["very long", "end"]),
    q("long", "str/trim.c", LONG=260, reach=["all whitespace", "left", "right", "both"])
])
chk("S02", "split, prefix, suffix, chomp", [q("split", "str/split.c", N=14, deep=dict(N=30), reach=["split", "absent", "prefix", "no prefix", "suffix", "chomp"]),
    q("very_long", "str/very.c", KIND=1, max_steps=1000000000, reach=["very long", "end"]),
    q("long", "str/split.c", LONG=260, reach=["split", "absent", "prefix", "no prefix", "suffix", "chomp"])
])
chk("S03", "tokens", [q("words", "str/words.c", N=8, deep=dict(N=10), j=6, reach=["end of input", "two tokens", "multisplit", "words"]),
    q("very_long", "str/very.c", KIND=2, j=4, max_steps=1000000000, reach=["very long", "end"]),
    q("long", "str/words.c", LONG=260, reach=["end of input", "two tokens", "multisplit", "words"])
])
chk("S04", "strdup, strcat", [q("dup", "str/dup.c", N=9, deep=dict(N=14), reach=["failed", "copied", "three"]),
    q("very_long", "str/very.c", KIND=3, max_steps=1000000000, reach=["very long", "end"]),
    q("long", "str/dup.c", LONG=260, reach=["failed", "copied"])
])
chk("U01", "uuid", [
    q("parse", "uuid/uuid.c", merge=True, MODE=0, LEN=36, reach=["parsed raw", "parsed", "rejected raw", "rejected"]),
    q("short", "uuid/uuid.c", merge=True, MODE=0, LEN=35, reach=["rejected raw", "rejected"]),
    q("long", "uuid/uuid.c", merge=True, MODE=0, LEN=37, reach=["rejected raw", "rejected"]),
    q("empty", "uuid/uuid.c", MODE=0, LEN=0, reach=["rejected raw", "rejected"]),
    q("format", "uuid/uuid.c", merge=True, MODE=1, reach=["format failed", "round trip"]),
])
chk("B01", "byte order", [q("hton", "misc/hton.c", reach=["width 16", "width 32", "width 64"])])
chk("B02", "bigint", [q("bigint", "misc/bigint.c", BITS=1100, deep=dict(BITS=5000), reach=["create failed", "clone failed", "original first", "end"]),
    q("any_size", "misc/bigint_size.c", reach=["created", "refused", "largest", "end"])])
chk("T01", "trigger", [q("trigger", "misc/trigger.c", STEPS=6, deep=dict(STEPS=8), reach=["signal in callback", "register in callback", "delivered", "not due", "end"])])
chk("K01", "stack", [q("stack", "misc/stack.c", reach=["map failed", "allocation failed", "unmap failed", "released"])])
chk("H01", "threads, mutexes, conditions", [
    q("thread", "thread/thread.c", KIND=0, reach=["thread failed", "join failed", "joined", "runs at once"]),
    q("mutex", "thread/thread.c", KIND=1, reach=["locked and unlocked", "mutex failed", "released", "unlock failed"]),
    q("condition", "thread/thread.c", KIND=2, reach=["wait", "one", "all", "condition failed", "mutex failed", "locked and unlocked", "unlock failed", "released"]),
], outside="the interleaving of real threads: pthread calls are stand-ins that answer success or failure")
chk("D01", "descriptor moving", [
    q("move", "desc/move.c", MODE=0, reach=["moved", "three", "failed", "already in place", "source at another's target"]),
    q("setfds", "desc/move.c", MODE=1, j=6, reach=["moved", "three", "failed", "already in place"]),
    q("many", "desc/move.c", MODE=0, LONG=1, j=2, reach=["moved", "failed", "already in place", "source at another's target"]),
    q("many_setfds", "desc/move.c", MODE=1, LONG=1, reach=["moved", "failed", "already in place"]),
])
chk("D02", "descriptor utilities", [
    q("close", "desc/util.c", MODE=0, reach=["others"]),
    q("close_high", "desc/util.c", MODE=0, HIGH=1, reach=[]),
    q("rest", "desc/util.c", MODE=1, reach=["standard", "non-blocking", "flags failed", "pair", "pair failed"]),
])
chk("P01", "boxed round trip", [
    q("pair", "psock/boxed.c", COUNT=2, SPLIT=0, PAY=6, deep=dict(PAY=10), reach=["written", "payload", "read back"]),
    q("large", "psock/big.c", KIND=1, max_steps=30000000, reach=["boxed", "not whole"]),
    q("any_size", "psock/huge.c", KIND=1, reach=["written", "large", "failed", "end"]),
    q("split", "psock/boxed.c", COUNT=2, SPLIT=3, PAY=4, SPLITS=3, deep=dict(PAY=6, SPLITS=4), deep_j=8, reach=["written", "payload", "read back", "write failed", "read failed"]),
    q("payload", "psock/boxed.c", COUNT=1, SPLIT=3, PAY=10, SPLITS=6, deep=dict(PAY=20, SPLITS=1000), reach=["written", "payload", "read back", "write failed", "read failed"]),
])
chk("P02", "malformed boxed input", [
    q("any", "psock/hostile.c", LEN=20, SPLIT=0, deep=dict(LEN=40), reach=["accepted", "payload", "malformed", "wrong type", "transport failed", "out of memory"]),
    q("split", "psock/hostile.c", LEN=14, SPLIT=1, TAGGED=1, SPLITS=6, deep=dict(LEN=18, SPLITS=1000), reach=["accepted", "payload", "malformed", "transport failed", "out of memory"]),
],
    outside="payloads of a declared size above the stream bound for which the allocator nonetheless has memory")
chk("P03", "raw transfers", [
    q("data", "psock/raw.c", MODE=0, LEN=6, deep=dict(LEN=8), reach=["data written", "data write failed", "data read", "end of stream"]),
    q("integers", "psock/raw.c", MODE=1, LEN=1, reach=["written", "write failed", "read", "read failed"]),
    q("large", "psock/big.c", KIND=0, max_steps=30000000, reach=["raw"]),
    q("any_size_written", "psock/huge.c", KIND=0, reach=["written", "large", "failed", "no more", "end"]),
    q("any_size_once", "psock/huge.c", KIND=2, reach=["read", "large", "failed", "end"]),
    q("any_size_refused", "psock/huge.c", KIND=3, reach=["refused", "end"]),
    q("once", "psock/raw.c", MODE=2, LEN=5, reach=["raw read", "raw failed", "raw would block"]),
])
chk("P04", "buffered reading", [
    q("mixed", "psock/br.c", LINES=0, BLOCK=0, FAIL=1, PRE=0, LEN=4, STEPS=3, j=4, deep=dict(LEN=5, STEPS=4), deep_j=8, reach=["partial", "exact", "exact failed", "end of stream", "error", "line", "last line", "truncated", "no more lines", "drained"]),
    q("would_block", "psock/br.c", LINES=0, BLOCK=1, FAIL=0, PRE=0, LEN=3, STEPS=3, j=4, deep=dict(LEN=4), deep_j=8, reach=["partial", "exact", "would block", "line would block", "interrupted", "drained"]),
    q("large", "psock/big.c", KIND=3, STEPS=2, max_steps=30000000, j=6, deep=dict(STEPS=3), deep_j=8, reach=["partial", "exact", "line", "truncated", "drained"]),
    q("any_size", "psock/huge.c", KIND=6, reach=["line", "read", "end"]),
    q("buffer_end", "psock/br.c", LINES=0, BLOCK=0, PRE=16378, LEN=8, STEPS=3, deep=dict(LEN=9, STEPS=4), deep_j=8, j=4, reach=["partial", "exact", "exact failed", "end of stream", "line", "last line", "truncated", "drained"]),
])
chk("P05", "line reading", [
    q("lines", "psock/br.c", LINES=1, BLOCK=0, PRE=0, LEN=7, CAP=8, j=4, deep=dict(LEN=8, CAP=9), deep_j=8, reach=["line", "last line", "truncated", "no more lines"]),
    q("would_block", "psock/br.c", LINES=1, BLOCK=1, PRE=0, LEN=3, CAP=4, j=2, deep=dict(LEN=4, CAP=5), deep_j=8, reach=["line", "last line", "truncated", "no more lines", "interrupted", "line would block"]),
    q("large", "psock/big.c", KIND=3, STEPS=3, LINES=1, max_steps=30000000, j=4, deep=dict(STEPS=4), deep_j=8, reach=["line", "truncated", "drained"]),
    q("buffer_end", "psock/br.c", LINES=1, BLOCK=0, PRE=16380, LEN=7, CAP=6, deep=dict(LEN=8, CAP=8), deep_j=8, j=4, reach=["line", "last line", "truncated", "no more lines"]),
])
chk("P06", "buffer sockets", [
    q("input", "psock/buffer.c", MODE=0, LEN=5, STEPS=3, deep=dict(LEN=7, STEPS=4), reach=["partial", "exact", "end of stream", "too few"]),
    q("large", "psock/big.c", KIND=2, STEPS=2, max_steps=30000000, deep=dict(STEPS=3), deep_j=8, reach=["end of stream", "memory"]),
    q("any_size", "psock/huge.c", KIND=4, reach=["read", "refused", "end"]),
    q("output", "psock/buffer.c", MODE=1, PRE=4090, STEPS=2, FAILS=1, deep=dict(STEPS=3, FAILS=2), deep_j=8, reach=["accepted", "grown", "write failed", "output", "output failed"]),
    q("output_empty", "psock/buffer.c", MODE=1, PRE=0, STEPS=2, FAILS=1, deep=dict(STEPS=3, FAILS=2), deep_j=8, reach=["accepted", "grown", "write failed", "output", "output failed"]),
    q("boxed", "psock/buffer.c", MODE=2, reach=["boxed", "empty payload at the end"]),
])

ASYNC = ["end", "ended", "failed", "interrupted", "waited"]
chk("P07", "async sockets", [
    q("read", "psock/async.c", MODE=0, LEN=4, STEPS=2, j=6, deep=dict(STEPS=3), deep_j=8, reach=ASYNC + ["read", "would block"]),
    q("write", "psock/async.c", MODE=1, LEN=4, STEPS=2, j=6, deep=dict(STEPS=3), deep_j=8, reach=ASYNC + ["written"]),
    q("messages", "psock/async.c", MODE=2, LEN=1, STEPS=1, deep=dict(WB=4), reach=["accepted", "sent", "received", "failed", "interrupted", "waited", "end"]),
    q("lines", "psock/async.c", MODE=3, LEN=3, STEPS=1, j=4, deep=dict(LEN=4), deep_j=8, reach=["line", "last line", "no more lines", "waited", "end"]),
    q("read_shut_down", "psock/async.c", MODE=0, LEN=3, STEPS=2, CANCEL=1, OTHER=1, j=2, deep=dict(LEN=4, STEPS=3), deep_j=8, reach=["read", "shut down", "waited", "interrupted", "end"]),
    q("write_shut_down", "psock/async.c", MODE=1, LEN=3, STEPS=2, CANCEL=1, OTHER=1, j=2, deep=dict(LEN=4, STEPS=3), deep_j=8, reach=["written", "shut down", "waited", "interrupted", "end"]),
    q("messages_shut_down", "psock/async.c", MODE=2, LEN=1, STEPS=1, CANCEL=1, OTHER=1, reach=["accepted", "sent", "received", "shut down", "waited", "end"]),
    q("large_read", "psock/async_big.c", MODE=0, max_steps=100000000, reach=["many waits", "ended", "end"]),
    q("large_write", "psock/async_big.c", MODE=1, max_steps=100000000, reach=["many waits", "ended", "end"]),
    q("any_size_read", "psock/async_huge.c", MODE=0, reach=["large", "failed", "ended", "end"]),
    q("any_size_write", "psock/async_huge.c", MODE=1, reach=["large", "failed", "ended", "end"]),
],
    outside="the kqueue and poll variants, which are not built here; more than one fiber waiting on the same socket and direction")
chk("P08", "I/O readiness", [
    q("two", "psock/idle.c", CTLFAIL=0, j=4, reach=["interrupted", "readable", "writable", "two reports at once", "error or hang-up alone wakes a reader", "error or hang-up alone wakes a writer", "end"]),
    q("register_fails", "psock/idle.c", CTLFAIL=1, j=4, reach=["interrupted", "readable", "writable", "not watched", "end"]),
    q("many", "psock/many.c", max_steps=100000000, j=4, reach=["several reports", "end"]),
    q("rounds", "psock/idle.c", CTLFAIL=0, SOCKS=1, ROUNDS=4, WAITS=2, j=4, deep=dict(ROUNDS=5, WAITS=3), deep_j=8, reach=["interrupted", "readable", "writable", "end"]),
],
    outside="failing allocation while waking a fiber; the kqueue and poll variants")
chk("P09", "descriptor passing", [
    q("received", "psock/rights.c", MODE=0, reach=["received", "none passed", "more than one passed", "receive failed", "wrong type"]),
    q("any", "psock/rights.c", MODE=1, reach=["received", "rejected"]),
    q("sent", "psock/rights.c", MODE=2, reach=["sent", "send failed"]),
])
chk("P10", "descriptor sockets", [
    q("methods", "psock/fdsock.c", MODE=0, STEPS=3, j=2, deep=dict(STEPS=4), deep_j=8, reach=["construction failed", "read", "nothing read", "written", "accepted", "message sent", "message received", "option set", "would block", "failed", "released"]),
    q("any_size", "psock/huge.c", KIND=5, reach=["large read", "large write", "end"]),
    q("listen", "psock/fdsock.c", MODE=1, reach=["no socket", "not bound", "not listening", "out of memory", "close failed", "released"]),
    q("host", "psock/fdsock.c", MODE=2, reach=["unknown host", "no socket", "refused", "out of memory", "IPv4", "IPv6", "released"]),
])

chk("F01", "fiber scheduler", [
    q("create", "fiber/sched.c", CREATE=1, reach=["create failed", "end"]),
    q("run", "fiber/sched.c", N=3, STEPS=3, MSTEPS=2, j=6, deep=dict(MSTEPS=3), deep_j=8, reach=["all added", "end", "finished", "left waiting", "woken", "yielded"]),
    q("managed", "fiber/sched.c", N=3, STEPS=2, MSTEPS=2, MGMT=1, deep=dict(STEPS=3), deep_j=8, reach=["all added", "end", "finished", "left waiting", "woken", "yielded", "finished fiber released", "management told of an addition"]),
    q("idle", "fiber/sched.c", N=3, STEPS=2, MSTEPS=2, IDLE=1, j=2, deep=dict(STEPS=3), deep_j=8, reach=["all added", "end", "finished", "left waiting", "woken", "yielded", "idle"]),
    q("fails", "fiber/sched.c", N=3, STEPS=2, MSTEPS=2, FAILS=1, j=4, deep=dict(STEPS=3), deep_j=8, reach=["all added", "end", "finished", "left waiting", "woken", "yielded", "add failed", "create failed", "run failed"]),
    q("managed_fails", "fiber/sched.c", N=3, STEPS=2, MSTEPS=2, MGMT=1, FAILS=1, j=4, deep=dict(STEPS=3), deep_j=8, reach=["all added", "end", "finished", "left waiting", "woken", "yielded", "finished fiber released", "management told of an addition", "add failed"]),
    q("far_apart", "fiber/sched.c", N=3, STEPS=2, MSTEPS=2, FAR=1, j=2, reach=["all added", "end", "finished", "left waiting", "woken", "yielded"]),
    q("many", "fiber/many.c", MODE=0, COUNT=260, max_steps=100000000, reach=["end"]),
    q("many_managed", "fiber/many.c", MODE=1, COUNT=260, max_steps=100000000, reach=["end"]),
],
    outside="a fiber finishing when no other is runnable and there is no idle fiber; a failing allocation while a fiber stops with the management fiber waiting; the context switch itself, which is F04's")
chk("F02", "disciplines", [
    q("one_yield", "fiber/disc.c", D=2, CB=2, FAILS=1, j=4, deep=dict(D=3, CB=1), deep_j=8, reach=["create failed", "add failed", "duplicate", "found", "not found", "code outside", "denied", "resumed at once", "resumed later", "end"]),
    q("yields", "fiber/disc.c", D=3, CB=3, YIELDS=2, IDS=0, FAILS=0, j=2, deep=dict(D=4), deep_j=8, reach=["not found", "code outside", "denied", "resumed at once", "resumed later", "end"]),
    q("raw", "fiber/disc.c", RAW=1, D=2, CB=2, FAILS=1, IDS=0, deep=dict(D=3, CB=3, YIELDS=2), deep_j=8, reach=["create failed", "add failed", "code outside", "denied", "resumed at once", "resumed later", "end"]),
    q("many", "fiber/disc_many.c", max_steps=100000000, reach=["code outside", "handled", "end"]),
])
chk("F03", "management requests", [
    q("one", "fiber/mgmt.c", N=4, REQS=1, j=2, deep=dict(N=5), deep_j=8, reach=["end", "not running", "quiesced", "sent by a fiber", "terminated"]),
    q("two", "fiber/mgmt.c", N=3, REQS=2, j=4, deep=dict(N=4), deep_j=8, reach=["end", "not running", "quiesced", "sent by a fiber", "terminated"]),
    q("fails", "fiber/mgmt.c", N=3, FAILS=1, j=2, deep=dict(N=4), deep_j=8, reach=["end", "not running", "quiesced", "sent by a fiber", "terminated", "request failed"]),
    q("far_apart", "fiber/mgmt.c", N=3, REQS=1, FAR=1, reach=["end", "not running", "quiesced", "sent by a fiber", "terminated"]),
    q("runnable", "fiber/mgmt.c", N=2, READY=1, reach=["end"]),
    q("socket_read", "psock/async.c", MODE=0, LEN=3, STEPS=2, CANCEL=1, OTHER=1, j=2, deep=dict(LEN=4, STEPS=3), deep_j=8, reach=["read", "shut down", "waited", "interrupted", "end"]),
    q("socket_write", "psock/async.c", MODE=1, LEN=3, STEPS=2, CANCEL=1, OTHER=1, j=2, deep=dict(LEN=4, STEPS=3), deep_j=8, reach=["written", "shut down", "waited", "interrupted", "end"]),
    q("many", "fiber/many.c", MODE=1, COUNT=100, max_steps=100000000, reach=["end"]),
],
    outside="a fiber requesting itself; a fiber finished and already released, whose handle is dangling")
chk("F05", "user schedulers", [
    q("create", "fiber/user.c", CREATE=1, reach=["created", "main refused", "out of memory", "release failed", "wrong answer"]),
    q("fiber_steps", "fiber/user.c", N=2, STEPS=2, MSTEPS=1, j=2, deep=dict(MSTEPS=2), deep_j=8, reach=["added", "add refused", "end", "refused", "run", "stopped", "yielded"]),
    q("main_steps", "fiber/user.c", N=2, STEPS=1, MSTEPS=2, j=2, deep=dict(N=3), deep_j=8, reach=["added", "add refused", "end", "refused", "run", "stopped", "yielded"]),
],
    outside="a callback that fails when a fiber stops (the process aborts), or names no fiber or a stopped one; the context switch itself, which is F04's")
chk("F06", "management events", [
    q("managed", "fiber/sched.c", N=3, STEPS=2, MSTEPS=2, MGMT=1, deep=dict(STEPS=3), deep_j=8, reach=["all added", "end", "finished", "left waiting", "woken", "yielded", "finished fiber released", "management told of an addition"]),
    q("lazy", "fiber/sched.c", N=2, STEPS=2, MSTEPS=2, MGMT=1, LAZY=1, j=4, deep=dict(N=3), deep_j=8, reach=["all added", "end", "finished", "left waiting", "woken", "yielded", "finished fiber released", "management told of an addition", "not listening"]),
    q("fails", "fiber/sched.c", N=3, STEPS=2, MSTEPS=2, MGMT=1, FAILS=1, j=4, deep=dict(STEPS=3), deep_j=8, reach=["all added", "end", "finished", "left waiting", "woken", "yielded", "finished fiber released", "management told of an addition", "add failed"]),
    q("many", "fiber/many.c", MODE=1, COUNT=260, max_steps=100000000, reach=["end"]),
],
    outside="two fibers waiting for management events at once, which the documentation does not describe; a failing allocation while a fiber stops with the management fiber waiting")
_mail = ["received after waiting", "received at once", "sent ahead", "sent to a waiting receiver", "payload taken", "end"]
chk("M01", "message delivery", [
    q("boxes", "msg/mail.c", N=2, STEPS=2, BOXES=2, ANY=1, j=4, deep=dict(STEPS=3, ANY=0), deep_j=8, reach=_mail + ["no such mailbox", "rejected", "already blocked", "created"]),
    q("fibers", "msg/mail.c", N=3, STEPS=3, CLOSE=0, j=8, deep=dict(STEPS=3, CLOSE=1), deep_j=8, reach=_mail + ["already blocked"]),
    q("steps", "msg/mail.c", N=2, STEPS=4, CLOSE=0, j=4, deep=dict(STEPS=5), deep_j=8, reach=_mail + ["already blocked"]),
    q("created", "msg/mail.c", N=2, STEPS=2, CREATE=1, ANY=1, j=2, deep=dict(STEPS=2, N=3, ANY=0), deep_j=8, reach=_mail + ["created", "no such mailbox", "rejected"]),
    q("fails", "msg/mail.c", N=2, STEPS=2, CLOSE=0, FAILS=1, deep=dict(N=3), deep_j=8, reach=_mail + ["message failed", "send failed", "receive failed", "no discipline"]),
    q("many", "msg/many.c", MODE=0, max_steps=100000000, reach=["in order", "end"]),
    q("many_boxes", "msg/many.c", MODE=1, max_steps=100000000, reach=["one each", "end"]),
    q("many_addresses", "msg/addresses.c", KIND=0, max_steps=1000000000, reach=["many", "end"]),
],
    outside="fibers of different schedulers; more than 2^64 mailboxes; a receiver interrupted when a message for it is already on its way, which is F03's known finding")
chk("M02", "mailbox closing and failures", [
    q("close", "msg/mail.c", N=3, STEPS=2, INT=1, j=2, deep=dict(STEPS=2, BOXES=2), deep_j=8, reach=_mail + ["closed under a receiver", "closed with messages", "closed with a receiver", "interrupted", "released with the scheduler"]),
    q("fails", "msg/mail.c", N=2, STEPS=2, FAILS=1, INT=1, deep=dict(N=3, INT=0), deep_j=8, reach=_mail + ["close failed", "closed under a receiver", "closed with messages", "message failed", "receive failed", "send failed", "interrupted"]),
    q("create_fails", "msg/mail.c", N=2, STEPS=1, FAILS=1, CREATE=1, ANY=1, deep=dict(STEPS=2, ANY=0), deep_j=8, reach=["create failed", "no discipline", "end"]),
    q("many_left", "msg/many.c", MODE=2, max_steps=100000000, reach=["end"]),
    q("many_boxes", "msg/many.c", MODE=1, max_steps=100000000, reach=["one each", "end"]),
],
    outside="two failing allocations in one history")
chk("C01", "conditions", [
    q("fibers", "cond/cond.c", N=3, STEPS=2, j=4, deep=dict(N=4), deep_j=8, reach=["notified", "several notified", "nobody to notify", "end"]),
    q("steps", "cond/cond.c", N=2, STEPS=3, j=2, deep=dict(STEPS=4), deep_j=8, reach=["notified", "closed under a waiter", "closed with a waiter", "no such condition", "end"]),
    q("conditions", "cond/cond.c", N=2, STEPS=2, CONDS=2, j=2, deep=dict(ANY=1), deep_j=8, reach=["notified", "closed under a waiter", "no such condition", "end"]),
    q("again", "cond/cond.c", N=2, STEPS=1, CONDS=2, CREATE=1, deep=dict(STEPS=2), deep_j=8, reach=["created", "notified", "end"]),
    q("any", "cond/cond.c", N=2, STEPS=1, CREATE=1, ANY=1, FAILS=1, deep=dict(STEPS=2, FAILS=0), deep_j=8, reach=["no such condition", "created", "notified", "end"]),
    q("interrupted", "cond/cond.c", N=3, STEPS=2, INT=1, CLOSE=0, j=4, deep=dict(CLOSE=1), deep_j=8, reach=["notified", "interrupted", "several notified", "end"]),
    q("fails", "cond/cond.c", N=2, STEPS=2, FAILS=1, INT=1, j=2, deep=dict(N=3, INT=0), deep_j=8, reach=["close failed", "notify failed", "wait failed", "no discipline", "notified", "closed under a waiter", "interrupted", "end"]),
    q("many_waiters", "cond/many.c", MODE=0, COUNT=520, max_steps=100000000, reach=["notified", "end"]),
    q("many", "cond/many.c", MODE=1, max_steps=100000000, reach=["one each", "end"]),
    q("many_handles", "msg/addresses.c", KIND=1, max_steps=1000000000, reach=["many", "end"]),
],
    outside="an interruption of a fiber already notified, which is F03's known finding; two failing allocations in one history")
chk("F04", "context switch", [], custom="asmfiber", asm_reach=["switched out", "resumed", "made", "entered", "entry function returned"],
    technique="symbolic execution of the assembled instructions of fiber_make and fiber_switch with Z3 bit-vectors: every register, control word, argument and memory content is symbolic",
    bounds="one switch away and one switch back (or the making of a fiber and the first switch to it) from every machine state; in between, all memory but the suspended stack and the saved stack pointer may change, and all registers",
    assumptions=["a fiber's structure, its stack near the stack pointer (256 bytes below it) and those of the other fiber are distinct objects in user space",
                 "the stack is aligned at each call as the calling convention demands, and reserved bits of the control words are zero",
                 "the top of a new fiber's stack has at least 256 bytes below it"],
    outside="platforms other than x86-64 System V; AVX state (caller-saved); signal handlers running on a fiber's stack")
chk("A05", "release under failures", [
    q(n, "res/ctor.c", KIND=k, REL=1, t=120, reach=["refused", "released"] + (["failed below"] if n == "message" else []))
    for k, n in enumerate(_ctors) if n in ("list", "slist", "rbtree", "trigger", "bigint", "stack", "mutex", "cond", "fiber", "fiber_for_thread",
        "discipline", "message", "psock_descriptor", "psock_input_buffer", "psock_output_buffer", "psock_user", "psock_async", "psock_br", "bigint_clone", "thread")],
    assumptions=["a block whose reclaim is refused is gone for the caller: it is neither used nor reclaimed again"],
    outside="containers with elements (a failing element is A02's), queues and schedulers with a refusing allocator; the answer of close, which a descriptor's release ignores")
_outs = ["list_pop", "slist_pop", "queue_pop", "next_pop", "rbtree_delete", "rbtree_delete_node"]
chk("A06", "outputs of failing operations", [
    q("ctor_" + n, "res/ctor.c", KIND=k, NULLOUT=1, t=120, reach=["constructed", "failed", "repeated", "released"])
    for k, n in enumerate(_ctors) if n and n not in ("message", "message_discipline", "condition_discipline", "psock_async", "mailbox", "conditional", "scheduler_add")] + [
    q("stack", "misc/stack.c", NULLOUT=1, reach=["map failed", "allocation failed"]),
    q("thread", "thread/thread.c", KIND=0, NULLOUT=1, reach=["thread failed"]),
    q("mutex", "thread/thread.c", KIND=1, NULLOUT=1, reach=["mutex failed", "locked and unlocked"]),
    q("cond", "thread/thread.c", KIND=2, NULLOUT=1, reach=["condition failed"]),
    q("listen", "psock/fdsock.c", MODE=1, NULLOUT=1, reach=["no socket", "not bound", "not listening", "out of memory", "close failed"]),
    q("host", "psock/fdsock.c", MODE=2, NULLOUT=1, reach=["unknown host", "no socket", "refused", "out of memory"]),
    q("missing", "res/out.c", KIND=6, deep=dict(N=5), reach=["not found"]),
    q("memory", "res/out.c", KIND=7, reach=["no text", "no allocator", "no block", "block"]),
] + [q(n, "res/out.c", KIND=k, deep=dict(N=5), reach=["refused", "removed"] + (["dropped"] if k >= 4 else [])) for k, n in enumerate(_outs)],
    outside="operations that document no output on failure (messages, disciplines, asynchronous sockets, socket reads: P01-P04), the failure of the malloc behind the malloc allocator (A04)")
chk("V01", "method tables", [
    q("range", "misc/vtable.c", KIND=0, reach=["inside", "outside"]),
    q("allocator", "misc/vtable.c", KIND=1, reach=["works", "refused", "release refused"]),
    q("sockets", "misc/vtable.c", KIND=2, j=4, reach=["refused", "refused half-way", "works", "the last step"]),
] + [q("works_" + n, "res/ctor.c", KIND=k, t=120, reach=["constructed", "released"]) for k, n in enumerate(_ctors) if n],
    variant="enforce",
    outside="the table of user methods behind a socket made from them (the library does not check it), operations of the condition, mailbox, thread and fiber interfaces (they make no call through a table but resource release), the option on macOS")
chk("P11", "forwarding", [
    q("user", "psock/forward.c", KIND=0, reach=["forwarded", "undefined"]),
    q("reader", "psock/forward.c", KIND=1, reach=["forwarded", "undefined"]),
    q("buffer", "psock/forward.c", KIND=2, reach=["undefined", "unsupported"]),
    q("reader_own", "psock/forward.c", KIND=4, reach=["forwarded", "undefined"]),
    q("buffer_reader", "psock/forward.c", KIND=3, reach=["undefined", "unsupported"]),
],
   outside="reads through the adapter (P04)")

chk("X01", "independent instances", [
    q(n, "two/two.c", KIND=k, STEPS=3 if k == 0 else 4, j=6 if k == 0 else 2, deep=dict(STEPS=4 if k == 0 else 5), deep_j=8, reach=["both used", "one released first", "end"])
    for k, n in enumerate(["schedulers", "words", "pieces", "bump", "readers", "outputs", "triggers", "queues", "trees", "inputs"])] + [
    q("again_" + n, "two/two.c", KIND=k, REUSE=1, STEPS=3, j=4 if k == 0 else 1, reach=["both used", "made again", "one released first", "end"])
    for k, n in enumerate(["schedulers", "words", "pieces", "bump", "readers", "outputs", "triggers", "queues", "trees", "inputs"])],
    outside="instances used by different threads at once")
chk("E01", "codes", [
    q("codes", "misc/codes.c", reach=["codes", "errors", "components", "events", "identifiers"]),
])
chk("G01", "control macros", [
    q("control", "misc/control.c", reach=["first failed", "second failed", "third failed", "all done", "cleaned"]),
])
chk("I01", "import names", [
    q("prefixed", "misc/alias.c", reach=["one call", "a list"]),
    q("plain", "misc/alias.c", PLAIN=1, reach=["one call", "a list"]),
],
    outside="the string module without a prefix, whose names are the C library's; the vtable module's only function, which V01 decides; import from C++")

from checks.bounds import BOUNDS
for _k, _v in BOUNDS.items():
    CHECKS[_k]["bounds"] = _v
