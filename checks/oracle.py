"""How each property is decided: what runs, what is symbolic, what it is compared with (for DESIGN.md)."""
ORACLE = {
"A01": "`res/ctor.c` runs each constructor on a counting allocator whose every answer is symbolic. Oracle: a ledger of live blocks (each block reclaimed once, by the allocator that gave it, none left), the release count of the resources passed in, and the constructor's status; after a failure the same construction is repeated and must succeed. For scheduler-level constructors the scheduler is used afterwards (discipline found, mailbox address fresh).",
"A02": "`res/own.c` fills a container with resources whose release is a symbolic decision each time it is called, then clears or releases it, repeatedly. Oracle: per-resource release counts, the ledger of blocks, the content left after a failure.",
"A03": "`alloc/bump.c` runs a symbolic program of allocate, reset, reallocate and reclaim with 64-bit symbolic sizes over a region at a symbolic offset. Oracle: interval arithmetic kept beside it (inside, aligned, disjoint), a write to the first and last byte of every block, and the 'fits' predicate written from the contract. `alloc/bump_long.c` does it on a large region.",
"A04": "`alloc/dispatch.c` gives the library a user's allocator whose methods record their arguments and answer symbolic values; `alloc/mallocator.c` puts the malloc allocator over stand-ins of malloc, realloc and free that may fail, with contents compared.",
"A05": "As A01, with every answer of the allocator's reclaim (and of the system calls a release makes) symbolic; oracle: each block was handed to reclaim exactly once, owned resources released once, a status that is not success iff something refused.",
"A06": "Constructors, lookups, pops and deletions with a poisoned output pointer; oracle: NULL there after every failure, every element either still in the container, given out or released.",
"L01": "`list/list_ops.c` builds every list up to the bound, then a symbolic program of operations with symbolic arguments; oracle: an array. After every step forward and backward traversal, head, tail and count are compared with it.",
"L02": "As L01 for `slist`.",
"L03": "`list/swap.c`, `rbtree/rb_swap.c`: two containers from two allocators swapped, then used; oracle: two arrays and one ledger per allocator.",
"Q01": "`queue/queue_ops.c`: symbolic programs of append, insert and pop; oracle: an array used as a queue.",
"R01": "`rbtree/rb_step.c` constructs every red-black tree of up to N entries with symbolic, strictly increasing keys, so shape and colouring are enumerated by constraints, and does one insertion, lookup or deletion with a symbolic key: an inductive step. `rbtree/rb_hist.c` uses the public API only, from empty. `rb_long.c` uses large trees. Oracle: a sorted array; in-order traversal both ways, find of every key.",
"R02": "The same runs with the red-black invariant as oracle: root black, no red-red edge, equal black heights, parent links, and the order.",
"S01": "`str/trim.c`: all bytes symbolic; oracle: first and last non-whitespace index computed independently.",
"S02": "`str/split.c`: all bytes and the separator symbolic; oracle: definitions over indices.",
"S03": "`str/words.c`: all bytes symbolic, the predicate an arbitrary symbolic function of the characters; oracle: maximal runs computed beside it.",
"S04": "`str/dup.c`: symbolic strings and allocation failures; oracle: concatenation, and the inputs unchanged.",
"U01": "`uuid/uuid.c`: every character symbolic, paths merged; oracle: the 8-4-4-4-12 grammar and the value computed beside it, destination unchanged on rejection, format then parse is the identity.",
"B01": "`misc/hton.c`: symbolic values; oracle: byte positions.",
"B02": "`misc/bigint.c`: symbolic size and digits; oracle: zeroes, equal copies, independence of the two.",
"T01": "`misc/trigger.c`: symbolic histories including calls made from the callback; oracle: a four-state automaton.",
"K01": "`misc/stack.c`: symbolic size and failures of mmap, munmap and the allocator; oracle: one mapping of at least that size, unmapped once with its length.",
"H01": "`thread/thread.c`: pthread calls are stand-ins answering symbolic success or failure; oracle: the pairing of init and destroy, lock and unlock, create and join, and the statuses.",
"D01": "`desc/move.c`: a descriptor table with symbolic places and targets, dup and close stand-ins that may fail; oracle: the final table, nothing overwritten before it is moved.",
"D02": "`desc/util.c`: symbolic bounds, descriptors and flags; oracle: which descriptors were closed, which flags are set; closing at or above FD_SETSIZE is a known finding.",
"P01": "`psock/boxed.c`: values of any type written through a transport (a user-method socket) that splits or fails symbolically, then read back through another; oracle: the reference encoding and the values. `psock/big.c` for large sizes.",
"P02": "`psock/hostile.c`: every byte of the stream, its end, failures and allocations symbolic; oracle: a reference decoder; on failure outputs untouched and no block kept.",
"P03": "`psock/raw.c`: as P01 without boxes; oracle: the bytes, and exactly as many transfers as needed.",
"P04": "`psock/br.c`: mixed partial, exact and line reads over a transport that splits, would block, fails and ends symbolically; oracle: the stream itself with a cursor. PRE moves the cursor next to the end of the reader's window.",
"P05": "The same harness with line reads only; oracle: lines of the stream computed beside it.",
"P06": "`psock/buffer.c`: memory sockets read in symbolic portions, output sockets written across block ends with failing allocations; oracle: the bytes accepted.",
"P07": "`psock/async.c`: a fiber uses an async socket on the library's own scheduler and idle fiber; read, write, accept, sendmsg, recvmsg and epoll_wait answers symbolic (split, would block, interrupted, end, error). Oracle: the result a blocking socket would have given, and that the fiber waits exactly when told to.",
"P08": "`psock/idle.c`: the events epoll_wait reports are symbolic; oracle: which fibers each report must wake and that no other runs, and the interest registered with epoll_ctl.",
"P09": "`psock/rights.c`: the control message's bytes and lengths symbolic as the operating system may give them; oracle: exactly one descriptor is accepted, every other received one is closed.",
"P10": "`psock/fdsock.c`: every answer and errno of the system calls symbolic; oracle: the mapping of answers to statuses, each descriptor closed once, arguments passed on.",
"P11": "`psock/forward.c`: a user's methods record the call; oracle: same arguments, same answer, once.",
"F01": "`fiber/sched.c`: fibers with symbolic programs on the library's scheduler (the context switch replaced by the contract F04 proves); oracle: a run queue kept beside it. `fiber/many.c` for many fibers.",
"F02": "`fiber/disc.c`: symbolic identifiers, table sizes and codes; oracle: which callback ran, with what.",
"F03": "`fiber/mgmt.c`: fibers in every state of waiting, finished and not started, requests by main or another fiber; oracle: who was resumed, how often and with what. Socket waits interrupted: `psock/async.c`.",
"F04": "`checks/asm_exec.py` assembles the repository's .s files with the compiler the build uses, disassembles the object and executes the instructions symbolically with Z3: registers, memory, x87 and SSE control words all symbolic. Oracle: the System V calling convention. Reachability labels guard against vacuity.",
"F05": "`fiber/user.c`: a user's scheduler callback chooses the next fiber, identifier, event and parameter symbolically and may refuse; oracle: what it was asked and what it answered.",
"M01": "`msg/mail.c`: fibers with symbolic programs of sends, receives, closes and creations; oracle: a queue of messages per mailbox and the set of blocked receivers; every failure must have a cause.",
"M02": "The same harness with interruptions, failing allocations and release at rest; oracle: each message and payload received or released exactly once.",
"C01": "`cond/cond.c`: fibers with symbolic programs of waits, notifications, closes and creations; oracle: the ordered set of waiters per condition.",
"V01": "The library built with RCPR_VTABLE_RUNTIME_ENFORCEMENT; a resource's method table is replaced by a forged one at any point of an operation; oracle: the forged method never runs and the operation fails; genuine tables keep working.",
"F06": "`fiber/sched.c` with a management fiber, which may also let others run before it listens again; oracle: the list of additions and endings while it listened, each told once and at once.",
"X01": "`two/two.c` runs a symbolic program on two instances in turns, and again each instance's part alone; oracle: every answer and every byte observed of an instance must be equal in both.",
"G01": "`misc/control.c`, a function written with the macros; oracle: the status and the steps that the documentation implies for the answers the steps gave.",
"I01": "`misc/alias.c` with one call per import name, generated from the public headers on each run; the functions behind the names are stand-ins that compare what they get with what the caller gave.",
"E01": "`misc/codes.c` with the codes and identifiers read from the public headers on each run; oracle: pairwise distinctness and the sign of a status.",
}
