"""What each check explores; quoted in MANIFEST.json and the evidence."""
BOUNDS = {
"A01": "one construction per query, every subset of the allocations in it (and in the set-up calls it makes) failing, then a repeated one and the release; 27 constructors, what is handed to them drawn from another allocator; stack, fiber and async socket also with any one system call refused",
"A02": "containers of up to 4 (thorough: 6) elements, and of 260, every subset of the releases failing any number of times, then cleared or released again",
"A03": "region sizes 0..144 (thorough: 160) bytes at either alignment, 3 (4) operations, request sizes over all of size_t; and a 400,000-byte region, 300 requests of two symbolic sizes, then requests of any size, before and after a reset; a region and two requests of any size up to 2^46 bytes",
"A04": "one call of each kind with every size, key, status and pointer; 3 calls on the C heap with sizes up to 12 bytes, every one of which may fail",
"A05": "one release of each of 20 kinds of resource, every subset of its reclaims refused",
"A06": "one operation: 20 constructors and every step of theirs that may fail (allocations; for threads, stacks and addressed sockets also system calls); removals from containers of up to 3 (thorough: 5) elements, any element of a tree, an element with or without a resource whose release may fail",
"L01": "every list of up to 4 (thorough: 5) elements and every program of 3 operations at any position with any argument, any allocation failing; lists of 300 with 2 operations anywhere near either end; and 66000 elements in and out",
"L02": "every list of up to 4 (thorough: 5) elements and every program of 3 operations at any position with any argument, any allocation failing; lists of 300 with 2 operations anywhere near either end; and 66000 elements in and out",
"L03": "two lists of up to 2 elements (trees of up to 3), or of 300, with different allocators and orders, swapped, and every program of 3 (thorough: 4) operations on both, released in either order",
"Q01": "every queue of up to 3 elements and every program of 6 (thorough: 7) operations, any allocation failing; queues of 300 with 4 operations; and 66000 elements in and out",
"R01": "one operation on every valid tree of up to 9 (thorough: 11) entries with any keys; every history of 4 (thorough: 5) insertions in any order, with duplicates and failing allocations, a deletion and a clear; trees of 70 (200) entries built in several orders, and any key looked up, inserted or deleted in them; and 66000 entries in and out",
"R02": "one operation on every valid red-black tree of up to 9 (thorough: 11) entries, of every shape and colouring the invariant admits (by induction: every history that stays within that size); histories of 4 insertions and a deletion; trees of 70 (200) entries built and taken apart in several orders",
"S01": "every string of up to 12 (thorough: 16) arbitrary bytes; strings of about 260 with symbolic ends; runs and bodies of 0, 2, 256 and 66000 characters",
"S02": "every string of up to 14 (thorough: 30) arbitrary bytes, every separator, every prefix and suffix; strings of about 260; runs and bodies of 0, 2, 256 and 66000 characters",
"S03": "every string of up to 8 (thorough: 10) bytes and every predicate on its characters; strings of about 260 with blocks of tokens and separators; runs and bodies of 0, 2, 256 and 66000 characters",
"S04": "every list of up to 3 strings of up to 9 (thorough: 14) arbitrary bytes, every allocation failing; strings of about 260; runs and bodies of 0, 2, 256 and 66000 characters",
"U01": "every text of 36 arbitrary bytes, and every one of 0, 35 and 37; every UUID; every allocation failing",
"B01": "every value of every width (complete)",
"B02": "every bit size up to 1100 (thorough: 5000), every digit value, every allocation failing, both orders of release; any 64-bit bit size against an allocator that gives up to 256 bytes",
"T01": "every history of 6 (thorough: 8) calls of signal, register and step, the callback itself making up to two of them",
"K01": "every size over the full range of size_t, every step failing (complete)",
"H01": "one use of each primitive, every argument, every system call in it failing, the thread's function running at once or at the join",
"D01": "up to 3 descriptors at any of 7 places to any distinct targets, any duplication failing, any argument form; and 12 neighbouring descriptors in several orders",
"D02": "every upper bound over all of int, observed at any descriptor; every descriptor and flag word, any system call failing",
"P01": "two consecutive values of any of the 11 types, every value, payloads of up to 6 (thorough: 10) bytes; with every failure and any split of up to 3 (4) transfers payloads of up to 4 (6), one value alone 10 (20) with up to 6 (any number of) split transfers; payloads of 255, 256, 4095..4097, 65535, 65536 and 70000 bytes in chunks; a payload of any 32-bit size written in one transfer of any outcome",
"P02": "every stream of up to 20 (thorough: 40) bytes read as any type, size fields over all 32-bit values, every allocation failing; streams of up to 14 (18) with every end and failure and any split of up to 6 (any number of) transfers",
"P03": "blocks of up to 6 (thorough: 8) bytes and every integer type with every split, end and failure of every transfer; blocks of up to 70000 bytes in chunks; a block of any size up to 2^46 bytes written in up to 3 transfers of any size",
"P04": "streams of up to 4 (thorough: 5) bytes, also beyond 16378 read ones so that the reader's 16384-byte window moves (8 and 9 there), 3 (4) reads of any kind with sizes 1..4, every chunking, would-block, failure and end, then draining; and 50000 bytes with 2 (3) reads of sizes 1, 4096, 16383..16385 and 40000 in chunks; a read with any larger size",
"P05": "streams of up to 7 (thorough: 8) bytes, every place of newlines, line buffers of 2..9 (10) bytes, every chunking; with would-block answers 3 (4) bytes; across the end of the 16384-byte window; and lines of 16383..33000 bytes with buffers of up to 40000",
"P06": "inputs of up to 5 (thorough: 7) bytes and 3 (4) reads; outputs of up to 3 blocks of 4096 bytes, writes of 1, 2, 5, 6, 7, 4095, 4096, 4101, 4102 and 4105 bytes at the start and just before the end of a block, one (two) failing allocations; inputs of up to 70000 bytes; reads of any size up to 2^46 bytes",
"P07": "2 (thorough: 3) transfers of up to 4 bytes, every splitting, end and failure, up to 2 would-block answers and an interrupted wait; one accept, message sent and received; lines of up to 3 (4) bytes; a shut-down request to the waiting fiber with and without a handler; 70000 bytes in chunks with many waits; transfers of any size up to 2^46 bytes in up to 3 parts of any size",
"P08": "2 sockets with a reader and a writer each, 2 reports of any events for each (for one socket 4, thorough: 5, with two, three waits), one interrupted wait, one failing registration; and 1030 sockets with more events than one report holds",
"P09": "0..3 passed descriptors of any value with and without credentials as Linux reports them, truncated or not, or any control data of any length the buffer has room for; every descriptor sent, every answer",
"P10": "3 (thorough: 4) calls of any method, sizes up to 8, every count and error number; every failure of each construction step, every address and port; transfers of any size up to 2^46 bytes",
"P11": "one call of each operation with symbolic arguments and answers, all or none of the optional methods present; sockets over a user's methods and over memory, and a reader's adapter over each",
"F01": "3 fibers of up to 2 or 3 steps each (let others run, wait, add another, finish) and 2 (thorough: 3) steps of the main fiber, with or without a management fiber and an idle fiber; one failing allocation; and 260 fibers of four kinds; fibers in memory 4 GiB apart",
"F02": "up to 3 (thorough: 4) disciplines of up to 3 callbacks with any identifiers (two bytes symbolic), two yields, every 32-bit code, event and parameter; one failing allocation; and 24 disciplines of 1..24 callbacks",
"F03": "up to 4 fibers (thorough: 5), each waiting, finished or not started, two requests to one or all by the main fiber or another, one failing allocation; socket reads and writes of up to 3 (4) bytes interrupted by a request with and without a handler; and 100 fibers; fibers in memory 4 GiB apart",
"F05": "2 (thorough: 3) fibers of up to 2 steps and the main fiber of up to 2, each adding a fiber, yielding or running; every choice of the next fiber, every event, identifier and parameter; one refusal at any point; every failure of creation and release",
"M01": "2 or 3 fibers of 2, 3 or 4 (thorough: 5) steps each, every program of sends, receives, closes, creations and yields, up to 2 initial mailboxes, any address and return address, one failing allocation; and 300 messages through a mailbox, 300 mailboxes; 66000 mailboxes made and closed beside two open ones",
"M02": "2 or 3 fibers of up to 2 steps each, every program of sends, receives, closes, creations and yields, fibers interrupted while waiting, one failing allocation, every point of releasing the scheduler at rest; and 300 messages left in a mailbox",
"C01": "2 or 3 (thorough: up to 4) fibers of 2 or 3 (4) steps each, every program of waits, notifications, closes, creations and yields on up to 2 conditions, any handle, fibers interrupted while waiting, one failing allocation; and 300 waiters, 300 conditions; one of two conditions closed and another made; 66000 conditions made and closed beside two open ones",
"V01": "every address of the address space; every allocator call; every socket operation of the library over a user-method socket, its table replaced before the operation or after any of its first 3 transport calls; 27 constructors",
"F06": "3 fibers of up to 2 (thorough: 3) steps and 2 steps of the main fiber; with a management fiber that lets others run before it waits again, 2 (3) fibers; one failing allocation; and 260 fibers added and finished",
"X01": "programs of 3 (thorough: 4) steps on two schedulers with a mailbox, a condition and fibers each, and of 4 (5) steps on two iterators, allocators, readers, sockets, triggers, queues or trees, in every order of turns, with symbolic contents of a few bytes, either released first; and again with memory given back handed out anew, and released instances made again",
"G01": "three operations and three cleanups, every 32-bit status of each; operands that are calls, conditional and comma expressions",
"I01": "every import name of the public headers (read from them on each run), every argument and answer of 64 bits or its own width, lists of one and two entries",
"E01": "every component below 65536 and every reason below 32768; every code and identifier defined in the public headers",
}
