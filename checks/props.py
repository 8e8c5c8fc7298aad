"""The properties (generates properties.jsonl through bin/gen.py)."""
PROPS = []
T = "The CBMC models in the baseline cover a handful of single calls on one or two elements; the C++ unit tests (not run in the baseline) use fixed examples."


def p(pid, title, statement, over, text, files, mech, why=None, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    if hook:
        a["hook_needed"] = hook
    PROPS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why or T, "anchors": a})


# ---------------------------------------------------------------- ownership
p("A01", "Constructors are all-or-nothing under every allocation-failure schedule",
  "Every constructor of a resource that draws memory from a caller's allocator either succeeds, giving a resource whose release succeeds and returns every block it drew, or fails with an out-of-memory status, or another error when the operating system refused a call. After a failed construction every block drawn on the way has been reclaimed exactly once, the resources passed in still belong to the caller and have not been released, and the construction can be repeated successfully.",
  ["fault_sequences", "inputs"],
  "for every constructor of the library and every subset of its allocations failing",
  ["src/*/*_create*.c"],
  [("goto-cleanup chains in constructors", "src/*/*_create*.c"), ("release functions", "src/*/*_resource_release*, *_release*.c")],
  "Which allocation fails is a schedule; unit tests never inject a failure, the CBMC models do so for a few constructors only and never count blocks across the whole set.")
p("A02", "Releasing a container releases everything it owns exactly once",
  "Releasing or clearing a list, singly linked list, queue or tree releases each resource it owns exactly once and reclaims every block, and releases nothing it does not own. If an owned resource fails to release, that failure is reported: a list or queue then holds exactly the resources not yet released, stays usable, and a repeated clear or release goes on with them, while a tree releases all the others in the same call. No resource is ever released twice, and once release has succeeded every block is reclaimed.",
  ["histories", "fault_sequences", "inputs"],
  "for every container content within the bound and every subset of owned resources whose release fails",
  ["src/list/list_resource_release.c", "src/slist", "src/queue", "src/rbtree/rbtree_clear.c", "src/rbtree/rbtree_delete_nodes.c"],
  [("resource_release dispatch", "src/resource/resource_release.c"), ("node cleanup", "src/list/list_node_cleanup.c, src/slist/slist_node_cleanup.c, src/rbtree/rbtree_node_resource_handle.c")])
p("A03", "Bump allocator: disjoint, in-region, aligned blocks; refuses what does not fit",
  "Every block a bump allocator hands out lies entirely inside the caller's region, is aligned for any type, and overlaps neither the allocator's own state nor any block handed out since its last reset. A request that does not fit the remaining region fails with an out-of-memory status and a null pointer, for every requested size up to the largest representable one, and leaves the remaining capacity unchanged; a request with room to spare succeeds.",
  ["inputs", "histories"],
  "for every region size within the bound and every sequence of requested sizes over the full 64-bit range",
  ["src/allocator/bump_allocator_create.c"],
  [("offset bookkeeping", "src/allocator/bump_allocator_create.c:bump_allocator_allocate")],
  "The size argument ranges over 2^64 values and the wrap-around cases are at the top of that range; the tests allocate a few small blocks.")
p("A04", "Allocator calls reach the right backend, in order, with the right arguments",
  "Allocate, reclaim, reallocate and control on any allocator reach that allocator's own method exactly once with the caller's arguments and give back its status and pointer unchanged. With the malloc allocator, memory is obtained and returned through the C heap, a failed request reports out-of-memory, a failed reallocation leaves the old block valid, and a successful one keeps its contents.",
  ["inputs", "fault_sequences"], "for every size, control key, backend status and heap failure",
  ["src/allocator"], [("dispatch", "src/allocator/allocator_*.c"), ("malloc backend", "src/allocator/malloc_allocator_create.c")])
# --------------------------------------------------------------- containers
p("A05", "Releasing a resource gives back everything even when a part of it fails",
  "Releasing a single resource (an empty container, a message, big integer, socket, buffered reader, fiber, stack, lock, trigger, discipline or joined thread) gives every block it drew back to its allocator exactly once, closes or unmaps what it holds and releases what it owns, also when the allocator answers some of those calls with an error, or an owned resource does. The release then reports an error; with nothing refused it succeeds.",
  ["fault_sequences"], "for every subset of the reclaims in one release being refused", ["src"],
  [("release functions", "src/*/*_release.c, the static release functions of the *_create.c files")])
p("A06", "A failing operation gives nothing out and loses nothing",
  "An operation that hands out a resource or a block through a pointer (constructing a resource, locking a mutex, allocating memory or a text, looking up, popping or deleting an element) and fails leaves NULL there, whatever a constructor's, lookup's or tree deletion's pointer held before, for every failing allocation, reclaim or system call. Removing an element whose node cannot be given back reports the failure, releases the element once and leaves the container with all its others.",
  ["inputs", "fault_sequences"], "for every constructor, lookup and removal that documents its output on failure, and every step of it that fails",
  ["src/*/*_create*.c", "src/list/list_pop.c", "src/slist/slist_pop.c", "src/slist/slist_node_next_pop.c", "src/rbtree/rbtree_delete.c", "src/rbtree/rbtree_delete_node.c"],
  [("outputs set to NULL on failure", "src/*/*_create*.c"), ("removed elements released when their node is not", "src/list/list_pop.c, src/slist/slist_pop.c, src/rbtree/rbtree_delete*.c")])
p("L01", "Doubly linked list behaves as a sequence under every operation history",
  "After any history of insertions at the head, the tail, or around any node, pops, child swaps and clears, forward traversal yields exactly the sequence those operations define, backward traversal is its reverse, and the count is its length. An insertion whose allocation fails reports out-of-memory, leaves the list unchanged and the caller owning the resource.",
  ["histories", "inputs", "fault_sequences"],
  "for every list up to the bound, every operation history within the bound, every position and every allocation failure",
  ["src/list"], [("link maintenance", "src/list/list_insert.c, list_append.c, list_insert_head.c, list_append_tail.c, list_pop.c, list_clear.c")],
  state=[("head/tail/count", "the sequence", "src/list/list_internal.h"), ("prev/next", "links", "src/list/list_internal.h")])
p("L02", "Singly linked list behaves as a sequence under every operation history",
  "After any history of insertions at the head, the tail or after any node, pops from the front or after a node, child swaps and clears, traversal yields exactly the sequence those operations define, the tail is its last element and the count is its length. An insertion whose allocation fails reports out-of-memory, leaves the list unchanged and the caller owning the resource.",
  ["histories", "inputs", "fault_sequences"],
  "for every list up to the bound, every operation history within the bound, every position and every allocation failure",
  ["src/slist"], [("link maintenance", "src/slist/slist_*.c")])
p("L03", "Swapping two containers exchanges their contents and nothing else",
  "After two lists, singly linked lists, or trees are swapped, each holds exactly what the other held, in the same order, and both go on behaving as that container under any further operation: insertions next to existing nodes, deletions, pops and clears affect the container that now holds the node. Releasing either afterwards releases only what it now holds, each block going back to the allocator it was drawn from.",
  ["histories", "inputs"], "for every pair of containers up to the bound, then every follow-up operation",
  ["src/list/list_swap.c", "src/slist/slist_swap.c", "src/rbtree/rbtree_swap.c"],
  [("swap", "src/list/list_swap.c, src/slist/slist_swap.c, src/rbtree/rbtree_swap.c")])
p("Q01", "Queue delivers each element exactly once, in order",
  "Elements appended to a queue are popped in the order appended, elements inserted at the front are popped before the rest, each exactly once, and the count is the number not yet popped. Popping an empty queue yields nothing and is not an error; an append or insert whose allocation fails changes nothing and leaves the resource with the caller.",
  ["histories", "fault_sequences"], "for every operation history within the bound and every allocation failure",
  ["src/queue"], [("list delegation", "src/queue/queue_append.c, queue_insert.c, queue_pop.c")])
p("R01", "Red-black tree is an ordered map under every operation history",
  "After any history of insertions and deletions of keys in any order, a key is found exactly when it is present and yields the very resource inserted under it, the count is the number of entries, and walking from the minimum by successor, or from the maximum by predecessor, visits every entry once in key order. Inserting a key already present is refused as a duplicate, changes nothing and leaves the resource with the caller. Deleting an absent key reports not-found and changes nothing; a deletion gives the resource back to the caller or, when no destination is given, releases it.",
  ["histories", "inputs", "fault_sequences"],
  "for every insertion order and every deletion order of distinct keys up to the bound, and every allocation failure",
  ["src/rbtree"], [("search tree surgery", "src/rbtree/rbtree_insert_node.c, rbtree_remove_node.c, rbtree_transplant.c, rbtree_left_rotate.c, rbtree_right_rotate.c"), ("walk", "src/rbtree/rbtree_successor_node.c, rbtree_predecessor_node.c")])
p("R02", "Red-black tree stays balanced",
  "After any history of insertions and deletions the tree is a red-black tree: the root is black, no red node has a red child, and every path from the root to a leaf passes the same number of black nodes. Hence the depth never exceeds twice the base-two logarithm of the number of entries plus one.",
  ["histories", "inputs"], "for every insertion order and deletion order of distinct keys up to the bound",
  ["src/rbtree/rbtree_insert_fixup.c", "src/rbtree/rbtree_delete_fixup.c"],
  [("fix-ups", "src/rbtree/rbtree_insert_fixup.c, src/rbtree/rbtree_delete_fixup.c")],
  "The failing shapes need particular deletion orders on particular trees; tests delete in one or two orders and do not check balance.")
# ------------------------------------------------------------------- string
p("S01", "Trimming removes exactly the surrounding whitespace",
  "Trimming the left, the right or both ends of any string removes exactly the maximal run of whitespace at that end and keeps every other character in order, working in place and never reading or writing outside the string. A string of only whitespace becomes empty, and the whitespace test agrees with the C locale's.",
  ["inputs"], "for every string up to the bound over all byte values",
  ["src/string/left_trim.c", "src/string/right_trim.c", "src/string/trim.c", "src/string/is_whitespace.c"],
  [("in-place trim", "src/string/*trim.c")],
  "The space of byte strings cannot be sampled; the models check memory safety, not the result.")
p("S02", "Split, prefix and suffix tests agree with their definition",
  "Splitting a string at a delimiter character cuts it at the first occurrence, giving the text before it as the left part and the text after it as the right part; when the delimiter is absent that is reported, both parts are null and the string is unchanged. The starts-with test is true exactly when the given string is a prefix, the ends-with test exactly when the given character is the last one, and chomp removes exactly the last character, if there is one.",
  ["inputs"], "for every pair of strings up to the bound over all byte values",
  ["src/string/split.c", "src/string/starts_with.c", "src/string/ends_with.c", "src/string/chomp.c"],
  [("scan", "src/string/split.c, starts_with.c, ends_with.c, chomp.c")])
p("S03", "Tokenising iterators yield exactly the tokens of the string",
  "Iterating over the words of any string yields, in order, exactly its maximal runs of non-whitespace characters and then ends, and keeps on answering that it has ended. Iterating over the pieces selected by a caller's predicate yields exactly the pieces between maximal runs, in the documented order; no call reads or writes outside the string.",
  ["inputs"], "for every string up to the bound and every delimiter predicate over its bytes",
  ["src/string/words.c", "src/string/multisplit.c"],
  [("iterators", "src/string/words.c, src/string/multisplit.c")])
p("S04", "String duplication and concatenation allocate exactly and copy exactly",
  "Duplicating a string gives a fresh string equal to it; concatenating any number of strings gives a fresh string equal to them joined in order, terminated, in a block large enough for it. An allocation failure is reported as out-of-memory with nothing leaked, and the inputs are never modified.",
  ["inputs", "fault_sequences"], "for every list of strings up to the bound and every allocation failure",
  ["src/string/strdup.c", "src/string/vstrcat.c", "src/string/strcat.c"],
  [("length pass then copy pass", "src/string/vstrcat.c")])
# --------------------------------------------------------------------- uuid
p("U01", "UUID parsing accepts exactly well-formed text and inverts formatting",
  "A string parses as a UUID exactly when it is 36 characters of hexadecimal digits, in either case, with dashes at the four standard places, and the result is the sixteen bytes those digits spell; anything else is rejected as invalid. Formatting any UUID gives the canonical lower-case text, which parses back to the same UUID, and a rejected string leaves the destination unchanged.",
  ["inputs", "fault_sequences"], "for every 36-byte string, every shorter and longer one up to the bound, and every 16-byte value",
  ["src/uuid"], [("digit parser", "src/uuid/rcpr_uuid_parse_raw_string.c"), ("formatter", "src/uuid/rcpr_uuid_to_string.c")],
  "There are 2^288 candidate strings; the unit tests use a few.")
p("B01", "Byte-order conversion is big-endian and invertible at every width",
  "Host-to-network conversion of every signed and unsigned 16, 32 and 64 bit value gives the value whose in-memory bytes are the most significant first, and network-to-host conversion is its inverse.",
  ["inputs"], "for every value of each width", ["src/socket_utilities/socket_utility_hton16.c", "src/socket_utilities/socket_utility_ntoh64.c"],
  [("conversion", "src/socket_utilities/socket_utility_{hton,ntoh}{16,32,64}.c")])
p("B02", "Big integers are created as zero and cloned faithfully",
  "A big integer created with any bit size has enough storage for that many bits, all zero; a clone has the same size, sign and digits and shares no storage with the original. Releasing either reclaims all it drew and leaves the other intact, and an allocation failure leaks nothing.",
  ["inputs", "fault_sequences"], "for every bit size up to the bound, every digit value, every allocation failure",
  ["src/bigint"], [("create", "src/bigint/bigint_create_zero.c"), ("clone", "src/bigint/bigint_clone.c")])
# ---------------------------------------------------------- trigger, threads
p("T01", "Auto-reset trigger delivers every signal exactly once and never loses one",
  "A signal is delivered to the registered callback exactly once per step that finds trigger and listener both present, whichever came first; signals raised before the step collapse into one, and after delivery the trigger is reset, so the listener must register again. A signal raised or a listener registered from inside the callback itself takes part in the next step and is not lost.",
  ["histories"], "for every history of signal, register and step calls within the bound, including calls made from inside the callback",
  ["src/auto_reset_trigger"], [("step", "src/auto_reset_trigger/auto_reset_trigger_step.c")])
p("H01", "Threads, mutexes and condition variables are released completely",
  "Creating a thread, mutex or condition variable either succeeds or, at whichever operating-system or allocation step it fails, undoes the steps before it and leaks nothing. Releasing a mutex lock unlocks that mutex exactly once, releasing a thread joins it exactly once before its stack goes away, waiting on a condition gives the caller back a held lock, and each operating-system failure is reported. A thread runs the caller's function once with the caller's context, and releasing it gives that function's own status when the join succeeds.",
  ["fault_sequences", "histories"], "for every subset of failing system and allocation steps and every usage history within the bound",
  ["src/platform/pthread/thread"], [("resource wrappers", "src/platform/pthread/thread/*.c")],
  "pthread calls do not fail on demand in a test.")
p("K01", "Stacks are mapped, recorded and unmapped exactly once",
  "Creating a stack of any size either gives a region of at least that size which releasing unmaps exactly once with the address and length it was mapped with, or fails at the allocation or the mapping and leaks neither.",
  ["inputs", "fault_sequences"], "for every size and every failing step", ["src/stack", "src/platform"],
  [("mmap wrapper", "src/stack/*")])
p("V01", "Enforcement calls through no method table outside the protected section",
  "Built with run-time enforcement, the library treats a resource's method table as valid exactly when its address lies inside the binary's section of method tables. An operation of the allocator, resource-release or socket interface on a resource whose table lies elsewhere reports a bad table (a line reader: a failed read), calls nothing and gives nothing out, even when the table was replaced between two steps of the operation; and what it drew by then is returned. Every resource the library makes has its own table in the section, so the check refuses none of them.",
  ["inputs", "histories"], "for every address a table may have, every operation of these interfaces, every step of it at which the table is replaced, and every kind of resource the library makes",
  ["include/rcpr/vtable.h", "include/rcpr/resource.h", "src/allocator", "src/resource", "src/psock"],
  [("range check", "include/rcpr/vtable.h"), ("checks before each call through a table", "src/psock/*.c, src/allocator/*.c, src/resource/resource_release.c")],
  "The option is off in the tested build, and an address one past the section is not an input a test picks.")
# -------------------------------------------------------------- descriptors
p("D01", "Descriptor moving puts every descriptor at its target without losing any",
  "Moving descriptors above a threshold leaves every listed variable naming a descriptor at or above it that refers to the variable's own file, all distinct, with the numbers they moved from closed, whatever the overlap. Setting descriptors makes each target number refer to its source's file, closes sources that are not targets, and keeps a source already in place, provided that no target is a source still to be mapped (so: after a move). No other descriptor is affected, and a failing system call is reported without closing a descriptor twice or losing a listed file.",
  ["inputs", "fault_sequences"], "for every assignment of sources and distinct targets over a table of descriptors within the bound, and every failing system call",
  ["src/socket_utilities/vsocket_utility_move_descriptors.c", "src/socket_utilities/vsocket_utility_setfds.c"],
  [("dup2 loops", "src/socket_utilities/vsocket_utility_setfds.c, vsocket_utility_move_descriptors.c")])
p("D02", "Descriptor utilities close exactly what they name and report failures",
  "Closing the other descriptors closes every open descriptor above the given one and neither it nor any below it; closing the standard descriptors closes exactly zero, one and two. Creating a socket pair or making a descriptor non-blocking reports each system failure, preserves the descriptor's other flags, and leaves no descriptor open after a failure.",
  ["inputs", "fault_sequences"], "for every descriptor table within the bound and every failing system call",
  ["src/socket_utilities"], [("close loops", "src/socket_utilities/socket_utility_close_other_fds.c, socket_utility_close_standard_fds.c"), ("flags", "src/socket_utilities/socket_utility_set_nonblock.c")])
# ------------------------------------------------------------------- psocks
p("P01", "Boxed values round-trip over every transport chunking",
  "Whatever boxed value of any type is written to a socket whole is read back equal by the matching boxed reader, and the bytes on the wire are the type tag followed by the value (or size and payload), most significant byte first. Consecutive values are read back in order with nothing left over, and however the transport splits a transfer, the outcome is that value or a reported failure, never another value.",
  ["inputs", "schedules"], "for every type, value and chunking, payload lengths up to the bound",
  ["src/psock"], [("boxed codecs", "src/psock/psock_{read,write}_boxed_*.c"), ("raw loop", "src/psock/psock_read_raw_data.c, psock_write_raw_data.c")],
  "Values range over 2^64 and chunk boundaries fall anywhere; tests write a few constants to a socketpair that never splits them.")
p("P02", "Malformed boxed input is rejected without overrun, leak or publication",
  "Reading a boxed value of any type from arbitrary bytes succeeds exactly when they begin with that type's complete encoding. Otherwise it fails, publishes no value, leaks nothing and touches no memory it did not allocate, whatever the size field says; a wrong type tag is reported as an unexpected type.",
  ["inputs", "fault_sequences"], "for every byte stream up to the bound, ending or failing anywhere, and every allocation failure",
  ["src/psock"], [("validation", "src/psock/psock_read_boxed_*.c")],
  "Hostile input cannot be sampled.")
p("P03", "Raw reads and writes move exactly the requested bytes or report failure",
  "A raw data read or write of any number of bytes succeeds exactly when the transport moved all of them, in order and none twice, however it splits them; end of stream or an error in the middle is reported and never presented as success. Raw integers and booleans travel most significant byte first and round-trip for every value; one the transport moves only in part is never presented as success. A non-blocking raw read delivers exactly the bytes of its one transfer.",
  ["inputs", "schedules", "fault_sequences"], "for every length up to the bound, every split, end of stream or error position",
  ["src/psock/psock_read_raw_data.c", "src/psock/psock_write_raw_data.c", "src/psock/psock_read_block.c"],
  [("loops", "src/psock/psock_read_raw_data.c, psock_write_raw_data.c")])
p("P04", "Buffered reading delivers the byte stream unchanged",
  "Through a buffered reader, whatever mixture of exact reads, partial reads and line reads is made, the concatenation of the bytes delivered is a prefix of the bytes the underlying socket produced: none lost, duplicated or reordered. Buffered bytes are delivered before an error or the end of the stream is reported; only an exact read that fails for want of bytes gives up those it moved. A read that the buffered bytes satisfy asks the socket for nothing.",
  ["inputs", "histories", "schedules"], "for every stream, buffer size, chunking and operation history within the bound",
  ["src/psock/psock_br_*.c"], [("window", "src/psock/psock_br_fill.c, psock_br_psock_read.c, psock_br_read_line.c")],
  state=[("offset/current_size", "unread window of the buffer", "src/psock/psock_internal.h")])
p("P05", "Line reading returns each line whole, terminated and inside the buffer",
  "Reading a line into a buffer that can hold it gives exactly the bytes up to the next newline, which is consumed, or to the end of the stream, followed by a terminator, and reports their size with the terminator. A line too long for the buffer, or interrupted because the transport would block, is reported as truncated with the part read and its size, terminated; nothing is ever written past the buffer, and reading on continues where the previous call stopped.",
  ["inputs", "schedules"], "for every stream up to the bound, every buffer size and chunking",
  ["src/psock/psock_br_read_line.c"], [("line scan", "src/psock/psock_br_read_line.c")])
p("P06", "Buffer sockets read back their input and collect their output exactly",
  "A socket made from a string delivers exactly the bytes of that string in order and then end of stream, however the reads are sized. A socket made for output collects exactly the concatenation of all writes accepted, across its internal growth, gives it out as one buffer with its size, and a write that fails for want of memory loses none of the bytes already accepted and adds none of its own.",
  ["inputs", "histories", "fault_sequences"], "for every history of reads and writes within the bound and every allocation failure",
  ["src/psock/psock_from_buffer_*.c", "src/psock/psock_create_from_buffer.c"], [("output queue", "src/psock/psock_from_buffer_write.c, psock_from_buffer_get_output_buffer.c")])
p("P07", "Async sockets wait for readiness and never lose or repeat bytes",
  "A blocking read or write on an async socket whose transport would block waits for readiness and resumes where it stopped, so that it moves exactly the requested bytes once each for every interleaving of partial transfers, would-block answers and wake-ups. End of stream or an error is reported, with the size saying how many bytes were moved, and a request to shut down during the wait ends it with an error.",
  ["schedules", "fault_sequences"], "for every sequence of partial transfers, would-blocks, end of stream and errors within the bound",
  ["src/psock/psock_wrap_async_read.c", "src/psock/psock_wrap_async_write.c"], [("loops", "src/psock/psock_wrap_async_{read,write,accept,sendmsg,recvmsg}.c")])
p("P08", "A fiber waiting for I/O is woken by every readiness notification",
  "For every readiness report of the operating system about a descriptor a fiber waits for, including errors and hang-ups, exactly that fiber is made runnable once with the matching reason, and no other fiber is. Waiting fibers stay waiting while nothing is reported, and interrupted waits are retried.",
  ["schedules"], "for every combination of waiting fibers and reported events within the bound",
  ["src/psock/platform/epoll"], [("idle loop", "src/psock/platform/epoll/psock_idle_fiber_entry.c"), ("registration", "src/psock/platform/epoll/psock_fiber_scheduler_disciplined_*_wait_callback_handler.c")],
  "Hang-ups and errors without data are rare on a test machine.")
p("P09", "Descriptor passing hands over exactly one descriptor or fails cleanly",
  "Sending a descriptor transmits exactly the given one as rights with one byte of data. Receiving gives the caller exactly the descriptor the peer sent when the message is well formed, and otherwise fails without giving one out; no received control data, however malformed or truncated, makes it read outside the message.",
  ["inputs", "fault_sequences"], "for every received control message within the bound", ["src/psock/psock_read_raw_descriptor.c", "src/psock/psock_write_raw_descriptor.c"],
  [("cmsg handling", "src/psock/psock_read_raw_descriptor.c, psock_write_raw_descriptor.c")])
p("P10", "Descriptor sockets map every system answer to the right result and never leak",
  "A descriptor socket turns each answer of the operating system, full or short transfer, end of file, would-block or error, into the documented status and the number of bytes moved. The descriptor is closed exactly once: when the socket is released, or, for sockets the library itself opens by address or host name, when any later step of the construction fails.",
  ["fault_sequences", "inputs"], "for every system call result and every failing step of construction", ["src/psock/psock_from_descriptor_*.c", "src/psock/psock_create_from_*.c"],
  [("error mapping", "src/psock/psock_from_descriptor_*.c"), ("construction clean-up", "src/psock/psock_create_from_listen_address.c, psock_create_from_hostname_and_port.c")])
# ------------------------------------------------------------------- fibers
p("P11", "User-defined sockets get every call unchanged",
  "A socket made from user methods, and the buffered reader's adapter over any socket, hands each operation (read, write, accept, message send and receive, and for user sockets socket options and release) to the method of the underlying socket exactly once, with that socket, its own context and the caller's arguments, and returns its answer and outputs unchanged; the adapter's reads go through its buffer. A method the user left out is reported as undefined and changes nothing, and releasing a reader leaves the socket it reads alone.",
  ["inputs"], "for every argument and answer", ["src/psock"],
  [("user sockets", "src/psock/psock_create_from_user_methods.c"), ("adapter", "src/psock/psock_br_psock_*.c")])
p("F01", "Scheduler runs each added fiber once, in order, and frees finished ones",
  "Fibers added to a scheduler run in the order they were added, each starting its entry function exactly once with its own context; runnable fibers take turns in the order they became runnable, and a scheduler run by the main fiber returns once every fiber runnable before it has had its turn. A finished fiber never runs again, is released exactly once with its stack, and fibers not yet finished are released with the scheduler; a failed addition leaves the fiber with its creator.",
  ["histories", "schedules", "fault_sequences"], "for every program of adds, yields and runs within the bound and every allocation failure",
  ["src/fiber/common"], [("scheduler callback", "src/fiber/common/fiber_scheduler_create_with_disciplines.c"), ("run", "src/fiber/common/fiber_scheduler_run.c")])
p("F02", "Yield requests reach exactly the handler of the discipline they name",
  "A yield through a discipline reaches exactly the callback registered for that code with the yielded parameter and that discipline's context, for every set of registered disciplines, and the value it resumes with reaches the yielding fiber unchanged. A yield with a code outside the discipline's table, or made directly to the scheduler with a code nobody registered, is rejected and runs no callback; a discipline is found by its identifier exactly when it was added, and adding a second with the same identifier fails.",
  ["inputs", "histories", "fault_sequences"], "for every set of disciplines within the bound, every 64-bit code and every allocation failure",
  ["src/fiber/common"], [("vector of callbacks", "src/fiber/common/fiber_scheduler_discipline_add.c"), ("dispatch", "src/fiber/common/fiber_scheduler_create_with_disciplines.c, fiber_discipline_yield.c")])
p("F03", "Management requests reach every live fiber and unexpected events its handler",
  "A quiesce or terminate request to all resumes every waiting fiber added to the scheduler, other than the requester and the management fiber, exactly once with that request; a request to one waiting fiber resumes that fiber and no other, and is refused for one that has not started. A fiber interrupted in a blocking socket call has the event delivered to the unexpected-event handler registered for that fiber, whose answer decides whether the call is retried, and without one the call fails.",
  ["histories", "schedules"], "for every population of waiting and runnable fibers within the bound", ["src/fiber/common"],
  [("management discipline", "src/fiber/common/disciplined_fiber_scheduler_send_*_request_to_*.c"), ("unexpected events", "src/fiber/common/fiber_unexpected_event.c")])
p("F05", "A user's scheduler callback sees every event and decides what runs next",
  "A scheduler made from a user's callback calls it once per event, with the callback's context, the fiber that caused the event and the event's parameter: first for the main fiber, then for each addition, yield, run and finished fiber (with the status it finished with), last for the release. Exactly the fiber the callback names continues, a new one in its entry function with its own context and each other in the call that suspended it, which gives it the identifier, event and parameter the callback chose; a failing callback's status is the answer of the call and no other fiber runs. A creation the callback refuses or answers wrongly fails, tells it of the release and keeps nothing.",
  ["inputs", "schedules", "histories", "fault_sequences"], "for every program of additions, yields and runs within the bound, every choice of the next fiber and every refusal",
  ["src/fiber/common"], [("creation", "src/fiber/common/fiber_scheduler_create.c"), ("requests", "src/fiber/common/fiber_scheduler_add.c, fiber_scheduler_yield.c, fiber_scheduler_run.c"), ("entry", "src/fiber/common/fiber_entry.c"), ("release", "src/fiber/common/fiber_scheduler_resource_release.c")])
p("F06", "The waiting management fiber is told of each added and finished fiber once",
  "A fiber that waits for management events is resumed exactly once, before any other fiber runs, for each fiber that is added to or finishes on the scheduler while it waits, with the event and the fiber concerned. What happens while it is not waiting is not told later, a failed addition tells nothing, and nothing else resumes it unless it is made runnable. A finished fiber it is told of can be removed and released with its stack, and the others go on.",
  ["schedules", "histories", "fault_sequences"], "for every program of the fibers and of the management fiber within the bound", ["src/fiber/common"],
  [("management events", "src/fiber/common/fiber_scheduler_create_with_disciplines.c"), ("waiting for one", "src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c"), ("removing a finished fiber", "src/fiber/common/disciplined_fiber_scheduler_remove_fiber.c")])
p("F04", "Context switch preserves what the calling convention promises",
  "Switching from a fiber to another and later back leaves the first with the same stack pointer, callee-saved registers and floating-point control state, and resumes it right after its switch with the discipline, reason and parameter given by the switch that resumed it. The first switch to a new fiber enters its entry function on its own, correctly aligned stack with the scheduler and fiber as arguments; if that function ever returns, the process ends with a status that is not zero.",
  ["inputs", "schedules"], "for every machine state and every switch arguments", ["src/fiber/platform/sysv/x86_64"],
  [("assembly", "src/fiber/platform/sysv/x86_64/*.s")], "Which register is live across a switch depends on the compiler; tests exercise whatever the test build happens to keep there.")
# ----------------------------------------------------- messaging, conditions
p("M01", "Messages are delivered exactly once, to their mailbox, in order",
  "Every message sent to an open mailbox is received exactly once, by a receiver on that mailbox, in the order sent and with its own payload and return address, whether the receiver or the sender came first. Mailbox addresses given out are distinct and never zero while any is open, and messages to an unknown or closed mailbox are rejected and stay with the sender. An operation that fails tells whether memory or the mailbox was missing.",
  ["schedules", "histories"], "for every interleaving of fibers that create, send, receive and close within the bound",
  ["src/message"], [("mailbox queues", "src/message/message_discipline_message_send_callback_handler.c, message_discipline_message_receive_callback_handler.c")])
p("M02", "Closing a mailbox releases its messages once and wakes its receiver",
  "Closing a mailbox, or releasing the scheduler, releases every undelivered message with its payload exactly once. A fiber blocked receiving on a mailbox that is closed is resumed with an error, a receiver interrupted while it waits takes no message any more, and no memory failure in sending or receiving loses or duplicates a message or its payload.",
  ["schedules", "fault_sequences"], "for every history within the bound and every allocation failure", ["src/message"],
  [("close handler", "src/message/message_discipline_mailbox_close_callback_handler.c")])
p("C01", "Condition notification wakes exactly the right waiters",
  "Notifying one wakes exactly one of the fibers waiting on that condition, the one that has waited longest, and none on any other; notifying all wakes every one exactly once; the notified run before the notifier goes on. A fiber whose wait was interrupted waits no longer, and a waiter not notified for lack of memory keeps waiting. A notification with nobody waiting wakes nobody later, handles given out are distinct while open, operations on an unknown or closed handle are rejected as not found, and closing a condition resumes its waiters with an error.",
  ["schedules", "histories", "fault_sequences"], "for every interleaving of waiting and notifying fibers within the bound", ["src/condition"],
  [("waiter queue", "src/condition/fiber/condition_discipline_notify_one_callback_handler.c, condition_discipline_notify_all_callback_handler.c, condition_discipline_wait_callback_handler.c")])
# ------------------------------------------------------------ whole library
p("X01", "Instances do not disturb each other",
  "Two schedulers with their fibers, mailboxes and conditions, two string iterators, bump allocators, buffered readers, sockets, triggers, queues or trees used in turns each behave exactly as they do when used alone, whatever the order of the turns, and also when one of them is released before the other is done with. What is done to one is never seen through another.",
  ["histories", "inputs"], "for every program of operations on two instances within the bound and every way of taking turns",
  ["src"], [("discipline lookup", "src/message/message_discipline_get_or_create.c, src/condition/fiber/condition_discipline_get_or_create.c"), ("iterators", "src/string"), ("socket contexts", "src/psock")],
  "Tests use one instance at a time; state shared by accident (a static variable, a cached pointer) shows only when two are used in turns.")
p("E01", "Status, event and discipline codes do not collide",
  "Every error code of the public headers is a failure status, distinct from every other and from success; codes made for any two different components or reasons within their ranges differ. The yield and resume codes of each built-in discipline are distinct, and so are the identifiers of the built-in disciplines and of the components.",
  ["inputs"], "for every component of 16 bits and every reason of 15 bits, and every code and identifier the public headers define",
  ["include/rcpr/status.h", "include/rcpr/component.h", "include/rcpr/fiber.h", "include/rcpr/message.h", "include/rcpr/condition.h"],
  [("status code packing", "include/rcpr/status.h"), ("discipline identifiers", "src/fiber/common/fiber_scheduler_management_discipline_definitions.c, src/fiber/common/fiber_scheduler_internal_discipline_id.c, src/message, src/condition")],
  "A collision compiles and passes every test that does not compare the two codes in question.")
p("G01", "Control-flow macros run each step once and never lose a failure",
  "In a function written with the control macros each tried operation runs exactly once and in order; the first that fails ends the sequence at its label with its status, and nothing after it runs. Each cleanup runs exactly once whatever failed before; a cleanup that fails replaces the status, and one that succeeds leaves it, so that a failure is never reported as success nor success as a failure.",
  ["inputs"], "for every status that each operation and each cleanup may answer with",
  ["include/rcpr/control.h"],
  [("macros", "include/rcpr/control.h")],
  "The library itself does not use the macros it offers for this, and no test does.")
p("I01", "Imported names reach the functions they name, arguments intact",
  "Importing a module, with a prefix or without one, gives every public function of it under its name: a call through that name calls exactly that function, once, with the caller's arguments in order, none cut short, and gives back its answer unchanged. The names with variable argument lists pass the whole list on to the end.",
  ["inputs"], "for every public function that a module's import names, every value of its arguments and every answer",
  ["include/rcpr"],
  [("import macros", "include/rcpr/*.h, __INTERNAL_RCPR_IMPORT_*_sym")],
  "Some 250 forwarding functions are written by hand inside macros. Two arguments of the same type exchanged, or the neighbour's function called, compile; tests import only some names and in one of the two ways, and pass values for which a narrowed argument looks the same.")
