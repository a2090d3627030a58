#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p("B01","Buffer is a byte-exact FIFO under any operation history",
 "For every sequence of append, prepend, reserve, advance, peek, swap, copy/move and shrink operations whose documented preconditions hold, the readable bytes of a Buffer are exactly the prepended and appended bytes in order minus the consumed prefix, the reported readable size matches, the writable space it reports is really there, and no operation reads or writes outside the buffer's storage.",
 ["histories","inputs"],"all operation sequences of bounded length, with every size and every byte symbolic",
 "Tests append a few fixed strings; growth, compaction and prepend-after-consume interact with the exact sizes, of which tests sample a handful.",
 ["kanon/buffer/buffer.h","kanon/buffer/buffer.cc","kanon/algo/reserved_array.h"],
 [("ReserveWriteSpace / MakeSpace","kanon/buffer/buffer.cc"),("Append/Prepend/AdvanceRead/Shrink","kanon/buffer/buffer.h")],
 [("read_index_, write_index_","readable window inside data_","kanon/buffer/buffer.h")],["GetReadBegin/GetReadableSize/GetWritableSize"])
p("B02","Integers written to a Buffer come back unchanged and in network order",
 "Every 8/16/32/64-bit integer appended or prepended to a Buffer occupies exactly its width, is laid out in network byte order, and is returned with the same value by the matching peek and read operations, in FIFO order, whatever else the buffer holds; the read form consumes exactly that width and the peek form nothing.",
 ["inputs","histories"],"every integer value of every width; every initial fill and consumption offset",
 "Tests use one or two constants; byte order and width errors show only on values with distinct bytes, and consumption errors only when more data follows.",
 ["kanon/buffer/buffer.h","kanon/linux/core/util/endian_api.h","kanon/net/endian_api.h"],
 [("AppendInt*/ReadInt*/GetReadBegin*/Prepend*","kanon/buffer/buffer.h"),("ToNetworkByteOrder*","kanon/linux/core/util/endian_api.h")])
p("B03","Buffer text search finds the first delimiter inside the readable bytes only",
 "Searching a Buffer for a line end (CRLF or LF) or for any caller-supplied pattern returns the first occurrence lying wholly inside the readable bytes and reports absence exactly when there is none, and the functions that take data up to a position or the whole content as a string return exactly those bytes and consume exactly them.",
 ["inputs","histories"],"every readable content up to a stated length, at every offset in the storage",
 "Tests search one well-formed line; stale bytes after the write position or a delimiter split at the end are never presented.",
 ["kanon/buffer/buffer.h"],[("FindCrLf/FindEof/Find, RetrieveAsString etc.","kanon/buffer/buffer.h")])
p("B04","Reading from a descriptor appends exactly the received bytes to the Buffer",
 "For every amount of data a descriptor delivers and every state of the Buffer, reading from the descriptor appends exactly the delivered bytes in order behind the bytes already there and returns their count; on end of stream or error nothing is appended and the error code is handed to the caller.",
 ["inputs","fault_sequences","histories"],"every writable size and every count the kernel may return, 0 and error included",
 "Tests do not read from descriptors with controlled short reads; the overflow area path needs more data than the writable space.",
 ["kanon/linux/net/buffer.cc","kanon/buffer/buffer.h"],[("scatter read into writable space plus overflow area","kanon/linux/net/buffer.cc")])
p("B05","ChunkList is a byte-exact FIFO across chunk boundaries",
 "For every sequence of append, prepend, reserve-and-fill, advance, splice-list, swap and shrink operations within their documented preconditions, the bytes a ChunkList exposes chunk by chunk are exactly the bytes put in, in order, minus the consumed prefix, the reported sizes agree with them, and no byte outside the chunks is touched.",
 ["histories","inputs"],"all operation sequences of bounded length, every length up to several chunk sizes symbolic",
 "Tests append constants; the boundary cases are the lengths around multiples of the chunk size combined with partial consumption.",
 ["kanon/buffer/chunk_list.h","kanon/buffer/chunk_list.cc"],[("Append/Prepend/AdvanceRead/AppendChunkList/ReserveWriteSpace","kanon/buffer/chunk_list.cc")])
p("B06","Gathered writes send a ChunkList's bytes in order and consume exactly what was sent",
 "Writing a ChunkList to a descriptor submits its bytes in order, and after a write that accepts any number of bytes exactly that many are consumed and reported and the rest remain, in order, for the next attempt; a failed write consumes nothing and reports the error.",
 ["inputs","fault_sequences"],"every chunk layout in bounds, every count the kernel may accept, and every failure",
 "Short writes and failures inside a gathered write cannot be provoked on demand by a unit test.",
 ["kanon/linux/net/chunk_list.cc","kanon/buffer/chunk_list.cc"],[("writev loop","kanon/linux/net/chunk_list.cc")])
p("D01","The singly linked list behaves as a sequence under any operation history",
 "For every history of insertions, erasures, splices, merges, sorts, reversals, resizes, assignments, copies and moves, the forward list holds exactly the sequence the operations define (sort stable, merge order preserving), its size and last-element position agree with it, and every element is created and destroyed exactly once with no access to freed nodes.",
 ["histories","inputs"],"all operation sequences of bounded length with symbolic values and counts",
 "Tests run fixed small lists; count and tail bookkeeping go wrong only after particular operation pairs.",
 ["kanon/algo/forward_list.h","kanon/algo/forward_list/forward_list_impl.h","kanon/algo/forward_list/algorithm.cc"],[("insert_after/erase_after/splice_after/merge/sort","kanon/algo/forward_list/forward_list_impl.h")])
p("D02","The reserved array keeps its elements across every growth and copy",
 "For every sequence of reserve, resize, shrink, copy, move and swap operations the reserved array keeps the elements at the retained indices, reports the requested size, destroys each element exactly once, and never touches storage outside its allocation. When a constructor or copy of an element throws during a copy, an assignment or a growth, the arrays are as before and nothing is leaked (elements declared bitwise-relocatable excepted).",
 ["histories","inputs"],"all operation sequences of bounded length with symbolic sizes",
 "Tests use a few sizes; reallocation and size-mismatch copies depend on the relation of two sizes.",
 ["kanon/algo/reserved_array.h","kanon/algo/libc_allocator_with_realloc.h"],[("Grow/Resize/Shrink/copy assignment","kanon/algo/reserved_array.h")])
p("N01","Every byte sent on a connection reaches the socket once and in order",
 "Whatever mix of send calls (raw bytes, string view, Buffer, ChunkList) is made on an established connection from its loop thread or another thread, and however the kernel accepts them (short writes, would-block, interleaved writable events), the bytes handed to the socket are exactly the concatenation of the sent messages (those of one thread in its call order, no message torn by another), and while some remain the connection keeps asking for writability so that they are eventually sent.",
 ["histories","fault_sequences","inputs"],"all bounded sequences of sends and writable events with symbolic sizes and symbolic kernel acceptances",
 "Loopback tests never see short writes or EAGAIN at chosen points; the existing suite does not run the connection tests at all.",
 ["kanon/net/connection/connection_base.cc","kanon/linux/net/connection/connection_base.inl","kanon/linux/net/chunk_list.cc"],[("SendInLoop*, HandleLtWrite","kanon/linux/net/connection/connection_base.inl")],
 [("output_buffer_","bytes accepted but not yet written","kanon/net/connection/connection_base.h")],["write/writev on the socket"])
p("N02","Half-close sends everything already queued before the FIN, and does send it",
 "After a graceful shutdown of the writing side, every byte sent before it by the same thread reaches the socket before the socket is shut down for writing, the shutdown happens exactly once, as soon as the pending bytes have been written, and nothing is written afterwards.",
 ["histories","fault_sequences"],"all bounded interleavings of sends, shutdown and writable events with symbolic acceptances",
 "Requires a full socket buffer at the moment of the shutdown, which loopback tests do not produce.",
 ["kanon/net/connection/connection_base.cc","kanon/linux/net/connection/connection_base.inl"],[("ShutdownWrite, HandleLtWrite drain","kanon/net/connection/connection_base.cc")])
p("N03","Connection lifecycle callbacks are balanced and final",
 "For every order of peer close, hang-up, error, local shutdown, local forced close (from any thread) and destruction, a connection reports up once, then down once, then the close notification once, delivers no message or write-complete notification after down, leaves no registration in the poller, and closes its descriptor exactly once (a connection ended by its owner rather than by an event gives no close notification).",
 ["histories","fault_sequences","schedules"],"all bounded sequences of events and calls",
 "Tests close connections in one order; double closes and close-during-dispatch need chosen event orders.",
 ["kanon/net/connection/connection_base.cc","kanon/linux/net/connection/connection_base.inl","kanon/linux/net/channel.cc"],[("HandleClose/ForceClose/ConnectionDestroyed","kanon/net/connection/connection_base.cc")])
p("N04","Received bytes are delivered in order, and end of stream is noticed",
 "For every segmentation of the incoming stream and every consumption pattern of the message callback, the callback sees each received byte exactly once, in order and as soon as it is readable, the bytes it leaves are presented again with the next ones, an orderly end of stream closes the connection, and a transient read error does not.",
 ["inputs","histories","fault_sequences"],"all bounded sequences of read results with symbolic counts and consumption",
 "Loopback delivers large segments; errors in the middle of reads cannot be provoked.",
 ["kanon/linux/net/connection/connection_base.inl","kanon/linux/net/buffer.cc"],[("HandleLtRead","kanon/linux/net/connection/connection_base.inl")])
p("N05","Write-complete and high-water-mark notifications match the pending bytes",
 "The write-complete notification fires exactly once for every time the last pending byte has been handed to the kernel, and never without that, and the high-water-mark notification fires exactly when the pending bytes cross the configured mark from below, reporting the true pending size.",
 ["histories","inputs","fault_sequences"],"all bounded sequences of sends and writable events with symbolic sizes, mark and acceptances",
 "Needs control over kernel acceptance.",
 ["kanon/linux/net/connection/connection_base.inl","kanon/net/connection/connection_base.cc"],[("write complete and high water mark paths","kanon/linux/net/connection/connection_base.inl")])
p("E01","The poller's kernel registration always equals the channel's interest",
 "After every sequence of enabling, disabling and removing read/write interest on any set of channels, the set of descriptors and event masks registered with the kernel (epoll or poll) equals exactly the non-empty interests of the channels, no kernel call refers to a descriptor that is not registered, and a removed channel can be used again.",
 ["histories"],"all bounded operation sequences over several channels, for the epoll and the poll back end",
 "Tests enable one channel once; index/state bookkeeping fails on remove-then-add and disable-then-enable sequences.",
 ["kanon/linux/net/channel.cc","kanon/linux/net/epoller.cc","kanon/linux/net/poller.cc","kanon/linux/net/channel.h"],[("UpdateChannel/RemoveChannel","kanon/linux/net/epoller.cc")])
p("E02","Each ready descriptor is dispatched to its own channel's matching callbacks",
 "For every set of ready events the kernel reports, exactly the reported channels run, each with its read, write, error and close callbacks invoked according to the reported event bits and never one whose bit is absent; the active list grows so that no ready descriptor is starved, and interruption of the wait loses nothing.",
 ["inputs","fault_sequences"],"every event mask for every channel, every number of ready channels in bounds, wait failures",
 "Tests see plain readable events; error and hang-up combinations are not produced.",
 ["kanon/linux/net/channel.cc","kanon/linux/net/epoller.cc","kanon/linux/net/poller.cc","kanon/net/event_loop.cc"],[("HandleEvents","kanon/linux/net/channel.cc"),("FillActiveChannels","kanon/linux/net/epoller.cc")])
p("E03","Functors handed to an event loop run once, in order, in its thread, and promptly",
 "A functor given to a loop runs exactly once in the loop's thread, functors from one caller in the order given (immediately when called from the loop thread through the run form), a functor queued while others run or while the loop waits is never left waiting for an unrelated event, and quitting from any thread makes the loop return (functors still queued when quitting is requested may be dropped).",
 ["schedules","histories"],"all interleavings of two threads and the loop within a context bound, and all bounded nestings",
 "A lost wake-up depends on the interleaving of queueing and waiting; the loop tests are not in the passing suite.",
 ["kanon/net/event_loop.cc","kanon/net/event_loop.h"],[("QueueToLoop/RunInLoop/CallFunctors/Wakeup/Quit","kanon/net/event_loop.cc")])
p("E04","The loop pool hands out its loops round robin and each thread runs its own loop",
 "A loop pool started with n threads hands out the n loops cyclically (the base loop when n is zero), each loop is started in its own thread before it is handed out, and destroying the pool runs the functors queued before and makes every thread finish, also when the user quits a loop himself.",
 ["schedules","configurations","inputs"],"every thread count in bounds, every hash value, interleavings of start-up and stop within a context bound",
 "Start-up/destruction races depend on the schedule.",
 ["kanon/net/event_loop_pool.cc","kanon/net/event_loop_thread.cc"],[("GetNextLoop/GetLoop, StartRun","kanon/net/event_loop_pool.cc")])
p("T01","Timers fire never early, in deadline order, and as often as asked",
 "For every clock progression and every set of timers, a timer never runs before its deadline, timers due in the same round run in deadline order, a one-shot timer runs exactly once, a repeating timer is re-armed relative to the round that ran it, and the kernel timer is always armed for the earliest pending deadline (so that no due timer waits for an unrelated event, and the loop sleeps while none is due).",
 ["inputs","histories"],"every bounded set of timers with symbolic deadlines and every non-decreasing clock",
 "Tests sleep for real and are not in the passing suite; ordering of equal or crossing deadlines needs chosen clock values.",
 ["kanon/linux/net/timer/timer_queue.cc","kanon/linux/net/timer/timer_queue.h","kanon/net/timer/timer.h"],[("AddTimer/GetExpiredTimers/ResetTimers","kanon/linux/net/timer/timer_queue.cc")])
p("T02","Cancelling a timer is always safe and always effective",
 "Cancelling a timer at any moment (pending, already fired, from within its own or another timer's callback, twice) is safe, and after the cancellation returns in the loop thread the timer never runs again while every other timer is unaffected.",
 ["histories","inputs"],"all bounded sequences of adding, firing and cancelling, with symbolic deadlines",
 "Cancel-after-fire and cancel-within-callback are not in the passing tests.",
 ["kanon/linux/net/timer/timer_queue.cc","kanon/net/timer/timer_id.h"],[("CancelTimer","kanon/linux/net/timer/timer_queue.cc")])
p("C01","The connector retries with bounded back-off and never leaks a socket",
 "For every sequence of connect outcomes, a connector either hands a connected descriptor to its owner exactly once, or retries transient failures after a delay that doubles from the initial interval up to the documented maximum, and after being stopped it neither retries nor delivers a connection; every descriptor it opened is handed over or closed exactly once.",
 ["fault_sequences","histories"],"all bounded sequences of connect results, socket errors, self-connects and stop/restart calls",
 "Failure sequences of the network cannot be produced on demand, and the back-off overflow needs tens of retries.",
 ["kanon/net/connector.cc","kanon/linux/net/connector.cc","kanon/net/connector.h"],[("Connect/CompleteConnect/Retry/Stop","kanon/linux/net/connector.cc")])
p("C02","A TCP client delivers at most one live connection and follows its stop requests",
 "For every order of connect, disconnect, stop, peer close and destruction, a TCP client exposes at most one live connection at a time, reports it up and down once, reconnects after a loss exactly when retry is enabled, and neither uses freed objects nor leaks the descriptor.",
 ["histories","fault_sequences"],"all bounded sequences of calls and network events",
 "The client tests are not in the passing suite, and destruction orders are not explored.",
 ["kanon/net/tcp_client.cc","kanon/net/tcp_client.h"],[("NewConnection/RemoveConnection/dtor","kanon/net/tcp_client.cc")])
p("A01","Every accepted descriptor is handed over or closed exactly once",
 "For every sequence of accept results, the acceptor passes each accepted descriptor with its peer address to the new-connection callback or closes it when there is none, survives running out of descriptors without spinning or dying, ignores transient failures, and in edge-triggered mode takes every pending connection.",
 ["fault_sequences","histories"],"all bounded sequences of accept results including descriptor exhaustion",
 "Accept errors cannot be produced in a unit test; acceptor tests are not in the suite.",
 ["kanon/net/acceptor.cc","kanon/linux/net/sock_api.cc","kanon/net/sock_api.cc"],[("accept handler with reserved descriptor","kanon/net/acceptor.cc")])
p("A02","The TCP server tracks exactly its live connections",
 "For every sequence of accepts, closes and server destruction, each accepted connection gets a distinct name, is assigned to the I/O loops in round-robin order, is reported up once and down once through the user's callbacks, is dropped by the server as soon as it is closed, no connection or descriptor outlives its close or the server, and starting it again changes nothing.",
 ["histories","configurations"],"all bounded sequences of connection events for each thread count in bounds",
 "Server tests are not in the passing suite.",
 ["kanon/net/tcp_server.cc","kanon/net/tcp_server.h"],[("NewConnection/RemoveConnection/dtor","kanon/net/tcp_server.cc")])
p("A03","Socket addresses survive the round trip through text and kernel form",
 "For every IPv4 address and port an address object built from text, from a port with any/loopback flags, or from the kernel structure reports the same port, the same text, and a fully initialised kernel structure of the right family and length; malformed text is rejected rather than misread.",
 ["inputs"],"every 32-bit address and 16-bit port; every text up to a stated length",
 "Address tests are not in the suite; they would sample a few addresses.",
 ["kanon/net/inet_addr.cc","kanon/net/inet_addr.h","kanon/net/sock_api.cc"],[("InetAddr constructors, ToIp/ToPort/ToIpPort","kanon/net/inet_addr.cc")])
p("A04","Sockets get exactly the modes, options and addresses asked for",
 "Every socket the library makes, accepts or wakes a loop with is non-blocking and closed on exec, and setting these modes keeps every other flag; each socket option call changes that option of that socket to the value asked for and no other; bind, connect, listen and the half-close act on the socket they are called on with the address given; the reported local and peer addresses and pending error are the kernel's; a failed query is reported as such; and the self-connect test is true exactly when both ends have the same address and port.",
 ["inputs","fault_sequences","configurations"],"every address, port, option value, flag set and errno, each socket call succeeding or failing",
 "Socket option and flag tests are not in the suite; a missing flag, a swapped option or a clobbered mode shows only as a leaked descriptor or a stall much later.",
 ["kanon/net/sock_api.cc","kanon/net/sock_api.h","kanon/linux/net/sock_api.cc","kanon/net/socket.cc","kanon/net/socket.h","kanon/net/acceptor.cc","kanon/net/connection/tcp_connection.cc"],
 [("CreateNonBlockAndCloExecSocket, Accept, SetNonBlockAndCloExec","kanon/linux/net/sock_api.cc"),("IsSelfConnect, GetLocalAddr, GetPeerAddr","kanon/net/sock_api.cc")],
 [("descriptor flags and socket options","what the kernel holds for the socket","kanon/linux/net/sock_api.cc")])
p("S01","Mutual exclusion and condition waiting hold under every schedule",
 "Under every schedule of a bounded number of threads a kanon mutex admits one holder at a time and knows its holder, a try-lock succeeds only when the mutex is free, a condition wait releases and re-acquires it, and the timed wait gives up after the requested time with a well-formed absolute deadline.",
 ["schedules","inputs"],"all interleavings within the stated context bound",
 "Schedules cannot be enumerated by tests.",
 ["kanon/thread/mutex_lock.h","kanon/thread/condition.h","kanon/thread/condition.cc"],[("MutexLock, Condition","kanon/thread/mutex_lock.h")])
p("S02","A count-down latch opens exactly when its count reaches zero",
 "Under every schedule, waiters on a count-down latch are released if and only if the count has reached zero, every waiter is released, and neither spurious wake-ups nor the order of count-downs and waits matters.",
 ["schedules"],"all interleavings of bounded waiters and counters including spurious wake-ups",
 "A test cannot force a spurious wake-up or the racing order.",
 ["kanon/thread/count_down_latch.h"],[("Wait/Countdown","kanon/thread/count_down_latch.h")])
p("S03","The read-write lock excludes writers from everyone and lets all finish",
 "Under every schedule the read-write lock never admits a writer together with a reader or another writer, admits readers together, lets no reader overtake a writer that already waits for readers, and no thread that wants the lock waits for ever once the holders release it.",
 ["schedules"],"all interleavings of bounded readers and writers within the context bound",
 "Schedules cannot be enumerated by tests.",
 ["kanon/thread/rw_lock.cc","kanon/thread/rw_lock.h"],[("RLock/WLock/RUnlock/WUnlock","kanon/thread/rw_lock.cc")])
p("S04","The thread pool runs every accepted task exactly once within its queue bound",
 "Under every schedule, each task pushed to a running thread pool is executed exactly once, tasks are taken in FIFO order, the queue never exceeds its bound (pushers wait), a pool of n threads keeps executing tasks after its first n, and stopping the pool runs the tasks accepted before and lets every worker finish.",
 ["schedules","histories"],"all interleavings of bounded pushers and workers within the context bound",
 "The thread pool test runs one schedule.",
 ["kanon/thread/thread_pool.cc","kanon/thread/thread_pool.h"],[("Push/Pop/StartRun/Stop","kanon/thread/thread_pool.cc")])
p("S05","Threads report their identity, and can be started, joined and outlived safely",
 "Under every schedule, starting a thread returns only once its id is known, the body runs exactly once in a thread with its own cached id and name, joining waits for it to finish, atomic counters never lose or duplicate an update, thread-local values are separate per thread and destroyed with it, and a weak callback runs only while its object lives and keeps it alive meanwhile.",
 ["schedules","inputs"],"all interleavings of bounded threads within the context bound",
 "Schedules cannot be enumerated by tests.",
 ["kanon/thread/thread.cc","kanon/thread/current_thread.cc","kanon/thread/atomic_counter.h"],[("Thread::StartRun/Join","kanon/thread/thread.cc")])
p("X01","String view searches and comparisons agree with the standard definitions",
 "For all contents (embedded NUL bytes included) and positions, the string view's find, rfind, find-first/last-of and not-of, prefix/suffix, contains, substring, split and comparison operations return what the corresponding standard string operations are defined to return, comparisons form a total order consistent with equality, and no byte outside the view is read.",
 ["inputs"],"every pair of contents up to stated lengths and every position",
 "Tests use a few ASCII literals; the last-of family is not even terminating on some and is excluded from the baseline.",
 ["kanon/string/string_view.h","kanon/string/string_view.cc"],[("StringView members","kanon/string/string_view.h")])
p("X02","Numbers survive formatting and parsing",
 "Formatting any integer of any supported width yields its canonical decimal text, pointers their hexadecimal text, booleans and characters their literal; parsing text yields the number it denotes when it is a complete in-range decimal numeral and reports absence otherwise, whatever other threads format and parse at the same time.",
 ["inputs","schedules"],"every integer value of every width; every text up to a stated length; every bounded schedule of two threads",
 "Extreme values and malformed text are sampled at best.",
 ["kanon/string/fixed_buffer.h","kanon/string/fixed_buffer.cc","kanon/string/lexical_cast.h","kanon/string/lexical_stream.h","kanon/string/string_view_util.cc"],[("int2Str, ptrToHexStr, LexicalCast","kanon/string/fixed_buffer.h")])
p("X03","Fixed-size text streams never overflow and never tear a field",
 "For every sequence of fields inserted into a fixed-size stream, the stream's content is the concatenation of fields that fitted, each field is either wholly present or wholly absent, the length matches, the text stays NUL-terminated, and no byte beyond its capacity is written; format streams substitute arguments for placeholders in order and keep escaped percent signs.",
 ["inputs","histories"],"every fill level around the capacity and every field kind with symbolic values",
 "The near-full cases of each field kind are not tested.",
 ["kanon/string/fixed_buffer.h","kanon/string/lexical_stream.h","kanon/string/fmt_stream.h","kanon/string/string_util.h"],[("FixedBuffer::Append*","kanon/string/fixed_buffer.h")])
p("X04","String concatenation joins its pieces exactly",
 "Concatenating or appending any number of strings, literals, views and characters yields exactly the pieces one after another behind the original content, with embedded NUL bytes preserved where the piece carries its length.",
 ["inputs"],"every content and length of each piece up to stated bounds",
 "Tests use literals; the reverse-order copying depends on piece lengths.",
 ["kanon/string/string_util.h"],[("StrCat/StrAppend","kanon/string/string_util.h")])
p("U01","Time stamp arithmetic is exact and ordered",
 "For all instants and durations in range, adding and subtracting microseconds, milliseconds, seconds or instants gives the exact instant, unit conversions truncate consistently, comparisons agree with the microsecond count, and the textual forms show seconds and zero-padded microseconds of the instant.",
 ["inputs"],"every 64-bit microsecond count and every 32-bit duration within range",
 "Tests print the current time.",
 ["kanon/util/time_stamp.h","kanon/util/time_stamp.cc"],[("TimeStamp operators, ToString","kanon/util/time_stamp.h")])
p("U02","Optional and type-erased values keep value semantics",
 "Optional and any/unique-any/raw-any holders report presence and type truthfully, return exactly the stored value, copy deeply, leave a moved-from holder in the documented state, convert absence to absence, and destroy each stored value exactly once.",
 ["histories","inputs"],"all bounded sequences of assignments, copies, moves, swaps, clears with symbolic values",
 "Tests exercise one assignment each.",
 ["kanon/util/optional.h","kanon/util/any.h","kanon/util/unique_any.h","kanon/util/raw_any.h"],[("optional, Any, UniqueAny, RawAny","kanon/util/any.h")])
p("U03","Ownership helpers and process facts say what is so",
 "Objects made through the library's unique, shared, keyed, deferred and fixed-vector helpers are constructed once from exactly the arguments given and destroyed exactly once by whoever owns them (never by a look-up key), down casts give the very object whichever base they start from, a fixed vector stores each element at its own place, clearing memory clears exactly the bytes named, derived comparisons agree with the given ones, and the cached process id and host name are the system's, complete and terminated, up to the longest host name.",
 ["inputs","histories","configurations"],"every argument and element value, owner kind and cast direction in bounds, every process id and host name in bounds",
 "Tests instantiate few of these templates; wrong pointer adjustment needs a second base and a truncated name the longest one.",
 ["kanon/util/ptr.h","kanon/algo/fixed_vector.h","kanon/algo/construct.h","kanon/process/process_info.cc","kanon/util/mem.h","kanon/util/algo.h","kanon/util/operator_util.h"],
 [("make_unique, KeyDeleter, down_pointer_cast","kanon/util/ptr.h"),("FixedVector","kanon/algo/fixed_vector.h")])
p("M01","Memory pools never hand out overlapping or out-of-range storage",
 "For every sequence of allocations, frees, shrinks and reserves, blocks handed out by the fixed-chunk, linear and object pools and not yet freed are disjoint, wholly inside memory the pool owns, keep their content until freed, freed blocks are reused before new memory is obtained, usage figures match, and destroying or shrinking the pool releases exactly its unused blocks.",
 ["histories","inputs"],"all bounded histories with symbolic sizes and chunks per block",
 "Tests run one allocation pattern; shrink with partly used blocks needs particular histories.",
 ["kanon/mem/fixed_chunk_memory_pool.cc","kanon/mem/fixed_chunk_memory_pool.h","kanon/mem/linear_fixed_memory_pool.h","kanon/mem/object_pool_allocator.h"],[("Malloc/Free/Shrink/AllocBlock","kanon/mem/fixed_chunk_memory_pool.cc")])
p("L01","The asynchronous log loses no message and keeps each thread's order",
 "Under every schedule, each record that fits a log buffer and is appended before the log is stopped is written to the file exactly once and whole, records of one thread in their order, and stopping waits until they are written; only records beyond the documented back-pressure bound may be dropped.",
 ["schedules","histories"],"all interleavings of bounded producers, the writer thread and stop within the context bound",
 "The async log test is not run, and loses depend on the interleaving with stop.",
 ["kanon/log/async_log.cc","kanon/log/async_log.h"],[("Append/Stop/back-end loop","kanon/log/async_log.cc")])
p("L02","Log files receive every record and roll exactly when due",
 "Every record appended to a log file is written completely (partial writes are continued) to the current file, a new file is started once the configured size is exceeded or a new period begins (never twice within the same second), flushing happens at least at the configured interval, when as many files as the configured threshold exist all but the newest are removed and nothing else is, and closing flushes everything and lets the helper thread finish.",
 ["histories","fault_sequences","inputs","schedules"],"all bounded sequences of records with symbolic sizes, clocks and write results",
 "Log-file tests are not run; partial writes and clock positions cannot be chosen.",
 ["kanon/log/log_file.cc","kanon/log/append_file.cc"],[("LogFile::Append/RollFile, AppendFile::_Append","kanon/log/log_file.cc")])
p("L03","Log records are complete lines and level filtering is exact",
 "A log statement produces output exactly when its level is at or above the configured one (fatal ones always), as one line carrying time, thread, level, message and source position handed to the output callback once, however long the message, and leaves errno alone; error statements carry the number and text of the errno of the statement; fatal statements flush and abort after the output, and the time shown is that of the statement even when the cached second is reused.",
 ["inputs","histories"],"every level pair, and every sequence of clock values",
 "Tests only print.",
 ["kanon/log/logger.cc","kanon/log/logger.h"],[("Logger ctor/dtor, FormatTime","kanon/log/logger.cc")])
p("P01","The example protocol codecs decode independently of segmentation",
 "The length-header codec delivers exactly the messages sent, each alone, whole, once and in order, as soon as it is complete and however the byte stream is cut; a message longer than the accepted maximum is refused by shutting the conversation down without delivering it, whatever length is announced; what is sent goes out behind its length in both forms of Send; and the memcache request tokenizer yields exactly the texts between separators, without touching bytes outside the received data.",
 ["inputs","histories"],"every content up to a stated size, every cut, every announced length",
 "Segmentation cannot be chosen by a loopback test; the examples have no tests in the suite.",
 ["example/length_codec/codec.cc","example/length_codec/codec.h","example/memcache/StringViewTokenizer.h"],[("codec message callback","example/length_codec/codec.cc")])
p("R01","Protobuf and RPC framing carry messages intact",
 "A message sent through the framing codecs goes out as one frame and is delivered once, intact and in order, as soon as it is complete, however the byte stream is cut and however many frames arrive together; frames with a wrong checksum, another tag, an impossible length or an undecodable payload are never delivered, are reported with their reason, and end the conversation when nobody handles the error. Each remote call reaches the method it names once with its own request, and is completed at most once and with its own answer: exactly once when it is answered in time, never after its deadline, also when several threads call at the same time, answers come in another order, or a method is completed after its connection has closed. A request that cannot be served is answered under its number with the reason.",
 ["inputs","histories","schedules"],"every content, cut, corruption and announced length within stated sizes; every order of answers; all interleavings of two callers within the context bound",
 "Needs protobuf, so the suite does not build it; segmentation, corruption, deadlines and the interleaving of callers cannot be chosen by an example program.",
 ["kanon/protobuf/chunk_stream.cc","kanon/protobuf/generic_pb_codec.cc","kanon/protobuf/protobuf_codec2.cc","kanon/rpc/rpc_channel.cc","kanon/rpc/rpc_server.cc"],[("GenericPbCodec::OnMessage","kanon/protobuf/generic_pb_codec.cc"),("RpcChannel::CallMethod","kanon/rpc/rpc_channel.cc")])
for x in P: print(json.dumps(x,ensure_ascii=False))
