#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json (run by hand after editing)"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/boost/cobalt/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))


p('C01', 'A channel<T> delivers every written value exactly once, in FIFO order',
  'The values obtained by the readers of a channel are exactly the values of the writes that completed successfully, in the order those completed (with limit zero: in the order the writers arrived), for every buffer limit including zero. '
  'A write completes without waiting only if there is a waiting reader or room in the buffer, a read completes without waiting only if a value or a waiting writer is available, and waiting readers and waiting writers are each served oldest first. '
  'A buffered value is never overwritten, dropped, read twice or leaked, including when the channel is destroyed.',
  ['inputs', 'histories', 'schedules'], 'every capacity limit, buffer fill and ring position, every queue of waiting readers/writers, every interleaving of read, write, cancel and close on one executor',
  'test/channel.cpp runs a handful of fixed schedules with capacities 0-2; the ring positions, the mixed queues and the cancel-while-waiting interleavings are unbounded',
  [I + 'channel.hpp', I + 'impl/channel.hpp'], [('channel::read_op / write_op', I + 'impl/channel.hpp'), ('ring buffer + intrusive wait lists', I + 'channel.hpp')])
p('C02', 'channel<void> neither loses nor invents a unit',
  'For a channel<void>, the number of reads that completed successfully never exceeds the number of writes that completed successfully, and the difference never exceeds the limit given at construction. '
  'A write waits only if the limit is reached and no reader waits, a read waits only if no unit is stored and no writer waits, and a waiting reader or writer is completed as soon as its counterpart arrives, oldest first.',
  ['inputs', 'histories', 'schedules'], 'every limit and fill count, every queue of waiting readers/writers, every interleaving of read, write, cancel, close',
  'test/channel.cpp has one void test with fixed counts',
  [I + 'channel.hpp', 'src/channel.cpp'], [('channel<void>::read_op / write_op', 'src/channel.cpp')])
p('C03', 'Closing a channel or cancelling a channel operation completes waiters correctly',
  'After close() every operation that is waiting, and every read on an empty or write on any closed channel, completes with a broken-pipe error, while values already buffered can still be read. '
  'Cancelling a waiting read or write completes exactly that operation with operation_aborted, removes it from the queue, and leaves the other waiters and the stored values untouched. '
  'No operation completes twice and none is left waiting.',
  ['histories', 'schedules', 'inputs'], 'every queue state, every position of the cancelled operation, every moment of close/cancel',
  'the tests cancel and close single waiters in two fixed situations',
  [I + 'impl/channel.hpp', 'src/channel.cpp'], [('cancel_impl, close()', I + 'impl/channel.hpp'), ('channel<void>::close', 'src/channel.cpp')])
p('C04', 'A coroutine handed to an executor is resumed or destroyed exactly once',
  'A suspended coroutine whose handle the library posts, dispatches or stores in a completion handler is resumed exactly once, or destroyed exactly once if the completion is discarded, never both and never neither. '
  'Moving, releasing or resetting the owning handle object transfers or ends that responsibility without touching the coroutine twice.',
  ['histories', 'fault_sequences', 'inputs'], 'every sequence of move/reset/release/invoke/destroy operations on the owning handle and completions either run or discarded',
  'tests run handlers to completion in the ordinary order; discarded handlers and double moves are barely touched',
  [I + 'unique_handle.hpp', I + 'detail/handler.hpp', 'src/this_thread.cpp', I + 'this_coro.hpp'], [('unique_handle', I + 'unique_handle.hpp'), ('completion_handler::self', I + 'detail/handler.hpp')])
p('C05', 'The small-buffer resource hands out only valid, disjoint, aligned memory',
  'Every block allocated from the small-buffer resource is aligned as requested, holds at least the requested size and overlaps no other live block, for any buffer size, request size and alignment. '
  'A block that does not fit comes from the upstream resource with the same size and alignment and is returned there exactly once with that size and alignment, while blocks from the buffer are never passed upstream. '
  'Releasing all blocks makes the whole buffer available again.',
  ['inputs', 'histories'], 'every buffer size, every allocator state, every request size/alignment incl. zero and SIZE_MAX, every order of frees',
  'test/handler.cpp and test/sbo_resource.cpp use a few fixed sizes and orders; alignment above 16, zero sizes, splits and merges are not enumerated',
  [I + 'detail/sbo_resource.hpp'], [('do_allocate / do_deallocate / compress', I + 'detail/sbo_resource.hpp')])
p('C06', 'The monotonic frame resource hands out valid disjoint memory and frees it all',
  'Every block the monotonic resource returns is aligned as requested, of the requested size, inside memory it owns and disjoint from all earlier blocks since the last release. '
  'Memory taken from the heap beyond the initial buffer is given back exactly once on release or destruction, and after a release the initial buffer is available again in full.',
  ['inputs', 'histories'], 'every buffer size, chunk size, request size/alignment and any history of allocations and releases',
  'the tests only exercise it indirectly through two combinators with default sizes',
  [I + 'detail/monotonic_resource.hpp'], [('monotonic_resource::allocate/release', I + 'detail/monotonic_resource.hpp')])
p('C07', 'Coroutine frames are freed to the resource they came from, with the same size',
  'Every coroutine of the library that takes a memory resource or allocator allocates its frame from it, and the frame is returned to the same resource with the same pointer, size and alignment exactly once. '
  'This holds when the coroutine finishes, is destroyed while suspended, or throws, and even if the default resource changed in the meantime. '
  'A coroutine given no allocator takes its frame from the resource of the current thread.',
  ['inputs', 'histories', 'configurations'], 'any frame size, any allocator, any moment of destruction, any change of the default resource in between',
  'tests use one or two counting resources and the happy path',
  [I + 'this_coro.hpp', I + 'detail/this_thread.hpp', I + 'op.hpp', I + 'detail/fork.hpp'], [('promise_memory_resource_base', I + 'this_coro.hpp'), ('allocate_coroutine/deallocate_coroutine', I + 'this_coro.hpp'), ('enable_await_allocator', I + 'this_coro.hpp')])
p('C08', 'A promise runs eagerly and delivers its result exactly once',
  'A promise coroutine starts running immediately; awaiting it yields exactly the value it returned or rethrows exactly the exception it threw, whether it finishes before or after it is awaited, and the awaiter is resumed exactly once and only after it finished. '
  'ready(), get() and the bool conversion reflect that state, a second concurrent await fails with an error instead of undefined behaviour, and moving a promise that is not being awaited keeps all of this. '
  'Cancelling or dropping an attached promise delivers cancellation to the operation it waits on, while a detached one keeps running to the end, and its frame is freed exactly once either way.',
  ['schedules', 'histories', 'inputs'], 'every order of start, completion, await, move, cancel, detach, destruction; every value/exception',
  'test/promise.cpp checks a dozen hand-picked orders',
  [I + 'promise.hpp', I + 'detail/promise.hpp'], [('promise_receiver', I + 'detail/promise.hpp'), ('cobalt_promise / final awaiter', I + 'detail/promise.hpp')])
p('C09', 'A task is lazy and delivers its result exactly once',
  'A task runs nothing before it is awaited, then runs on the executor of its awaiter, and yields exactly the value returned or rethrows exactly the exception thrown, resuming its awaiter once. '
  'A task destroyed before it is awaited never runs and is freed, awaiting it a second time fails with an error, and cancelling the awaiter reaches the operation the task waits on.',
  ['schedules', 'histories', 'inputs'], 'every order of creation, move, await, completion, cancellation and destruction; every value/exception',
  'test/task.cpp checks fixed orders',
  [I + 'task.hpp', I + 'detail/task.hpp'], [('task_receiver', I + 'detail/task.hpp'), ('task_promise', I + 'detail/task.hpp')])
p('C10', 'A generator yields each value once, in order, and ends cleanly',
  'Each await of a generator produces the next yielded value, in the order yielded, and finally the returned value or the thrown exception, never losing, repeating or reordering one. '
  'A value pushed into the generator is received by exactly the matching yield, a lazy generator does not start before the first await, an eager one runs ahead by at most one value, and the bool conversion is false once it is exhausted. '
  'Moving the generator while it is not being awaited, or destroying it, keeps the values and frees everything once.',
  ['schedules', 'histories', 'inputs'], 'every interleaving of resumptions, yields, waits inside the body, moves, cancellation and destruction; all values',
  'test/generator.cpp runs fixed sequences',
  [I + 'generator.hpp', I + 'detail/generator.hpp'], [('generator_receiver', I + 'detail/generator.hpp'), ('generator_yield_awaitable', I + 'detail/generator.hpp')])
p('C11', 'race yields exactly one winner, with its own result, and cancels the rest',
  'race and left_race complete with the index and the result (value or exception) of one awaitable that really completed first, never a mix of two. '
  'Every other awaitable that was started is interrupted or cancelled exactly then, the race does not resume its awaiter before all of them are finished, and resumes it exactly once. '
  'left_race prefers the leftmost ready awaitable, cancellation from outside reaches all children, and an empty range is rejected.',
  ['schedules', 'inputs'], 'all completion orders, ready/suspended/throwing/interruptible mixes, with and without external cancellation',
  'test/race.cpp has a few timer-based orders; the tuple/result error paths are not covered',
  [I + 'race.hpp', I + 'detail/race.hpp', I + 'detail/fork.hpp'], [('race_variadic_impl / race_ranged_impl', I + 'detail/race.hpp')])
p('C12', 'join waits for all and yields every result, or the first error',
  'join completes only after every given awaitable has completed, and then yields their values in argument order if all succeeded. '
  'If any fails, the remaining ones are interrupted or cancelled, and the exception reported is that of the first failure. '
  'Cancellation from outside reaches all children and the awaiter is resumed exactly once.',
  ['schedules', 'inputs'], 'all completion orders, ready/suspended/throwing/interruptible mixes, with and without external cancellation',
  'test/join.cpp has a few timer-based orders',
  [I + 'join.hpp', I + 'detail/join.hpp', I + 'detail/fork.hpp'], [('join_variadic_impl / join_ranged_impl', I + 'detail/join.hpp')])
p('C13', 'gather waits for all awaitables and reports each individual outcome',
  'gather completes only after every awaitable has completed, never fails itself, and yields in argument order for each awaitable its own value or its own exception. '
  'Failures do not cancel the others; cancellation from outside reaches all of them, and the awaiter is resumed exactly once.',
  ['schedules', 'inputs'], 'all completion orders and outcome mixes, with and without external cancellation',
  'test/gather.cpp has a few timer-based orders',
  [I + 'gather.hpp', I + 'detail/gather.hpp', I + 'detail/fork.hpp'], [('gather_variadic_impl / gather_ranged_impl', I + 'detail/gather.hpp')])
p('C14', 'co_main runs the program to its end and turns signals into cancellation',
  'Declaring co_main yields a main that passes its arguments on, runs the coroutine on a context and memory resource of its own (also visible through this_thread), waits until everything the coroutine started on that context is done, and returns exactly the value co_main returned. '
  'Every SIGINT reaches what the coroutine waits for as total and every SIGTERM as terminal cancellation; a signal at any moment, also right before or after the coroutine ends, neither touches freed memory nor keeps the program from ending. The default resource and the signal handlers are restored.',
  ['schedules', 'inputs'], 'all results, kinds of programs and moments at which signals arrive',
  'test/main.cpp runs one program without signals',
  [I + 'main.hpp', I + 'detail/main.hpp', 'src/main.cpp'], [('main_promise::run_main', 'src/main.cpp')])
p('C15', 'wait_group tracks its promises exactly and never loses one',
  'size() counts the pushed promises not yet removed, reap() removes exactly the completed ones, wait_one() removes exactly one completed promise and wait() completes only when all have completed, leaving the group empty. '
  'cancel() reaches every promise, an exception of an awaited promise is reported to the awaiter, and no await on the group hangs while a promise is ready.',
  ['schedules', 'histories'], 'any number and order of push, completion, reap, wait_one, wait and cancel',
  'test/wait_group.cpp has a few timer-based orders',
  [I + 'wait_group.hpp', I + 'detail/wait_group.hpp'], [('race_wrapper / gather_wrapper', I + 'detail/wait_group.hpp')])
p('C16', 'with always runs the teardown exactly once, with the right exception',
  'with invokes the body and, after the body finished or threw, awaits the teardown exactly once, passing the exception of the body or none. '
  'The result of the body is returned if there is one, an exception of the body is rethrown after the teardown, and an exception of the teardown itself reaches the awaiter. '
  'The resource object stays alive until the teardown has completed, and if the operation it waits on is discarded, the body, the resource and the awaiter are destroyed exactly once.',
  ['inputs', 'fault_sequences', 'schedules'], 'every combination of body/teardown outcome, sync or suspending body and teardown',
  'test/with.cpp covers three combinations',
  [I + 'with.hpp', I + 'detail/with.hpp'], [('with_impl', I + 'with.hpp')])
p('C17', 'An awaited asio operation resumes its awaiter exactly once with its results',
  'Awaiting an asio style operation delivers exactly the values, or the exception for the error, that it completed with, whether it completes immediately, during initiation or later, and resumes the coroutine exactly once. '
  'A completion during initiation or via ready() never resumes recursively, cancellation of the awaiter is forwarded to the operation while it is under way and never after, and the completion handler reports the executor and allocator of the awaiter.',
  ['schedules', 'inputs'], 'completion before, during and after initiation, immediate executor, discarded handlers, any values and error codes',
  'test/op.cpp and test/handler.cpp use posted timers and one immediate op',
  [I + 'op.hpp', I + 'detail/handler.hpp'], [('op::awaitable', I + 'op.hpp'), ('completion_handler', I + 'detail/handler.hpp')])
p('C18', 'Buffer sequence views describe exactly the bytes they were built from',
  'A mutable_buffer_sequence or const_buffer_sequence yields, in order, exactly the buffers of the sequence it was built from, for a single buffer, a span and any contiguous container of buffers (an empty one counts as one empty buffer). '
  'Iterating, comparing iterators, indexing, advancing the view by n bytes and taking its size never go outside of that sequence, drop or duplicate a byte, and the iterator order is a total order consistent with traversal.',
  ['inputs'], 'all sequence lengths and kinds, all offsets and all advance amounts',
  'test/io/buffer.cpp samples three sequences',
  [I + 'io/buffer.hpp'], [('basic_buffer_sequence / consume', I + 'io/buffer.hpp')])
p('C19', 'Endpoints round-trip their address data and report the right protocol',
  'An endpoint built from an address and port of a protocol family reports exactly that address, port, family, type and size, and converting between the generic and concrete forms preserves every byte. '
  'Asking an endpoint for a representation of another family fails with an error and never reads or writes outside its storage.',
  ['inputs'], 'all addresses, ports, scope ids and path strings up to the storage size, all protocol families',
  'test/io/endpoint.cpp uses a few constants',
  [I + 'io/endpoint.hpp', 'src/io/endpoint.cpp'], [('endpoint, make_endpoint_tag tag_invoke overloads', I + 'io/endpoint.hpp')])
p('C20', 'read_all and write_all transfer exactly the requested bytes or report the error',
  'read_all and write_all (io::read, io::write) complete with the full size of the buffers if no error occurs, and otherwise with the error and exactly the number of bytes transferred before it, and each byte of the buffers is transferred at most once, in order. '
  'The _at variants transfer each byte at the offset that corresponds to its position, and no operation is issued after the buffers are exhausted or an error occurred. '
  'A cancellation reaches the step in progress and ends the operation, whose memory is released before its awaiter is resumed.',
  ['inputs', 'fault_sequences'], 'all buffer sequences, every split into partial transfers, every error position',
  'the io tests transfer a few bytes over a pipe in one piece',
  [I + 'io/read.hpp', I + 'io/write.hpp', I + 'io/ops.hpp', I + 'composition.hpp', 'src/io/read.cpp', 'src/io/write.cpp'], [('read_all / write_all / read_all_at / write_all_at', 'src/io/read.cpp')])
p('C21', 'as_result, as_tuple and plain awaits of an operation agree',
  'For every awaitable of the library, awaiting it plainly, as_result and as_tuple report the same outcome: the same values on success, and the same exception or error on failure, and none reads a result that is not there. '
  'The adapters themselves throw nothing where the operation failed.',
  ['inputs', 'schedules'], 'every awaitable type, success and failure, ready or suspended',
  'test/result.cpp covers the success paths of a few awaitables',
  [I + 'result.hpp', I + 'op.hpp', I + 'race.hpp'], [('as_result_t / as_tuple_t', I + 'result.hpp')])
p('C22', 'Thread-local executor and allocator state is restored and never used unset',
  'this_thread::get_executor and get_allocator/default resource return exactly what was last set on that thread, has_executor says whether an executor is set, and using an unset executor fails with an error. '
  'run sets an executor and a default resource of its own for its task while it runs and restores the previous ones afterwards, also when the task throws or runs are nested.',
  ['histories', 'fault_sequences'], 'all sequences of set/get/run, nested runs, throwing coroutines',
  'tests set an executor once and read it back',
  ['src/this_thread.cpp', I + 'this_thread.hpp', I + 'run.hpp', 'src/detail/util.cpp'], [('this_thread::*', 'src/this_thread.cpp'), ('run', I + 'run.hpp')])
p('C23', 'Cancellation of a coroutine is observed once, honours resets and filters',
  'A cancellation delivered to a coroutine is visible in its cancellation state and, if throw_if_cancelled is enabled, makes every following await of an awaitable throw operation_aborted, without touching the awaitable, until it is reset or the flag is turned off. '
  'Resetting the cancellation state installs the given filters and clears past cancellation, and a coroutine that disabled a cancellation type is never cancelled by it. '
  'Cancelling a coroutine that already finished has no effect.',
  ['schedules', 'inputs'], 'every cancellation type bit mask, filter, and moment of cancellation relative to suspension and completion',
  'test/cancel.cpp covers total cancellation at one suspension',
  [I + 'this_coro.hpp'], [('promise_cancellation_base', I + 'this_coro.hpp'), ('promise_throw_if_cancelled_base', I + 'this_coro.hpp')])
p('C25', 'Library errors map to the documented codes, messages and exception types',
  'Every error raised by the library carries the documented code of its category, its message is the documented one and never empty or out of bounds for any integer value, and equal codes compare equal. '
  'An allocation failure, an object moved from while running, an object awaited twice, an interrupted wait, a coroutine destroyed before it finished and a missing executor each raise their own documented error.',
  ['inputs'], 'every integer error value, every message buffer length, every error site',
  'test sources compare one or two codes',
  ['src/error.cpp', I + 'error.hpp', 'src/detail/exception.cpp'], [('cobalt_category', 'src/error.cpp'), ('detail/exception.cpp', 'src/detail/exception.cpp')])
p('C27', 'spawn and detached run the coroutine to the end and complete exactly once',
  'spawn runs a task on the given executor and completes its token exactly once, on the executor of the handler, with the exception or the value of the task; the completion does not run inline of the initiation (unless the handler has an immediate executor of its own), the task is gone and the memory of the operation released before it, and the cancellation slot of the handler reaches the task. '
  'When the execution context discards the work, the task and the handler are destroyed, each exactly once, and not run. A task that is done already completes with what it has. '
  'detached starts immediately, runs to its end on its own without an owner and its frame is freed exactly once; an exception that leaves it reaches whoever started or resumed it.',
  ['schedules', 'inputs', 'fault_sequences'], 'every outcome, moment of completion, cancellation, and discarded executor work',
  'test/spawn.cpp-like tests use futures in the happy path',
  [I + 'spawn.hpp', I + 'detail/spawn.hpp', I + 'detached.hpp', I + 'detail/detached.hpp'], [('async_initiate_spawn', I + 'detail/spawn.hpp'), ('detached_promise', I + 'detail/detached.hpp')])
p('C26', 'I/O objects forward every operation and its result to asio unchanged',
  'Each wrapped I/O object (sockets, streams, files, pipes, timers, resolver, serial port, signal set) forwards each operation with exactly the arguments given and reports exactly the error and value of the underlying asio operation. '
  'An operation completes once, also if it fails in the code of cobalt, and closing, moving, releasing and cancelling act on exactly the underlying object.',
  ['inputs', 'histories', 'fault_sequences'], 'all operations, arguments and operating system results',
  'tests touch a few operations on loopback',
  [I + 'io/', 'src/io/'], [('io wrappers', 'src/io/')])
p('C24', 'A thread delivers its result and cancellation across threads without a race',
  'A thread coroutine runs on its own thread and executor; awaiting it yields its end or its exception exactly once on the executor of the awaiter, cancelling it from another thread reaches it with the given type, and destroying, joining or detaching it never touches freed state, never leaks and never blocks for ever. (An exception of a thread that nobody awaits ends the program, as with std::thread.) '
  'This holds for every interleaving of the two threads.',
  ['schedules'], 'all interleavings of the owning and the spawned thread',
  'test/thread.cpp observes whatever interleaving the OS produces',
  [I + 'thread.hpp', I + 'detail/thread.hpp', 'src/thread.cpp'], [('thread_state', I + 'detail/thread.hpp')])

NA = {
}
NOTES = {}
try:
    exec(open(os.path.join(V, 'tools', 'notes.py')).read())
except FileNotFoundError:
    pass
checks, na = [], []
for q in P:
    i = q['id']
    specs = sorted(glob.glob(os.path.join(V, 'spec', i + '*.cpp')))
    if not specs or i in NA:
        na.append(dict(property=i, reason=NA.get(i, 'contracts for this property are not built yet')))
        continue
    import re
    lv = set()
    for s in specs:
        m = re.search(r'^// vp-level:\s*(\w+)', open(s).read(), re.M)
        lv.add(m.group(1) if m else 'proof')
    checks.append(dict(property=i, quick_cmd='python3 /verif/check.py ' + i, thorough_cmd='python3 /verif/check.py %s --tier thorough' % i,
                       technique='contract-based deductive verification: contracts on the real C++ compiled to LLVM IR, VCs generated path-wise and discharged by z3',
                       level='proof' if 'proof' in lv else 'other',
                       level_note=NOTES.get(i, 'Contracts discharged for all inputs over the compiled IR of the real functions; bounded contracts are labelled in the evidence. Trusts the VC engine, clang 18, z3, the runtime models in lib/rt.cpp and the ghost executor contract.')))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
json.dump(dict(version=1, setup_cmd='python3 /verif/check.py --setup', checks=checks, not_applicable=na,
               notes='engine: engine/vcx.cpp (VC generator over LLVM IR), specs: spec/Cxx*.cpp, native replay: lib/native.cpp; see DESIGN.md'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'n/a')
