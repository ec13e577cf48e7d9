#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json, os
I='include/boost/coroutine2/'
PCB=I+'detail/pull_control_block_cc.ipp'; SCB=I+'detail/push_control_block_cc.ipp'
PH=I+'detail/pull_coroutine.hpp'; SH=I+'detail/push_coroutine.hpp'
PI=I+'detail/pull_coroutine.ipp'; SI=I+'detail/push_coroutine.ipp'
CR=I+'detail/create_control_block.ipp'; WR=I+'detail/wrap.hpp'
P=[]
def p(id,title,st,over,text,why,files,sym):
    assert len(title)<=80,(id,len(title)); P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=files[0]) for n in sym],observe_at=['public API: constructors, operator(), get(), conversions, iterators, destructors; objects, stacks and exceptions supplied by the harness'],hook_needed=None)))

p('C01','Control goes exactly where the last resumption says',
 'Constructing a pull-coroutine enters its function at once, a push-coroutine\'s function is entered by the first push, and every later resumption continues directly behind the point where the function gave control away. A suspension or completion returns to the context that resumed the coroutine most recently, directly behind that resuming call. Local variables and nested call frames of every suspended context are unchanged when it continues, and the function is invoked at most once.',
 ['histories','programs'],'every sequence of create / resume / suspend / return over any number of contexts, from any call depth, with either kind of coroutine and every element category',
 'The tests resume straight-line generators from one place; they never resume one coroutine alternately from several contexts and call depths, and check no frame contents.',
 [PCB,SCB,PI,SI],['control_block::control_block','control_block::resume'])
p('C02','Transferred values arrive intact, in order, none lost or repeated',
 'The n-th value given to a push end is the value observed at the pull end after the n-th transfer, for every type of value, and it stays readable unchanged until the next transfer. Other coroutines, moves of the handles and suspended time never change it. The object that was transferred last may itself be pushed again and then arrives once more. Reading a value of copyable type again without resuming yields the same value.',
 ['histories','inputs'],'every history of pushes and reads on both kinds of coroutine, for every by-value element type (trivial, owning, move-only, large, over-aligned)',
 'Tests push a few ints, strings and structs in fixed sequences, one coroutine at a time; they cannot cover interleavings with other coroutines, re-reads, moved handles or unusual element types.',
 [PCB,SCB,PI],['control_block::set','control_block::get','pull_coroutine::get'])
p('C03','Reference elements keep their identity',
 'If the element type is a reference, the pull end observes exactly the object that was pushed: same address, no copy, no move, no temporary. Modifications made through either side are seen by the other, and the referenced object is never destroyed or modified by the library.',
 ['histories','inputs'],'every history of transfers for element types T&, T const& and references to non-copyable types, through get(), iterators and both kinds of coroutine',
 'The tests transfer one reference per scenario and compare one address; they do not interleave, iterate over references or use non-copyable referents.',
 [PCB,SCB,PH,SH],['pull_coroutine<T&>','push_coroutine<T&>'])
p('C04','A handle tells truthfully whether its coroutine can be used',
 'A handle converts to true exactly if it owns a coroutine whose function has not finished (for a pull end: and has delivered data), and operator! is always the exact negation. A pull-coroutine whose function finishes before transferring anything is false right after construction, a push-coroutine is true until its function has finished, and a handle that was moved from or is empty is false. The handle given to the coroutine-function is true as long as the function runs.',
 ['histories','programs'],'every handle after every step of every history (creation, transfer, completion, exception, move, assignment, failed transfer), including functions that finish without transferring',
 'The tests look at the conversion at a handful of fixed points of straight-line programs.',
 [PCB,SCB,PI,SI],['operator bool','operator!','control_block::valid'])
p('C05','An exception leaves the call that resumed the coroutine, exactly once',
 'An exception that leaves the coroutine-function (other than the unwind exception) is thrown, as the same exception object type and value, by the constructor or call that resumed the coroutine most recently, and by no other call. The coroutine is complete afterwards, its frames have been left, and everything belonging to the throwing run is released no later than its handle. Exceptions caught inside the function are not visible outside.',
 ['histories','fault_sequences'],'every point of the function at which an exception can leave it (before the first, between any, after the last transfer), every exception type, every resumer, any chain of nested coroutines',
 'The tests throw from the function in three fixed places and one level of nesting.',
 [PCB,SCB],['control_block::except','control_block::resume'])
p('C06','Destroying a suspended coroutine unwinds its stack completely, once',
 'When the owner of a suspended coroutine is destroyed, or assigned over, every live local object of every frame of that coroutine is destroyed exactly once in reverse order of construction, on the coroutine\'s own stack, before the destruction returns. No further user code of the function runs, handlers for other exceptions are not entered, and nested coroutines owned by those frames are unwound the same way. A coroutine whose function was never entered is destroyed without running it, and the unwind exception never becomes visible to the destroying code.',
 ['crash_points','histories','programs'],'destruction at every suspension point, at every call depth, with try blocks and nested handles on the stack, from every context, during normal flow as well as during exception propagation and unwinding of another coroutine',
 'The tests destroy one coroutine suspended at one point with one local object.',
 [PCB,SCB,PI,SI],['control_block::destroy','control_block::deallocate'])
p('C07','Each coroutine stack is released exactly once, never while in use',
 'Every coroutine obtains exactly one stack from its stack allocator and gives exactly that stack back, exactly once, to a copy of the same allocator. The stack stays allocated as long as the coroutine can run or be unwound, and it is given back at the latest when the owning handle is destroyed or assigned over, or when the constructor ends because the function finished or threw.',
 ['histories','fault_sequences'],'every history of creation, completion, exception, move, assignment and destruction of handles, in every order',
 'The tests never look at allocations; a leaked or doubly released stack passes them.',
 [CR,PCB,SCB,PI,SI],['create_control_block','control_block::destroy'])
p('C08','Every transferred object is destroyed exactly once',
 'Each object that the library creates in order to transfer a value is destroyed exactly once, at the latest when the coroutine is destroyed, and is never accessed before its construction or after its destruction. The library never destroys or overwrites the caller\'s own object. This includes values that were never read, values read several times, and values outstanding when the coroutine finishes, throws or is destroyed.',
 ['histories','fault_sequences'],'every history of transfers, reads, completions, exceptions and destructions, for element types with observable lifetime',
 'The tests count no constructions or destructions of elements; a missing or additional destruction is invisible to them.',
 [PCB],['control_block::set','control_block::~control_block'])
p('C09','Transfer never copies more than the caller asked for',
 'Pushing an lvalue copies it once and leaves the source unchanged; pushing an rvalue and reading a value never copy it. Hence move-only values can be transferred in both directions, and copy-only values too. Iterators refer to the transferred object itself instead of a copy.',
 ['inputs','histories'],'every push of an lvalue, const lvalue or rvalue and every read, for movable, move-only and copy-only types, by calls of both kinds of handles and by dereferencing input iterators',
 'The tests transfer one move-only and one copyable struct once, without counting copies or looking at the source afterwards.',
 [PCB,SCB,PI,PH,SH],['control_block::resume','control_block::set','pull_coroutine::get'])
p('C10','The coroutine-function object is handled as a proper value',
 'A function object given as lvalue is copied and left unchanged, one given as rvalue is moved and never copied, so move-only callables work; function pointers and const objects work too. Exactly one function object is invoked, at most once, and it stays alive while it runs. Every copy the library made is destroyed exactly once, at the latest together with the coroutine.',
 ['inputs','histories','configurations'],'every value category and kind of callable, both kinds of coroutine, all element categories and language standards, every way a coroutine can end (including never started)',
 'The tests pass lambdas and bind expressions whose copies, moves and lifetime cannot be observed.',
 [WR,CR,PCB,SCB],['wrapper','create_control_block'])
p('C11','Moving a handle transfers the coroutine, and nothing else happens',
 'Move construction hands the coroutine over to the new handle and leaves an empty one behind; move assignment does the same and destroys the coroutine the target owned before. Neither runs user code of the moved coroutine, throws, or affects any other coroutine, and the moved coroutine continues exactly as if it had not been moved; self-assignment changes nothing. Handles cannot be copied.',
 ['histories'],'every interleaving of moves, assignments (also to itself, from and to empty handles), resumptions and destruction; handles owned by the program and handles given to the coroutine-function',
 'The tests perform one move construction and one assignment per scenario.',
 [PH,SH,PI,SI],['operator=','pull_coroutine(pull_coroutine&&)','push_coroutine(push_coroutine&&)'])
p('C12','Input iteration visits exactly the transferred values',
 'Iterating over a pull end from begin to end yields exactly the transferred values in order, each once; begin does not advance, advancing resumes exactly once, and dereferencing any number of times neither resumes nor consumes. The iterator equals the end iterator exactly from the moment the coroutine has no further value, so range-for and standard algorithms see every value and terminate. An exception of the function leaves the increment.',
 ['histories','inputs'],'every number of values including none, every element category, member and free begin/end, iteration begun at any moment and mixed with direct use, inside and outside of coroutine-functions',
 'The tests iterate over one fixed sequence of ints from the start.',
 [PH],['pull_coroutine::iterator'])
p('C13','Output iteration pushes every assigned value exactly once',
 'Assigning through an output iterator of a push end transfers exactly that value, once, as a direct push would; dereferencing and incrementing the iterator do nothing. The iterator equals the end iterator exactly if the coroutine has finished, as known at its creation or after the last assignment. An exception of the function leaves the assignment.',
 ['histories','inputs'],'every sequence of assignments, element categories, member and free begin/end, iterators created at any moment, inside and outside of coroutine-functions',
 'The tests copy one vector into one sink with std::copy.',
 [SH],['push_coroutine::iterator'])
p('C14','A transfer that fails leaves both sides usable',
 'If copying or moving the argument of a push throws, that exception leaves the push call, no context is switched and nothing is transferred. The coroutine remains valid and suspended where it was, later transfers work as if the failed one had not been attempted, and no object is destroyed twice, leaked or read after destruction.',
 ['fault_sequences','histories'],'every transfer at which the element\'s copy or move constructor throws, any number of times, from both sides and through iterators, in every history',
 'No test uses an element type whose copy constructor throws.',
 [PCB,SCB],['control_block::set','control_block::resume'])
p('C15','A constructor that fails leaves nothing behind',
 'If the stack allocator throws, the function object cannot be copied, or the function throws before its first transfer, the constructor throws that exception, no handle exists, and the stack, the function object\'s copies and all transferred objects have been released. A function that finishes without transferring makes the constructor succeed with an empty handle, equally without leftovers. Other coroutines are not affected.',
 ['fault_sequences','histories'],'every failing step of construction, both kinds of coroutine, every element category, in every context and history',
 'The tests check one constructor that throws, and only that the exception arrives; never what is left behind.',
 [CR,PCB,PI,SI],['create_control_block','stack_guard'])
p('C16','Any number of coroutines may be nested and interleaved independently',
 'Coroutines may create, resume, pass on and destroy other coroutines to any depth, and a coroutine may be resumed by different contexts in turn. Each coroutine\'s state, values, exceptions and completion depend only on what is done with it, never on other coroutines of the same or another element type. Exceptions and unwinding pass through chains of coroutines one resumption at a time, in the order of the chain.',
 ['histories','programs','schedules'],'every interleaving of operations on several coroutines arranged in chains, trees or side by side, created and destroyed in any order',
 'The tests have a few two- or three-coroutine programs with one fixed schedule each.',
 [PCB,SCB,PI,SI],['control_block'])
p('C17','A suspended coroutine may continue on another thread',
 'A coroutine that is suspended may be resumed or destroyed by a thread other than the one that created it or resumed it before, provided that the accesses do not overlap. Values, exceptions, completion and unwinding are then exactly the same as on one thread.',
 ['schedules','histories'],'every assignment of the operations of a history to threads, with properly ordered hand-over',
 'No test uses more than one thread.',
 [PCB,SCB],['control_block::resume','control_block::destroy'])
p('C18','The coroutine fits any stack an allocator provides',
 'Whatever base address, size and alignment a stack allocator\'s stack has, all objects that the library places for a coroutine lie inside that stack, are properly aligned for their type (over-aligned types included) and do not overlap each other or the frames of the coroutine-function. Nothing outside the stack is written, no part of it is assumed to be initialised, and all but a small fixed part of it is usable by the function.',
 ['configurations','inputs'],'every address, size, alignment and previous content of the stack, every size and alignment of element and function object',
 'The tests use the default allocator only: one size, one alignment, usually zeroed memory.',
 [CR],['create_control_block'])
p('C19','The chosen stack allocator, and no other, provides the stack',
 'A coroutine constructed with a stack allocator uses a copy of that allocator for its one stack; without one it uses the default allocator with its default size. The supplied allocators (default, fixed-size, protected, pooled and user-defined ones, given as lvalue or rvalue) are interchangeable: behaviour is the same, sizes are honoured, and the protected allocator\'s guard page stays in place.',
 ['configurations','histories'],'every allocator type and value category with every kind of coroutine and element category, in every history',
 'Only the default allocator appears in the tests.',
 [PI,SI,CR,I+'fixedsize_stack.hpp',I+'protected_fixedsize_stack.hpp',I+'pooled_fixedsize_stack.hpp',I+'segmented_stack.hpp'],['default_stack','create_control_block'])
p('C20','Behaviour is the same for all standards, compilers and element categories',
 'The headers compile in one or several translation units and the behaviour described here is the same for C++11, C++14 and later, with either compiler, at every optimisation level and with or without assertions. By-value, reference and void coroutines behave identically except for the data they carry.',
 ['configurations','histories'],'every supported language standard, compiler, optimisation level and element category, over the same histories',
 'Each test exercises one element category per feature, so a deviation in one of the three hand-written specialisations (each with two language-standard dependent variants) stays unseen.',
 [PCB,SCB,WR,PI,SI,PH,SH],['BOOST_NO_CXX14_GENERIC_LAMBDAS'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
