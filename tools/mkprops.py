#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept here so that it is reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

PRE='src/core/s/prelude.min'
p('C01','Safe built-ins validate every argument before touching raw memory',
 'Every procedure a Minim program can name without the reserved "$" prefix checks the type of each argument, and for indices, lengths and divisors also the range, before the argument reaches an unchecked runtime primitive. Whatever values a program passes, a violated contract ends in a raised error, never in a memory access through a value of the wrong type, an index outside the object, or a machine trap.',
 ['inputs','programs'],'all argument values of all safe built-ins, on every path through their bodies',
 'The tests call each built-in with a handful of well-typed arguments and almost never with wrong types or out-of-range indices; a missing check on one path is invisible to them.',
 [PRE,'src/core/c/prim.c'],
 [('type and range tests around each $-primitive call',PRE),('unchecked primitives','src/core/c/*.c')],observe=['prelude definitions'])
p('C02','Every name resolves and every known call has an acceptable arity',
 'In the runtime prelude, the boot image and the standard library, every variable reference denotes a binding that exists, and every call to a procedure that is statically known passes a number of arguments that procedure accepts. No built-in, on any path including its error paths, fails with an unbound-variable or arity error of its own making.',
 ['inputs','programs'],'all code paths of the Minim-level runtime, including error and rarely used paths',
 'Minim is dynamically scoped-checked: an unbound name or a wrong argument count on an error path only shows when that path runs, and the tests run almost no error paths.',
 [PRE,'src/boot/s/boot.min','src/library/private/*.min','src/library/*.min'],
 [('lexical scope and top-level definitions',PRE),('import/export lists','src/library/**/*.min'),('primitive table','src/core/c/prim.c')])
p('C03','Contract errors name the called procedure and show the offending value',
 'When a built-in or base-library procedure rejects an argument, the raised argument or range error carries, as its origin, the name of the procedure the program called, and, as its value, the argument that failed the check. The error procedures are themselves always given data they accept, so the reported condition is the intended one and not a secondary error.',
 ['inputs'],'all rejected arguments of all built-ins and exported base-library procedures',
 'No existing test inspects the who or irritant of a raised condition; most never raise one.',
 [PRE,'src/library/private/list.min','src/library/private/set.min','src/library/private/string.min','src/library/private/path.min'],
 [('raise-argument-error / raise-range-error calls',PRE)])
p('C04','Primitive table, C implementations and callers agree on arity',
 'Every primitive procedure is registered with exactly the number of arguments its implementation takes, under a unique name, and every call of a primitive in the runtime prelude passes that many arguments. A call to a primitive therefore never reads a missing argument or drops one.',
 ['inputs','programs'],'all registered primitives and all their call sites',
 'The table is about 150 untyped entries casting function pointers; tests call a fraction of them.',
 ['src/core/c/prim.c','src/core/minim.h','src/core/c/jitprims.c'],
 [('init_prims registrations','src/core/c/prim.c')])
p('C05','Procedures not marked as mutators leave their arguments unchanged',
 'A procedure whose name does not end in "!" and that is not an explicit setter never modifies a pair, vector, string, box, record, hashtable, set, environment or procedure passed to it, nor anything reachable from it. Results may share structure with arguments, but the arguments compare equal before and after the call.',
 ['inputs','histories'],'all arguments, including shared and cyclic structure, of all non-mutating primitives, prelude and base-library procedures',
 'Tests check the returned value, hardly ever that the arguments survived; mutation shows only when a later step reuses them.',
 ['src/core/c/list.c','src/core/c/string.c','src/core/c/vector.c','src/core/c/procedure.c','src/core/c/hashtable.c','src/core/c/env.c',PRE,'src/library/private/*.min'],
 [('stores only into freshly allocated objects','src/core/c/*.c'),('copy before destructive helper','src/library/private/sort.min, set.min')])
p('C06','Accessors return the component they are named after',
 'Each car/cdr composition (car through cddddr, at both the primitive and the safe level) returns exactly the component its name spells, and each accessor, mutator and constructor of the built-in record types (hashtables, pattern variables, exception conditions) addresses the field it is named after. This holds for every well-formed argument.',
 ['inputs'],'all c[ad]r procedures and all record types declared by the runtime',
 'Tests exercise a few compositions and no exception-field accessors on distinguishable values.',
 [PRE,'src/core/c/list.c','src/core/c/prim.c'],
 [('access path of each definition',PRE),('record field index given to record-accessor',PRE)])
p('C07','Every object is allocated large enough and fully initialised',
 'Each runtime object constructor allocates at least as many bytes as the layout of the object it builds requires, sets the type tag, and gives every field a value before the object becomes visible to the program. No access through the documented layout of a freshly built object reads or writes outside its allocation.',
 ['inputs','programs'],'all constructors and all sizes requested',
 'Allocators round sizes up, so an undersized object corrupts memory only for particular sizes or collectors; uninitialised fields are usually zero by luck.',
 ['src/core/minim.h','src/core/c/*.c'],
 [('M* constructors','src/core/c/*.c'),('minim_*_size layout macros','src/core/minim.h')])
p('C08','Generic operations inspect only fields the object really has',
 'Operations that accept a value of any type (printing, eq?, equal?, hashing, syntax stripping and wrapping, serialisation, predicates) read a component of the value only after establishing that the value has a type with that component. No value, of any type, makes them follow a wrong or missing field.',
 ['inputs'],'values of every object type in every generic operation',
 'Tests feed a generic operation the types they expect; a wrong tag test only shows for a type nobody passed.',
 ['src/core/c/print.c','src/core/c/object.c','src/core/c/hashtable.c','src/core/c/fasl.c','src/core/c/syntax.c','src/core/c/record.c'],
 [('tag test before field access','src/core/c/*.c')])
p('C09','Comparison, hashing and printing agree about every type of value',
 'Two values are eq? exactly when they are the same object or fixnums or characters of equal value; two values are equal? exactly when they are eq?, strings of equal text, or pairs, vectors or boxes whose components are equal?. Values that are eq? always have the same eq-hash, and equal leaf values (numbers, characters, strings, symbols) the same equal-hash, whatever happens to mutable contents. The runtime printer gives every type of value a representation of its own and prints every element of lists, vectors and boxes in order.',
 ['inputs'],'all pairs of values of all types, of any size',
 'Tests compare, print and hash a few types; a dropped case falls through to a default that still returns something, and a wrong hash is only noticed by a lookup of a separately built key.',
 ['src/core/c/print.c','src/core/c/object.c','src/core/c/hashtable.c'],
 [('eq? / equal?','src/core/c/object.c'),('eq_hash / equal_hash','src/core/c/hashtable.c'),('print dispatch','src/core/c/print.c')])
p('C10','Every instruction the compiler emits is one the evaluator executes',
 'Each virtual-machine instruction that the compiler, the optimiser or a hand-written primitive can put in a code object is recognised by the evaluator, and the evaluator reads from it only operands the emitter supplied. Register and label operands are ones the evaluator understands.',
 ['programs'],'all compiled programs',
 'The tests compile small expressions; an instruction emitted only for an unusual form (e.g. letrec with many values, rest arguments in case-lambda) is not reached.',
 ['src/core/c/jitcompile.c','src/core/c/jitprims.c','src/core/c/eval.c','src/core/c/jit.c'],
 [('instruction templates','src/core/c/jitcompile.c'),('dispatch loop','src/core/c/eval.c')])
p('C11','Jump targets survive linking: every branch is relocated',
 'Every instruction carrying a label operand is rewritten to the location of that label wherever code is resolved, written to memory or read back, and every label an emitter references is also placed in the same instruction sequence. No executed branch can see an unresolved label.',
 ['programs'],'all compiled programs and all branch kinds',
 'Each branch kind needs entries at three separate sites; tests do not execute each kind from each site.',
 ['src/core/c/jit.c','src/core/c/jitcommon.c','src/core/c/jitcompile.c','src/core/c/eval.c'],
 [('label resolution','src/core/c/jit.c, jitcommon.c')])
p('C12','Every compiler pass handles every core form completely',
 'Every pass over core expressions (syntax check, the optimiser levels, free- and bound-variable analysis, code generation) recognises every core form the pass can receive and processes every sub-expression of it. No pass silently drops, skips or leaves untransformed a sub-expression in any form.',
 ['programs'],'all core forms in all passes',
 'Tests check the value of a few programs per form; a sub-expression skipped by an analysis changes behaviour only for particular nestings of free variables.',
 ['src/core/c/check.c','src/core/c/jitopt.c','src/core/c/jitanalyze.c','src/core/c/jitcompile.c'],
 [('form dispatch in each pass','src/core/c/*.c')])
p('C13','Malformed core syntax is rejected before it is compiled',
 'Every expression handed to the evaluator passes the syntax check before any compiler pass sees it, and the check itself inspects a part of the expression only after establishing that the part exists. Any malformed expression, however short or improper, ends in a bad-syntax error rather than a crash.',
 ['inputs','programs'],'all ill-formed expressions of every core form',
 'Tests hold only well-formed programs.',
 ['src/core/c/check.c','src/core/c/eval.c','src/core/c/jit.c'],
 [('check_expr','src/core/c/check.c')])
p('C14','The evaluation stack is never written past its limit',
 'Before the evaluator stores an argument or a frame on the stack it has established that the current segment has room for it, and the limit it compares with lies inside the segment. Deep recursion or many arguments grow the stack into a new segment; they never write outside it.',
 ['inputs','programs'],'all recursion depths and argument counts',
 'Tests do not recurse deeply or pass many arguments, and an overrun corrupts silently.',
 ['src/core/c/eval.c','src/core/c/thread.c','src/boot/c/boot.c'],
 [('stack limit tc_esp','src/core/c/eval.c'),('check_stack / reserve_stack / grow_stack','src/core/c/eval.c')])
p('C15','Returning from a call restores exactly the state saved when it was made',
 'Every component of evaluator state recorded when a call frame is pushed (return address, environment, stack position, current procedure, argument count, previous frame) is restored from the same component when the frame is popped. Nothing recorded is lost and nothing is restored from another component.',
 ['programs','histories'],'all calls, including nested non-tail calls and stack-segment changes',
 'A swapped or missing component is masked in simple call patterns because both hold equal values.',
 ['src/core/c/eval.c','src/core/c/frame.c'],
 [('Mcontinuation / push_frame / restore_frame','src/core/c/frame.c, eval.c')])
p('C16','What the FASL writer emits, the FASL reader consumes',
 'For every kind of value the FASL format supports, the reader consumes exactly the fields the writer emits, in the same order and encoding, under the same tag, and every tag has both a writer and a reader. Unknown tags and truncated input are reported as errors.',
 ['inputs'],'all FASL-serialisable values and all truncations of their encodings',
 'The tests round-trip a few small values; multi-byte lengths, negative numbers and truncated input are not covered.',
 ['src/core/c/fasl.c','src/core/minim.h'],
 [('write_fasl / read_fasl','src/core/c/fasl.c')])
p('C17','Reading text never overruns a buffer and always notices end of input',
 'The reader stores a character of a token only while the token buffer has room for it and its terminator, for tokens of any length and kind, and every loop that consumes input stops with an error or a result when the input ends. Input text alone can neither corrupt memory nor hang the reader.',
 ['inputs'],'all input texts',
 'Tests read short, well-formed, terminated text.',
 ['src/core/c/read.c'],
 [('token buffer bound test','src/core/c/read.c'),('EOF tests in loops','src/core/c/read.c')])
p('C18','Equal symbol names always denote the same symbol',
 'A symbol is entered into the symbol table in the bucket that later searches for its name will examine, whatever resizing happens in between, and it is entered only when the search found no symbol of that name. Resizing loses no entry.',
 ['inputs','histories'],'all sequences of interned names',
 'Breakage needs a name interned exactly when the table grows, and then looked up again.',
 ['src/core/c/symbol.c'],
 [('intern_symbol / resize','src/core/c/symbol.c')])
p('C19','Hash tables keep their entry count and buckets consistent',
 'Every insertion of a new key increments a table\'s size by one, every removal decrements it by one, replacing a value leaves it unchanged, and growing or shrinking carries every entry over to the bucket given by the new bucket count. This holds for the runtime tables, top-level environments and user-visible hashtables.',
 ['inputs','histories'],'all sequences of insertions, updates, deletions, copies and clears',
 'Tests use tables too small to grow or shrink and few orders of operations.',
 ['src/core/c/hashtable.c','src/core/c/env.c','src/core/c/symbol.c',PRE],
 [('count updates and bucket index','src/core/c/hashtable.c, env.c'),('incr-size!/decr-size!/adjust!',PRE)])
p('C20','File and system failures are detected before their result is used',
 'The result of every operation that can fail for reasons outside the program (opening files, reading the working directory, changing it, resolving paths, allocating buffers) is tested before it is used, failure is reported as an error, and a file the runtime itself opens is closed on every path that completes normally.',
 ['inputs','fault_sequences'],'all failures of all file, path and allocation calls',
 'Tests only open files that exist and never make a system call fail.',
 ['src/core/c/io.c','src/core/c/system.c','src/boot/c/boot.c','src/boot/c/minim.c','src/core/c/fasl.c'],
 [('NULL / error-code tests','src/core/c/system.c, io.c')])
p('C21','Temporarily changed interpreter state is put back',
 'Operations that temporarily change per-thread interpreter state (current directory while loading a file, current environment while evaluating, re-entry point) restore the previous value on every path that returns to the caller, including returns before the operation\'s main work.',
 ['histories','programs'],'all nestings of load, eval and import',
 'Tests never observe the state after a nested operation returns.',
 ['src/core/c/system.c','src/core/c/eval.c','src/library/module.min','src/core/c/jitprims.c'],
 [('save and restore around nested evaluation','src/core/c/system.c, eval.c')])
p('C22','Code in tail position runs without growing the continuation',
 'A procedure call in tail position of a procedure body, a conditional branch, a sequence or a let body is compiled as a tail call, and a call in any other position saves its continuation first. Tail-recursive loops of any length therefore run in constant continuation depth and non-tail results always come back to their consumer.',
 ['programs','inputs'],'all nestings of core forms',
 'Tests loop a few times; lost tail-call treatment only costs memory, and a missing continuation only shows in particular nestings.',
 ['src/core/c/jitcompile.c'],
 [('tail flag passed to sub-expression compilation','src/core/c/jitcompile.c')])
p('C23','The bundled collector never frees reachable memory or loses a block',
 'In the bundled garbage collector every registered block is marked before the sweep if it is reachable from a root or the stack, only unmarked blocks are freed, each freed block is removed from the block table first, and block flags survive relinking. Collector counters change together with the table they describe.',
 ['histories','programs'],'all allocation, reallocation, removal and collection histories',
 'No test exercises this collector at all.',
 ['src/gc/minim-gc/gc.c','src/gc/minim-gc/gc-impl.c','src/gc/minim-gc/gc-types.h'],
 [('mark and sweep','src/gc/minim-gc/gc-impl.c')])
p('C24','The boot image provides what the library sources define',
 'Every name exported by a library module that the boot image is generated from is defined in the boot image with the same procedure arity, and the boot image defines each name once, before any top-level use of it. Booting the interpreter therefore gives the same procedures as loading the sources.',
 ['programs','configurations'],'all exported names of all boot modules',
 'The tests regenerate the image to a scratch file but never compare it with the committed one.',
 ['src/boot/s/boot.min','src/library/gen-boot.min','src/library/private/*.min','src/library/*.min'],
 [('gen-boot.min','src/library/gen-boot.min')])
p('C25','The collector can see every reference the runtime keeps',
 'Memory that can hold references to heap objects is never allocated as pointer-free or unmanaged memory: no object with reference fields, no table of objects and no evaluation stack is made in such memory, and no reference is stored in it. Every global variable that holds a heap object lies in static storage the collector scans, and nothing withdraws it. Special objects and the symbols the core uses are created exactly once, one object per global.',
 ['programs','histories'],'all globals, all allocation sites and all uses of the memory they return',
 'A reference the collector cannot see only shows if a collection happens between its storing and its use; the tests hardly allocate enough to collect.',
 ['src/core/c/global.c','src/core/c/*.c','src/gc/gc.h'],
 [('init_minim','src/core/c/global.c'),('GC_alloc vs GC_alloc_atomic','src/core/c/*.c')])
p('C26','Text written by the printer reads back as the same kind of value',
 'Every character and string escape the writer produces is one the reader decodes to the same character, character names are unique in both directions, and characters the reader treats as delimiters or escapes are never emitted bare inside strings.',
 ['inputs'],'all characters and strings',
 'Tests write and read a few named characters only.',
 ['src/core/c/read.c','src/core/c/print.c',PRE,'src/library/read.min'],
 [('escape and name tables','src/core/c/read.c, print.c; prelude wrchar/wrstring; read.min')])
p('C27','Arithmetic and comparison built-ins fold their own operation',
 'Each variadic arithmetic or comparison built-in applies, for every number of arguments, only the primitive operation it is named after, combining the arguments from left to right with the accumulated result as the left operand. The result for n arguments is thus the left fold of the two-argument result.',
 ['inputs'],'all argument counts and values of + - * / = < > <= >=',
 'Tests call these procedures with one or two arguments and few values.',
 [PRE,'src/core/c/number.c'],
 [('variadic clauses',PRE),('fixnum primitives','src/core/c/number.c')])
p('C28','Optimisation never changes the value a program computes',
 'For every core expression, evaluating it after the optimiser levels gives the same values, effects and errors as evaluating it unoptimised.',
 ['programs','inputs'],'all programs','Tests compare a few outputs.',
 ['src/core/c/jitopt.c'],[('jit_opt_L0/L1/L2','src/core/c/jitopt.c')])
p('C29','Macro expansion is hygienic',
 'Identifiers introduced by a macro never capture or are captured by identifiers at its use site, for every macro and every use.',
 ['programs'],'all macros and all uses','Tests use few macros in benign contexts.',
 ['src/library/expander.min','src/library/private/stxcase.min'],[('scope sets and renaming','src/library/expander.min')])
p('C30','Sorting and set operations compute the mathematically right result',
 'sort returns an ordered permutation of its input for every total order, and set union, intersection, subtraction and symmetric difference contain exactly the elements their definition prescribes.',
 ['inputs'],'all inputs','Tests sample a few small inputs.',
 ['src/library/private/sort.min','src/library/private/set.min'],[('merge sort; set loops','src/library/private/sort.min, set.min')])
p('C31','Fixnum arithmetic is exact',
 'Fixnum operations return the mathematically exact result or report that it is not representable.',
 ['inputs'],'all pairs of fixnums','Tests use small numbers.',
 ['src/core/c/number.c','src/core/c/read.c'],[('C long arithmetic','src/core/c/number.c')])
p('C32','A value written as FASL reads back equal',
 'For every FASL-serialisable value v, reading the bytes written for v yields a value equal to v.',
 ['inputs'],'all serialisable values','Tests round-trip a few values.',
 ['src/core/c/fasl.c'],[('write_fasl / read_fasl','src/core/c/fasl.c')])
# wording kept in step with what the checks decide
ST={
'C01':'Every procedure a Minim program can name without the reserved "$" prefix checks the type of each argument, and for indices, lengths and divisors also the range, before the argument reaches an unchecked runtime primitive. Whatever values a program passes, a violated contract ends in a raised error, never in an unchecked primitive being called with a value of the wrong type, an index outside the object, or a zero divisor.',
'C03':'When a built-in or base-library procedure rejects an argument, the raised argument or range error carries, as its origin, the name of the public procedure that performs the check (the one called, or a public procedure it delegates to), and, as its value, the argument that failed the check. The error procedures are themselves always given data they accept, so the reported condition is the intended one and not a secondary error.',
'C04':'Every primitive procedure is registered with exactly the number of arguments its implementation takes, under a unique name, and every call of a primitive in the runtime prelude passes that many arguments. A call to a primitive therefore never reads a missing argument or drops one, and the arity a procedure object reports is the one its code accepts.',
'C06':'Each car/cdr composition (car through cddddr, at both the primitive and the safe level) returns exactly the component its name spells, and each accessor, mutator and constructor of the built-in data and record types (pairs, vectors, strings, boxes, hashtables, pattern variables, exception conditions) addresses the component or field it is named after. Conversions between lists, vectors and strings keep every element in order, type predicates answer for exactly the type they name, and safe procedures hand their own arguments to their primitive. This holds for every well-formed argument of any size.',
'C10':'Each virtual-machine instruction that the compiler, the optimiser or a hand-written primitive can put in a code object is recognised by the evaluator, and the evaluator reads from it only operands the emitter supplied and has exactly the effect on registers, stack and environment that the emitter relies on. Register and label operands are ones the evaluator understands.',
'C12':'Every pass over core expressions (syntax check, the optimiser levels, free- and bound-variable analysis, code generation) recognises every core form the pass can receive and processes every sub-expression of it, in any position and number. No pass silently drops, skips, duplicates or leaves untransformed a sub-expression in any form, and transformed forms keep their identifiers and quoted data unchanged.',
'C14':'Before the evaluator stores an argument or a frame on the stack it has established that the current segment has room for it, and the limit it compares with lies inside the segment. Deep recursion or many arguments grow the stack into a new segment and move the current frame there completely; they never write outside it.',
'C16':'For every kind of value the FASL format supports, the reader consumes exactly the fields the writer emits, in the same order and encoding, under the same tag, and every tag has both a writer and a reader, so a value of any size or length reads back equal. Unknown tags and truncated input are reported as errors.',
'C17':'The reader stores a character of a token only while the token buffer has room for it and its terminator, for tokens of any length and kind, and every loop that consumes input stops with an error or a result when the input ends. A datum that is cut off by the end of the input is an error, text without a datum reports the end of the input, and no byte of the text is mistaken for its end. Input text alone can neither corrupt memory nor hang the reader.',
'C26':'The reader gives every well-formed text (lists with any brackets, dotted pairs, vectors, boxes, quotes, comments, decimal and hexadecimal fixnums, strings with escapes, characters and their names, symbols of any length below the limit) exactly the datum its syntax denotes and consumes no text beyond it. Every character, string and structure that is written by write (and, in messages, by the C printer, characters and structures) reads back as the same value.',
'C27':'Each variadic arithmetic or comparison built-in applies, for every number of arguments, only the primitive operation it is named after: arithmetic combines the arguments from left to right with the accumulated result as the left operand, comparison holds exactly when the operation holds for every adjacent pair. The primitives themselves compute the named operation on their two operands, with division guarded against a zero divisor.',
}
ST['C20']='Every operation of the runtime that can fail for reasons outside the program (opening files, creating the buffer of a string port and reading its position or contents, reading and changing the working directory, resolving paths, mapping and protecting memory pages) has its result tested before it is used: when it fails the operation that needed it ends in an error and never returns normally or uses the failed result. A file the runtime opens is closed exactly once or kept in the open port it returns on every path that completes normally, a closed port is marked closed, and the stream of a closed port is never used.'
ST['C21']='Operations that temporarily change per-thread interpreter state restore it on every path that returns to the caller, whatever the code they run in between did: loading a file (and the library) returns in the working directory it was called in, with current-directory naming it; a nested evaluation returns with the argument count, procedure, frame, stack segment, environment and re-entry point of the evaluation it interrupted; eval with an environment argument leaves the top-level environment as it was.'
TT={'C26':'Text reads as the datum it denotes and written values read back'}
for d in P:
    if d['id'] in ST: d['statement']=ST[d['id']]
    if d['id'] in TT: d['title']=TT[d['id']]
import sys
out=sys.argv[1] if len(sys.argv)>1 else '/verif/properties.jsonl'
open(out,'w').write(''.join(json.dumps(d)+'\n' for d in P))
