#!/usr/bin/env python3-vt
"""Regenerates /verif/properties.jsonl (kept in code so that the text has one home)."""
import json, os, jsonschema
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p('B01','A build that reports success was not built on failed I/O',
 'When an allocation, a read of an input, the opening of a file named on the command line, or the writing or closing of the output fails during a compiler run, the run stops within bounded work, without a crash, with a non-zero exit status and a diagnostic on standard error. Whenever a run exits 0 its output is complete and byte-for-byte what a fault-free run produces. A header or library search candidate that cannot be opened counts as absent.',
 ['fault_sequences','inputs','configurations'],'every point at which the host can fail a compile, link or whole-program run (source, header, object, library, output, standard streams, heap), in every mode (-c, link, .wasm, text, stdout)',
 'The tests only run the compiler on a healthy host; they never see a failing read, a full disk or an exhausted heap, and there is one place per system interaction where the outcome can be ignored.',
 ['c.c','l.c','p.c','w.c','w.h'],
 [('driver opens, writes and closes the output','c.c: main'),('line readers used by both lexers','l.c: fgetlb / mgetlb, p.c and w.c: fetchline'),('checked allocators that end the run','l.c: emalloc, ecalloc, erealloc'),('fatal diagnostics and exit codes','l.c: eprintf, p.c: reprintf/neprintf')],
 observe=['exit status','standard error','bytes of the output file or standard output'])

p('B02','Builds are reproducible',
 'Compiling or linking the same inputs with the same options gives byte-identical output, the same diagnostics and the same exit status, whatever addresses and left-over contents the heap hands out, however the host splits the input into reads, whatever the clock says and whatever unrelated state the environment holds.  Only an expansion of __DATE__ or __TIME__ may differ between two runs.',
 ['configurations','schedules','programs'],'every heap layout and heap content, every chunking of reads and writes, every clock value, for every program',
 'The tests build each program once with one allocator, one file system and one moment in time, so an output that depends on uninitialised memory, on addresses used as sort keys or on read boundaries is never compared with anything.',
 ['c.c','l.c','p.c','w.c'],
 [('growable buffers, symbol table and sorting by symbol number','l.c: buf*, cb*, intern'),('node pool and code generation','p.c, c.c'),('module writers','w.c: write_wat_module, write_wasm_module')],
 observe=['output bytes','standard error','exit status'])

p('B03','Separate compilation and linking lose nothing',
 'Linking stored object files, in any mixture with source files, gives byte-for-byte the program that compiling all the sources in one run gives, and the order of the inputs on the command line changes neither the outcome nor the behaviour of the program. An object file torn off at any point before its last closing parenthesis is refused with a non-zero exit status and a diagnostic, and no output is written.',
 ['programs','histories','crash_points'],'every program split into modules, every choice of which modules pass through a stored object file, every command-line order, every point at which the writing of an object file was cut',
 'The tests link single-file programs against the library only; the object writer and reader meet just the constructs those programs contain, and no test ever reads back a torn object.',
 ['w.c','c.c','lib/README.md'],
 [('object writer','w.c: write_wat_module'),('object reader','w.c: read_wat_object_module, lex, parse_module'),('linker: dependency walk, static data layout, function table','w.c: link_wat_modules, process_depglobal, watify_wat_module')],
 observe=['linked .wasm/.wat bytes','exit status'])

p('B04','A killed or refused build does no lasting harm',
 'Wherever a compiler run is killed, and however it fails, no file except its -o target is created, changed or removed. A run that fails before its inputs have all been compiled and linked leaves an existing target as it was. Repeating the interrupted run to completion gives the same outcome and output as a run that was never interrupted.',
 ['crash_points','fault_sequences','histories'],'every point at which the process can be killed or can fail, over build histories of compile and link steps',
 'No test interrupts the compiler or looks at what is left on disk after a failing run.',
 ['c.c','w.c','p.c'],
 [('output is opened only when the module is ready','c.c: main'),('inputs opened for reading only','p.c: newpws, w.c: newsws')],
 observe=['directory contents before and after','output of the repeated run'])

p('B05','The self-hosted compiler is the same compiler',
 'Compiled by itself and run under a WASI host, the compiler gives for every input and option the same output bytes, the same exit status and the same diagnostics as the native build, however the host splits reads and however directory preopens are laid out (the decimal renderings of floating-point constants, which the C library documents as approximate, and the texts of system errors aside). If the host fails an operation or shortens a write it never exits 0 with output that differs from the fault-free output. (A host that refuses to hand over the arguments or the environment is reported on standard error and counts as passing none.)',
 ['programs','schedules','fault_sequences'],'every compiler input, every splitting of host I/O, every host failure, with the compiler and its own C library both running as WebAssembly',
 'The self-host test compiles the compiler once on a healthy host and compares one result; other inputs, error paths and host schedules are never tried.',
 ['c.c','l.c','p.c','w.c','lib/src/stdio.c','lib/src/stdlib.c','lib/src/fcntl.c'],
 [('compiler sources restricted to the dialect it accepts','README.md, c.c, l.c, p.c, w.c'),('libc on WASI','lib/src')],
 observe=['output bytes','exit status','standard error'])

p('B06','__DATE__ and __TIME__ state the moment of the build in UTC',
 'In every build, native or self-hosted, __DATE__ expands to the UTC calendar date "Mmm dd yyyy" and __TIME__ to the UTC time "hh:mm:ss" of the host clock when the translation of that source file begins, the same value at every place it is used in one source file and its headers, whatever the time zone settings of the host and however its clock moves meanwhile.',
 ['schedules','configurations'],'every clock value from 1970 to beyond 2100, including jumps of the clock during the run, and every TZ setting',
 'The tests never look at the expansion, and the clock cannot be set by a test.',
 ['p.c','l.c','lib/src/time.c'],
 [('macros are defined once per source file from one clock reading','p.c: init_symbols'),('formatting','l.c: cbputtime, lib/src/time.c: strftime')],
 observe=['string constants in the output'])

p('B07','Inputs damaged on disk never crash or mislead the compiler',
 'Whatever a failing disk, an interrupted copy or a stray edit did to the sources, headers, object files and library objects a run reads (cut short, sectors zeroed, lost, swapped, repeated or taken from another file, bits flipped, words lost, doubled or replaced), every run ends by an exit: with status 0, or with a nonzero status and a diagnostic on standard error. It never ends by a signal or a failed assertion, never runs for ever, never touches memory outside its own objects, and its status, diagnostics and output depend on nothing but the bytes it was given: not on heap contents and not on how the host splits the reads.',
 ['fault_sequences','programs','configurations'],'every kind and place of damage in every input file of every build',
 'The tests feed the compiler a few hand-written erroneous sources; no test reads a damaged header, object file or library.',
 ['c.c','l.c','p.c','w.c'],
 [('source scanner and parser','p.c'),('declarations, initializers and function definitions','c.c: process_vardecl, initialize_bulk_data, process_fundef'),('object reader','w.c: lex, parse_modulefield, parse_ins'),('linker','w.c: link_wat_modules, wat_to_wasm_code'),('character decoding','l.c: unutf8, strtou8c')],
 observe=['how the process ends','exit status','standard error','output bytes'])

p('S01','Stream output arrives complete, once and in order',
 'On a host that accepts writes, the bytes a program writes to a stream with any mixture of putc, fputc, fputs, puts, fwrite, printf and fprintf reach the file in call order, each exactly once, at the latest when the stream is flushed (alone or with fflush(NULL)), closed, or the program ends normally. This holds for every buffering mode and buffer size, for truncating, appending and exclusive opening, with any number of streams open, and when no memory is left for buffers; the counts the calls return are right.',
 ['histories','configurations','fault_sequences'],'every history of output calls over several streams, every setvbuf choice, every heap limit',
 'The stdio tests print a few lines through one default-buffered stream and cannot see host writes; buffer-boundary arithmetic depends on the history.',
 ['lib/src/stdio.c','lib/include/stdio.h'],
 [('buffered writing','lib/src/stdio.c: _flushbuf, writebuf, fwrite, fputs, wrtchk'),('putc macro','lib/include/stdio.h'),('buffer allocation fallback','lib/src/stdio.c: addbuf, setvbuf')],
 [('cnt/ptr/base/end','remaining room and buffer window','lib/include/stdio.h: struct _iobuf')],
 observe=['fd_write calls','file contents','return values'])

p('S02','No stream output is lost silently',
 'If the host refuses or shortens a write, the call during which it happened or a later fflush or fclose of that stream reports failure and ferror is set until cleared, so that when every call on a stream reported success the file holds every byte written. What does reach the file is always an in-order selection of what was written: never duplicated, reordered or invented. After the host recovers, later writes to the stream and to other streams work.',
 ['fault_sequences','histories'],'every history of output calls and every placement of failing, short and full-disk writes in it',
 'No test makes a write fail.',
 ['lib/src/stdio.c','lib/src/unistd.c'],
 [('error indicator','lib/src/stdio.c: writebuf, _flushbuf, fwrite, fputs, fflush, fclose')],
 observe=['return values','ferror','file contents'])

p('S03','Stream input delivers exactly the host bytes',
 'Bytes read from a stream with any mixture of getc, fgetc, fgets, fread, fscanf and ungetc are exactly the bytes of the file in order, however the host splits them into short reads, none lost, repeated or invented. End-of-file is reported only when the host reported end and an error only when the host failed a read; after a failed read, reading can continue without loss; a character pushed back is the next one read.',
 ['schedules','fault_sequences','histories'],'every splitting of the input into host reads, every placement of read failures, every history of input calls, every buffering mode and heap limit',
 'Tests read small in-memory strings; short reads, read errors and their interplay with buffer refills are never exercised.',
 ['lib/src/stdio.c','lib/include/stdio.h'],
 [('refill','lib/src/stdio.c: _fillbuf'),('readers','lib/src/stdio.c: fread, fgets, ungetc, _in_file'),('getc macro','lib/include/stdio.h')],
 observe=['returned bytes','feof/ferror','host file offset'])

p('S04','Positioning and update streams follow the file model',
 'For every sequence of reads, writes, fseek, ftell, rewind, fgetpos, fsetpos, fflush and ungetc that C allows on a read, write, append or update stream, the results and the final file are those of one byte array with one position, whatever the buffering. If the host cannot seek, the positioning call reports failure and neither buffered input nor written output is lost.',
 ['histories','fault_sequences','schedules'],'every legal history of operations on a stream in every mode, every splitting of host I/O, every failing seek',
 'No test repositions a stream; the interplay of in-buffer seeking, mode switching and flushing depends on the history.',
 ['lib/src/stdio.c'],
 [('positioning','lib/src/stdio.c: fseek, ftell, rewind, fgetpos, fsetpos'),('mode switching flags','lib/src/stdio.c: wrtchk, _fillbuf, fflush')],
 observe=['return values','file contents'])

p('S05','Streams and descriptors are conserved',
 'Up to FOPEN_MAX streams can be open at once; further opens fail cleanly, and a failed open (bad mode, host error, no slot) leaks neither a stream nor a descriptor. Closing a stream closes its descriptor exactly once and frees its slot even when the final flush or the close itself fails, reporting that failure. No descriptor the program did not close is ever closed or reused behind its back, and open, close and reopen cycles can go on forever without running out of streams, descriptors or memory.',
 ['histories','fault_sequences'],'every history of fopen, freopen, fdopen, fclose, opendir and closedir with host failures at any step',
 'Tests open no files at all.',
 ['lib/src/stdio.c','lib/src/fcntl.c','lib/src/dirent.c'],
 [('stream table','lib/src/stdio.c: findfp, freopen, fdopen, fclose'),('open','lib/src/fcntl.c: open, openat')],
 observe=['host descriptor table','return values'])

p('S06','Exit runs handlers once, flushes everything, and keeps the status',
 'When main returns or exit is called, the functions registered with atexit run exactly once each in reverse order of registration, after them all data still buffered in open streams is written, and the host receives exactly the given status. Output made by the handlers themselves is delivered too, at least 32 registrations are accepted, and a refused registration is reported. abort and _exit run no handlers and flush nothing, and abort reports failure.',
 ['histories','fault_sequences'],'every history of registrations and output before the end, every way to end, every exit status',
 'Each test program ends in one way, with no handlers and almost nothing buffered.',
 ['lib/src/crt.args.c','lib/src/crt.argv.c','lib/src/crt.void.c','lib/src/stdlib.c','lib/src/stdio.c','c.c'],
 [('termination','lib/src/crt.*.c: terminate'),('registration','lib/src/stdlib.c: atexit'),('closing streams at exit','lib/src/stdio.c: closeall'),('generated start code','c.c: compile_module_to_wat')],
 observe=['proc_exit status','file contents','order of handler calls'])

p('S07','Interactive output appears before the program waits for input',
 'When standard output is a terminal and the program has not chosen another mode, a completed line is handed to the host before the output call returns, and everything written so far is handed over before a read from a terminal standard input blocks. The output of every stream the program made line-buffered is handed over before a read of a terminal, line-buffered or unbuffered standard input. Standard error is handed over by every call. A stream whose mode the program set explicitly keeps that mode: an unbuffered stream is handed over by every call and a fully buffered one is not flushed by newlines.',
 ['schedules','histories','configurations'],'every history of output and input calls, every combination of terminal and non-terminal standard streams, every setvbuf choice',
 'The tests never run on a terminal and check output only after exit.',
 ['lib/src/stdio.c','lib/src/unistd.c'],
 [('terminal detection','lib/src/stdio.c: initialize, lib/src/unistd.c: isatty'),('line flush','lib/src/stdio.c: _flushbuf, fwrite, fputs'),('flush before input','lib/src/stdio.c: _fillbuf')],
 observe=['order of fd_read and fd_write at the host'])

p('M01','The heap never corrupts or overlaps live blocks',
 'Live blocks returned by malloc, calloc, realloc, strdup and strndup are 16-byte aligned, lie inside linear memory, never overlap each other or static data, and keep their contents until freed; calloc blocks are zero, realloc keeps the common prefix. A request that cannot be met, whether memory cannot grow or the size is absurd or overflows, returns NULL, does not trap, and leaves every block, including the one being resized, intact and usable.',
 ['histories','fault_sequences','inputs'],'every history of allocation calls, every size including those near the limits, every point at which memory growth starts to fail',
 'Tests allocate a few blocks on an unlimited heap; fragmentation, coalescing and failing growth depend on long histories.',
 ['lib/src/stdlib.c','lib/src/unistd.c','w.c'],
 [('buddy allocator','lib/src/stdlib.c: pullblock, pushblock, realloc, calloc'),('growth','lib/src/unistd.c: sbrk'),('placement of data, stack and heap','w.c: finalize_wat_module')],
 [('buckets','free lists per size class','lib/src/stdlib.c')],
 observe=['returned addresses','block contents'])

p('M02','Freed memory is used again',
 'Memory that has been freed serves later requests: once everything is freed, any pattern of small and medium allocations that fitted before fits again without growing linear memory, in whatever order blocks were freed. Repeating an allocate-and-free workload therefore never grows memory without bound, and after a failed allocation freeing a block of that size makes the same request succeed.',
 ['histories','fault_sequences'],'every allocation history and every order of freeing, with and without a memory limit',
 'Tests never run long enough to notice lost free blocks and never look at memory size.',
 ['lib/src/stdlib.c'],
 [('splitting and coalescing of buddies','lib/src/stdlib.c: pullblock, pushblock, unlinkblock')],
 observe=['size of linear memory','NULL results under a limit'])

p('F01','File calls do to the host file system what POSIX says',
 'On a healthy host, open, close, read, write, pread, pwrite, lseek, ftruncate, fsync, fdatasync, fcntl, isatty, posix_fallocate, access, stat, lstat, fstat, mkdir, rmdir, unlink, link, symlink, readlink, rename and remove, with their at-variants, have the effect on the file tree and give the results that the POSIX-like reference file system gives for the same history, including failure results with the right errno. Structures they fill describe the object asked about and nothing left over from earlier calls.',
 ['histories','inputs'],'every history of file system calls over a small tree of files, directories and links, every flag combination',
 'No test performs a file system call.',
 ['lib/src/unistd.c','lib/src/fcntl.c','lib/src/stat.c','lib/src/stdio.c'],
 [('thin wrappers that translate arguments and results','lib/src/unistd.c, lib/src/fcntl.c, lib/src/stat.c')],
 observe=['host calls','host tree','return values, errno, struct stat'])

p('F02','Host failures are reported, never swallowed or invented',
 'When the host fails a descriptor, path, directory or clock operation with any error code, the library call that needed it returns its documented failure value with errno set to the matching code, promptly, without trapping, and without side effects beyond those the host performed. A call for which the host reported success does not report failure. Partial transfers are reported with their true count.',
 ['fault_sequences','histories'],'every call, every host error code, every point in a history',
 'The host never fails during the tests.',
 ['lib/src/unistd.c','lib/src/fcntl.c','lib/src/stat.c','lib/src/dirent.c','lib/src/stdio.c','lib/src/time.c','lib/src/errno.c'],
 [('error translation','lib/src/unistd.c and others: errno = error'),('error numbers','lib/include/errno.h')],
 observe=['return values','errno'])

p('F03','Paths resolve to the right preopened directory',
 'A path is resolved relative to the preopened directory whose name is the longest matching whole-component prefix of it, whatever the number, order and spelling (leading ./ or /) of the preopens, and the rest of the path reaches the host unchanged. A path no preopen covers fails without touching the host, and if the host fails or memory runs out while the preopens are being collected the call fails, and once the trouble is over later calls resolve correctly.',
 ['configurations','inputs','fault_sequences'],'every set of preopens, every path, every failure while they are collected',
 'Tests run with no preopen at all or one.',
 ['lib/src/fcntl.c'],
 [('collection','lib/src/fcntl.c: populate_preopens, register_preopened_fd'),('matching','lib/src/fcntl.c: find_abspath, prefix_matches')],
 observe=['descriptor and relative path of path_open and the other path calls'])

p('D01','Directory listing yields every entry exactly once',
 'readdir returns every entry of an unchanging directory exactly once with its right name, type and inode, and then NULL, however the host cuts the listing into buffers and whatever the number and length of the names; scandir returns the same set filtered and sorted as asked. rewinddir starts over with the directory as it then is, and seekdir to a position from telldir resumes there. If the host or the allocator fails midway the call reports failure with no descriptor leaked, and what was returned before stays correct.',
 ['schedules','inputs','fault_sequences','histories'],'every directory content, every host buffer splitting and cookie numbering, every failure point, every history of readdir, telldir, seekdir and rewinddir',
 'No test lists a directory.',
 ['lib/src/dirent.c'],
 [('buffer and cookie handling','lib/src/dirent.c: readdir, fdopendir, seekdir, rewinddir'),('one-shot scan','lib/src/dirent.c: scandirat')],
 observe=['sequence of names','fd_readdir calls','descriptor table'])

p('T01','Clock readings and calendar conversions follow the host clock',
 'time and clock return the host clock at the moment of the call, in whole seconds and in CLOCKS_PER_SEC units, and report a failing clock as -1. gmtime, localtime, asctime, ctime and strftime of a reading give the proleptic Gregorian date and time shifted by the offset TZ states; mktime of localtime gives the reading back for every second from 1902 through 2037, and strftime never writes past the size it is given and returns the length written or 0.',
 ['schedules','inputs','configurations'],'every clock value and clock jump, every TZ setting, every conversion and format',
 'Tests never read the clock, and cannot set it.',
 ['lib/src/time.c'],
 [('clock reading','lib/src/time.c: time, clock'),('calendar arithmetic','lib/src/time.c: secs_to_tm, mktime'),('zone offset','lib/src/time.c: tzset, get_tz_offset'),('formatting','lib/src/time.c: strftime, asctime_r')],
 observe=['returned values and strings'])

p('A01','main receives the host arguments unchanged',
 'Whatever arguments the host passes, main sees exactly their number and bytes, followed by a null pointer, in storage that overlaps neither the stack, the heap nor static data, for every -a choice; this still holds after heavy use of heap and stack. If the arguments cannot be obtained (host failure, no room, no memory) the program is told so on standard error and runs with one empty argument instead of crashing or reading garbage.',
 ['inputs','configurations','fault_sequences'],'every number and length of arguments up to and beyond the reserved area, every argument-area option, every host failure',
 'Tests run with no arguments.',
 ['lib/src/crt.args.c','lib/src/crt.argv.c','lib/src/crt.void.c','w.c','c.c'],
 [('argument area between stack and heap','w.c: finalize_wat_module, lib/src/crt.args.c: initialize'),('heap-allocated arguments','lib/src/crt.argv.c: initialize')],
 observe=['argc/argv as seen by main'])

p('A02','getenv finds exactly the variable asked for',
 'getenv returns the value the host holds for exactly that name, for any number, order and size of variables, including empty values, names that are prefixes of other names and values containing an equals sign, and NULL when there is none. The answer does not change as the program runs. If the host or the allocator fails while the environment is fetched, getenv returns NULL and the failure is announced on standard error.',
 ['inputs','fault_sequences','histories'],'every environment, every name, every failure while it is fetched',
 'No test calls getenv.',
 ['lib/src/stdlib.c'],
 [('fetching and search','lib/src/stdlib.c: initialize_environ, getenv')],
 observe=['return values'])

# honest not-applicable: pure functions of their input
p('P01','Compiled programs mean what the C source says',
 'For every program the compiler accepts, running the produced module gives the results that the C semantics documented for the dialect prescribe, at every optimisation level.',
 ['programs','inputs'],'every accepted program and input','Tests compile a handful of programs.',
 ['c.c','p.c'],[('code generation and peephole optimisation','c.c')])
p('P02','Produced modules are valid WebAssembly',
 'Every module the compiler writes after reporting success validates under the WebAssembly specification with only WASI imports.',
 ['programs'],'every accepted program','Tests compile a handful of programs.',
 ['w.c','c.c'],[('WAT and binary writers','w.c')])
p('P03','Formatted conversion is exact',
 'printf-family output and scanf-family, strtod and strtol input conversion agree with the C standard for every format, flag, width, precision and value.',
 ['inputs'],'every format and value','About 1,190 sampled conversions are tested; the space is unbounded.',
 ['lib/src/stdio.c','lib/src/stdlib.c'],[('conversion core','lib/src/stdio.c: _vsnprintf, _vsnscanf')])
p('P04','Mathematical functions are accurate',
 'Every function of math.h returns a result within the documented error for every argument, including zeros, infinities and NaNs.',
 ['inputs'],'every argument','Tests sample a few arguments per function.',
 ['lib/src/math.c'],[('fdlibm-derived kernels','lib/src/math.c')])
p('P05','String, character, search and sort functions meet their C contracts',
 'For all arguments C allows, the functions of string.h and ctype.h, and qsort, bsearch, rand and the multibyte conversions, give the results the C standard states and touch no memory outside their arguments.',
 ['inputs'],'every argument','Tests call few of them.',
 ['lib/src/string.c','lib/src/ctype.c','lib/src/stdlib.c'],[('straight-line implementations','lib/src/string.c')])

sch=json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P:
        if sch: jsonschema.validate(d,sch)
        assert len(d['title'])<=80,d['id']
        f.write(json.dumps(d)+'\n')
print(len(P))
