NOTE.update({
 'S01': 'random search over output histories, buffering modes, allocation failure and short writes against an exact byte oracle',
 'S02': 'random search over write/close faults; a candidate-state set per stream decides every file and every return value',
 'S03': 'random search over input histories, splits and read failures against a byte-position oracle',
 'S04': 'random search over positioning and update histories with host seek failures against a one-array model',
 'S05': 'random search over open/close/reopen histories with descriptor and memory exhaustion; slots, descriptors and bytes are counted',
 'S06': 'random search over exit paths, handler chains and buffered data with host failures at exit',
 'S07': 'random search over terminal sessions; the host checks what it was given whenever the guest blocks',
 'F01': 'random search over file operation histories and host failures against an in-memory POSIX file system model',
 'F02': 'random search over every system call wrapper with every host error number; the result and errno are compared with what the host reported',
 'F03': 'random search over preopen tables, working directories, paths and host failures against an exact path resolution model',
 'D01': 'random search over directory contents, buffer splits, cookies, seek histories and host failures',
 'T01': 'random search over clocks, zones and formats, with clock jumps and clock failures, against an independent calendar',
 'A01': 'random search over argument vectors around the edge of the area, fetch faults, memory limits and later memory traffic, for ten link options',
 'B01': 'random search over builds and host failures at chosen calls; a build that reports success must equal the fault-free one',
 'B02': 'random search over builds repeated under different heap layouts, contents, read splittings, clocks and environments',
 'B03': 'random search over mixtures and orders of objects and sources, and over torn objects; bytes and behaviour compared',
 'B04': 'random search over kill points and refusals of builds against what may have happened to the files, and a repeat of the build',
 'B05': 'random search over builds by the self-hosted compiler under layouts, splits, clocks and host failures against the native build',
 'B06': 'random search over clocks (standing, stepping, jumping) and zones for native and self-hosted builds against an independent calendar',
 'B07': 'random search over damage to sources, headers, objects and libraries, each read under two heap layouts and read splittings, one in two under AddressSanitizer',
})
