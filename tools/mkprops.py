#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=list(observe), hook_needed=None))
    P.append(d)

p('C01', 'Reads return exactly the bytes stored in the image',
  "For every regular file in a well-formed image, a read of n bytes at any position returns exactly the next min(n, size - position) bytes of that file's content and nothing else, however the file is laid out: block size, compressed or stored blocks and metadata, sparse holes, short last block, shared tail fragment, files long enough to need a block index. This holds for every order of reads, seeks and files.",
  ['inputs', 'histories', 'configurations'],
  'all well-formed images (block sizes 4 KiB..1 MiB, every block layout), all (offset, length) pairs, all interleavings of reads of several files',
  'The tests read a few bytes at a handful of offsets of the small single-block files of one fixed image: no holes, no block index, no shared or multiple fragments, no cache eviction pattern.',
  ['src/file.c', 'src/fs.c', 'src/table.c', 'src/decompress.c', 'src/fd.c'],
  [('block walk, hole and fragment handling', 'src/file.c sqfs_read_range'), ('block index fast-forward', 'src/file.c sqfs_blockidx_add / sqfs_blockidx_blocklist'),
   ('fragment lookup', 'src/file.c sqfs_frag_block, src/table.c sqfs_table_get'), ('block decode', 'src/fs.c sqfs_block_read')],
  [('content', 'byte sequence of each regular file', 'image')], ['return value and buffer of squash_read', 'sqfs_read_range'])

p('C02', 'Each descriptor has its own file position with POSIX read/seek semantics',
  "Each open descriptor has its own position, starting at 0; a read returns the bytes at the position and advances it by exactly the number returned, a seek sets it (absolute, relative, or to the end of the file) and returns the new position, and reading at or past the end of the file, or zero bytes, returns 0. A failed or rejected operation (negative target, unknown seek mode, bad descriptor) returns the failure value and leaves every position unchanged, and no operation on one descriptor changes the position of another.",
  ['histories', 'inputs'], 'all sequences of open/read/seek/close over any number of descriptors, on the same or different files and images',
  'The tests walk one fixed sequence on one or two descriptors; independence, positions past the end, rejected seeks and long mixed histories are not sampled.',
  ['src/fd.c'], [('position update', 'src/fd.c squash_read'), ('seek', 'src/fd.c squash_lseek')],
  [('pos', 'per-descriptor file position', 'src/fd.c struct squash_file.pos')], ['squash_read', 'squash_lseek'])

p('C03', 'A descriptor is valid exactly from its open to its close; numbers stay unique',
  "A successful open returns a descriptor number different from that of every descriptor currently open in the process (virtual or real), and that number is accepted by the descriptor operations from then until it is closed and never otherwise: operations on closed, never-opened, negative or foreign numbers fail with a bad-descriptor error and change nothing. Closing releases the number and everything held for it, whatever mix of file and directory descriptors, open order and close order was used.",
  ['histories'], 'all histories of opening and closing files and directory streams in any order, any number of descriptors, with unrelated system descriptors opened and closed in between',
  'The tests open at most two descriptors; table growth, out-of-order closes, reuse of numbers, directory streams mixed with files and bad numbers are not explored.',
  ['src/fd.c', 'src/dirent.c', 'include/squash.h'],
  [('global table of open files, growth and end mark', 'src/fd.c squash_open_inner / squash_close'), ('directory stream takes over the descriptor payload', 'src/dirent.c squash_opendir_inner'), ('validity test', 'include/squash.h SQUASH_VALID_VFD'), ('handle lookup', 'src/fd.c squash_find_entry')],
  [('fd table', 'descriptor number to open file', 'src/fd.c squash_global_fdtable')], ['squash_open', 'squash_close', 'squash_opendir', 'squash_closedir', 'squash_dirfd', 'squash_find_entry'])

p('C04', 'Concurrent open, close and descriptor use behave as if executed one at a time',
  "When several threads concurrently open, close, read, seek, stat and stream directories through descriptors that each thread opened itself, every call has the result it would have in some one-at-a-time order of the calls consistent with real time. No interleaving makes a descriptor vanish, be handed out twice, refer to another thread's file, touches freed memory, or blocks a thread forever.",
  ['schedules', 'histories'], 'all interleavings of two or three threads, including number reuse between one thread\'s close and another\'s open and table growth during use',
  'The tests are single-threaded.',
  ['src/fd.c', 'src/dirent.c', 'src/mutex.c'],
  [('global mutex around table updates', 'src/fd.c'), ('table growth', 'src/fd.c squash_open_inner'), ('close', 'src/fd.c squash_close')],
  [('fd table', 'descriptor number to open file', 'src/fd.c squash_global_fdtable')], ['squash_open', 'squash_close', 'squash_read', 'squash_lseek', 'squash_fstat'])

p('C05', 'Threads sharing one image get the results of running alone',
  "When several threads concurrently read files, look up paths, list directories, read links and stat entries of the same opened image, every call returns exactly what it returns when executed alone on a fresh handle. No interleaving makes a call use released memory, return another block's bytes, fail spuriously or block forever.",
  ['schedules', 'histories'], 'all interleavings of two or three threads whose operations hit, miss and evict in the shared block, fragment, metadata and block-index caches',
  'The tests are single-threaded and never evict a cached block while another reader is using it.',
  ['src/fs.c', 'src/cache.c', 'src/file.c', 'src/table.c'],
  [('per-cache mutex', 'src/fs.c sqfs_md_cache / sqfs_data_cache'), ('round-robin eviction', 'src/cache.c sqfs_cache_add'), ('block index mutex', 'src/file.c sqfs_blockidx_blocklist')],
  [('caches', 'decoded blocks by position', 'src/cache.c')], ['squash_read', 'squash_stat', 'squash_readdir', 'squash_readlink'])

p('C06', 'Path lookup finds exactly the named entry',
  "Looking up a path finds an entry if and only if each of its components names an entry of the directory reached so far, and the result is that very entry: names match byte for byte and in full, in directories of any size (one or many listing groups, with or without a name index), at any depth. Empty and dot components are neutral, a dot-dot component removes the component before it (and a path climbing above the root is not found), and a leading slash is optional.",
  ['inputs', 'configurations'], 'all directory trees (1 to thousands of entries, indexed or not, names sharing prefixes, bytes above 127, maximal lengths) and all path spellings, present and absent',
  'The tests look up a few short names in tiny directories without an index.',
  ['src/dir.c', 'src/fs.c'],
  [('directory scan', 'src/dir.c sqfs_dir_lookup / sqfs_dir_next'), ('name index fast-forward', 'src/dir.c sqfs_dir_ff_header / sqfs_dir_ff_name_f'), ('path walk', 'src/dir.c sqfs_lookup_path_inner'), ('dot-dot removal', 'src/dir.c clear_dot_dot')],
  [], ['squash_open', 'squash_stat', 'squash_lstat', 'sqfs_lookup_path'])

p('C07', 'Symbolic links resolve to the right entry, and resolution always ends',
  "Following a symbolic link reaches the entry its target names, relative targets being taken from the directory that holds the link and absolute ones from the image root (or under the configured root alias), through chains of up to 32 links; final links are followed or not as the operation specifies and links in the middle of a path always are. Dangling targets fail as not found, cycles and longer chains of any shape fail with a too-many-links error, and over-long paths fail with a name-too-long error; resolution always terminates without overrunning memory.",
  ['inputs', 'configurations'], 'all arrangements of links (relative, absolute, nested, chained, cyclic through any number of directories, self-referential, over-long) and all paths through them, followed or not',
  'The tests follow a few hand-made links of one image; there is no cycle through a directory, no relative path to a link, no long target.',
  ['src/dir.c', 'src/readlink.c'],
  [('link following loop and limit', 'src/dir.c squash_follow_link'), ('mid-path links', 'src/dir.c sqfs_lookup_path_inner'), ('root alias', 'src/readlink.c squash_readlink_inode')],
  [], ['squash_open', 'squash_stat', 'squash_opendir'])

p('C08', 'A directory stream yields every entry exactly once and can be repositioned',
  "Reading a directory stream to its end yields each entry of the directory exactly once, in stored order, with its exact name, inode number and type, and then reports the end, again and again. A position obtained from the stream restores it: after seeking to it the following reads return what they returned before, rewinding starts over, and streams opened on the same or other directories do not affect one another.",
  ['histories', 'inputs', 'configurations'], 'all directories (empty to thousands of entries) and all sequences of read, tell, seek and rewind on any number of simultaneously open streams',
  'The tests list two tiny directories with one fixed sequence of calls.',
  ['src/dirent.c', 'src/dir.c'], [('entry buffering', 'src/dirent.c squash_readdir'), ('listing decode', 'src/dir.c sqfs_dir_next')],
  [('loc', 'stream position', 'src/dirent.c SQUASH_DIR.loc')], ['squash_opendir', 'squash_readdir', 'squash_telldir', 'squash_seekdir', 'squash_rewinddir', 'squash_dirfd'])

p('C09', 'Directory scan returns all selected entries, ordered, as caller-owned copies',
  "Scanning a directory returns the number of its entries accepted by the filter (all if none is given) and an array of exactly those entries, sorted by the comparison if one is given and in stored order otherwise, whatever the number of entries, zero included. Every element and the array can be released by the caller exactly once and stay intact until then, and a failed scan returns -1 and leaves nothing open or allocated.",
  ['inputs', 'configurations'], 'all directories from empty to several thousand entries, all filters and comparisons',
  'The tests scan one directory with a handful of entries; neither zero selected entries nor more than the initial array size is reached.',
  ['src/scandir.c', 'src/dirent.c'], [('collect, filter, sort', 'src/scandir.c squash_scandir')], [], ['squash_scandir'])

p('C10', 'Status queries report the stored metadata of the right entry',
  "Querying status by path, by path without following a final link, or by descriptor reports the type, permission bits, link count, size (files: content length, links: target length), device numbers and modification time stored in the image for exactly the entry addressed, for every entry type in its plain and extended form. The descriptor form reports the same as the path form for the path it was opened with. A result fills the caller's structure completely: nothing of what it held before shows through.",
  ['inputs', 'configurations'], 'all entry types and field values, all ways of addressing an entry',
  'The tests compare a few fields of a few regular files, directories and links of one image.',
  ['src/stat.c', 'src/private.c', 'src/fs.c', 'src/nonstd-makedev.c', 'src/nonstd-stat.c'],
  [('inode decode', 'src/fs.c sqfs_inode_get'), ('stat mapping', 'src/private.c sqfs_stat'), ('type to mode', 'src/nonstd-stat.c sqfs_mode')], [], ['squash_stat', 'squash_lstat', 'squash_fstat'])

p('C11', 'Reading a link returns its exact target and never writes past the buffer',
  "Reading a link stores exactly the target (with a configured root alias prefix reduced to the root) in the caller's buffer and returns its length, for targets of any length; if the target with its terminator does not fit, or the entry is not a link or does not exist, the call fails with the matching error. No call writes beyond the given buffer size, including size zero.",
  ['inputs'], 'all link targets and all buffer sizes',
  'The tests read a few short links with large buffers plus one too-small buffer.',
  ['src/readlink.c', 'src/fs.c'], [('size check and copy', 'src/readlink.c squash_readlink_inode')], [], ['squash_readlink'])

p('C12', 'A failed call reports its own cause and leaves no trace',
  "Every failing call returns its documented failure value with an error code describing this failure, independent of what error code was set before and of earlier calls; a missing path is not-found, a bad descriptor is bad-descriptor, a non-link is invalid-argument. A failed call changes no position, stream, descriptor or other observable state, and leaves no descriptor, temporary file or memory behind.",
  ['histories', 'inputs'], 'all failing calls (missing entries, wrong types, bad descriptors, bad arguments) at any point of any history, with any prior error code',
  'The tests mostly check that a call failed; stale error codes and leaked descriptors or memory after failures are not observed.',
  ['src/fd.c', 'src/stat.c', 'src/dirent.c', 'src/readlink.c', 'src/scandir.c', 'src/extract.c', 'src/dir.c'],
  [('failure paths', 'src/fd.c, src/stat.c, src/dirent.c, src/readlink.c')], [], ['errno after every call', 'open system descriptors', 'live allocations'])

p('C13', 'A block that cannot be decoded is an error each time, and only for its users',
  "When a metadata, data or fragment block of the image cannot be decoded, or a data or fragment block does not hold the bytes the file has there, every operation that needs that block fails with an error each time it is attempted, without crashing and without returning any bytes as if they were content. Operations that do not need the block return the same results as on an intact image, before, between and after the failures.",
  ['fault_sequences', 'histories'], 'any one or more undecodable, short or over-long blocks, any sequence of operations over damaged and undamaged parts, repeated attempts, cache evictions in between',
  'The fixed test image is intact.',
  ['src/fs.c', 'src/cache.c', 'src/file.c', 'src/decompress.c'],
  [('cache fill on miss', 'src/fs.c sqfs_md_cache / sqfs_data_cache'), ('block decode failure', 'src/fs.c sqfs_block_read')], [('caches', 'decoded blocks by position', 'src/cache.c')], ['all operations on a damaged image'])

p('C14', 'Running out of memory or descriptors fails one call cleanly',
  "If a memory allocation, or a request for a system descriptor, fails at any point inside a call, that call returns its failure value or its correct result, without crashing, deadlocking or corrupting state. All previously opened descriptors, streams and images keep working, the same call succeeds when repeated with resources available, and nothing is leaked.",
  ['fault_sequences', 'histories'], 'a failure of any single allocation or descriptor request, at every position in every operation',
  'The tests never make an allocation or descriptor request fail.',
  ['src/fd.c', 'src/dirent.c', 'src/scandir.c', 'src/extract.c', 'src/fs.c', 'src/cache.c', 'src/file.c', 'src/traverse.c', 'src/stack.c', 'src/dir.c'],
  [('allocation failure paths', 'all listed files')], [], ['all operations with the n-th allocation failing'])

p('C15', 'Extraction yields a faithful private copy, once per file, until cleared',
  "Extracting a file returns the path of a file in the temporary directory whose content equals the image file's and whose name carries the requested extension; extracting the same path of the same image again returns the same file, and different files or images get different ones, however many are extracted and whatever the caller does with its path string. Clearing removes all extracted files, after which extraction creates fresh ones, and the normal end of the program removes them too; a failed extraction returns nothing and leaves no file, descriptor or memory behind.",
  ['histories', 'inputs'], 'all sequences of extract and clear over many files, images, path spellings and failures',
  'The tests extract one file twice and clear once at exit.',
  ['src/extract.c'], [('extract cache', 'src/extract.c squash_extract_cache_*'), ('temporary name', 'src/extract.c squash_tmpf'), ('copy loop', 'src/extract.c squash_uncached_extract')],
  [('extract cache', '(image, path) to temporary file', 'src/extract.c squash_extract_cache')], ['squash_extract', 'squash_extract_clear_cache', 'temporary directory'])

p('C16', 'Tree traversal visits every entry once, in order, with its full path',
  "Traversing from a directory reports each entry below it exactly once, each directory's content directly after the directory and followed by one end marker for it, with the full relative path and exact name, for trees of any depth, width and path length. Pruning skips exactly the content of the directory just reported, the traversal can be closed at any point without leaks, and after the end (or an error) it keeps reporting the end (or an error).",
  ['inputs', 'configurations', 'histories'], 'all trees, all choices of where to prune and where to stop',
  'The tests traverse one small tree and compare a name count.',
  ['src/traverse.c', 'src/stack.c', 'src/dir.c'], [('state machine', 'src/traverse.c sqfs_traverse_next'), ('path buffer', 'src/traverse.c sqfs_traverse_path_*'), ('level stack', 'src/stack.c')],
  [('state, path, stack', 'traversal position', 'src/traverse.c')], ['sqfs_traverse_open', 'sqfs_traverse_next', 'sqfs_traverse_prune', 'sqfs_traverse_close'])

p('C17', 'Opening accepts exactly supported images; opened images are independent',
  "Opening succeeds for every well-formed image of a supported version and compression at any offset in the caller's memory, and fails with the distinct bad-format, bad-version or bad-compression result otherwise, without crashing. Any number of images can be open at once, operations on one do not affect another, and closing one releases everything it held and leaves the others working.",
  ['inputs', 'histories', 'configurations'], 'all header values, all image offsets, all interleavings of opening, using and closing several images',
  'The tests open one image at offset zero once.',
  ['src/util.c', 'src/fs.c', 'src/table.c', 'src/decompress.c', 'src/cache.c'], [('header checks', 'src/fs.c sqfs_init'), ('teardown', 'src/fs.c sqfs_destroy'), ('decompressor choice', 'src/decompress.c')], [], ['sqfs_open_image', 'sqfs_init', 'sqfs_destroy'])

p('C18', 'Results never depend on what was accessed before',
  "The result of every lookup, read, listing, status and link query depends only on the image and the call's arguments, never on which blocks, files, directories or images were accessed before or how many times. Repeating any call, in any order, after any amount of other activity gives the same result, and an image of any size is served with a bounded amount of cached memory.",
  ['histories'], 'all access histories, in particular those that hit, miss, evict and refill every internal cache, with several images holding different data at equal positions',
  'The tests touch a handful of blocks, far fewer than any cache holds except the data cache, and never compare against a fresh handle.',
  ['src/cache.c', 'src/fs.c', 'src/file.c'], [('lookup and round-robin replacement', 'src/cache.c sqfs_cache_get / sqfs_cache_add'), ('block index reuse', 'src/file.c sqfs_blockidx_blocklist')],
  [('caches', 'decoded blocks by position, block indexes by inode', 'src/cache.c')], ['all read-side operations'])

p('C19', 'The sample redirects image paths to the image and everything else to the OS',
  "With the sample's system-call layer, an absolute or relative path inside the mount point is served from the image and every other path by the operating system, where relative paths are taken from the current directory last set, inside the image or outside. Changing into an image directory succeeds exactly if it exists there, the reported current directory is the one last set and never overruns its buffer, and descriptors of both kinds can be mixed without confusion.",
  ['histories', 'inputs'], 'all sequences of directory changes and file operations with absolute and relative paths on both sides of the mount point',
  'The self check of the sample performs one fixed sequence.',
  ['sample/enclose_io_unix.c', 'sample/enclose_io_common.h', 'sample/enclose_io_memfs.c'], [('path routing', 'sample/enclose_io_common.h ENCLOSE_IO_GEN_EXPANDED_NAME'), ('chdir/getcwd', 'sample/enclose_io_unix.c enclose_io_chdir / enclose_io_getcwd')],
  [('current directory', 'image-side working directory', 'sample/enclose_io_unix.c enclose_io_cwd')], ['enclose_io_* calls'])

p('C20', "The sample's positional and vectored reads keep POSIX semantics",
  "On an image descriptor a positional read returns the bytes at the given offset and leaves the descriptor's position unchanged, also when it fails; a vectored read fills its buffers in order exactly as one contiguous read would, advancing the position by the bytes returned, and stops at end of file. On operating-system descriptors these calls behave as the plain system calls.",
  ['inputs', 'histories'], 'all offsets, buffer splits and prior positions, image and system descriptors',
  'The self check of the sample performs a few such calls on one file.',
  ['sample/enclose_io_unix.c'], [('save, seek, read, restore', 'sample/enclose_io_unix.c enclose_io_pread'), ('buffer loop', 'sample/enclose_io_unix.c enclose_io_readv')], [], ['enclose_io_pread', 'enclose_io_readv', 'enclose_io_lseek'])

p('C21', 'Low-level directory cursors and inode lookups agree with the tree',
  "Resuming a directory listing at an offset taken from any entry continues with exactly the entries after it, in plain and indexed directories of any size, and an offset that is not an entry boundary is rejected. Looking up an inode by number through the export table yields that inode for every number in the image and an error, never a crash, when the table is absent, and owner identifiers are those stored.",
  ['inputs', 'configurations'], 'all directories and offsets, all inode numbers, images with and without export table, identifier tables of any size',
  'The tests do not resume listings at an offset nor use indexed directories, and look up one exported inode.',
  ['src/dir.c', 'src/fs.c', 'src/table.c'], [('offset fast-forward', 'src/dir.c sqfs_dir_ff_offset'), ('export table', 'src/fs.c sqfs_export_inode'), ('id table', 'src/fs.c sqfs_id_get')], [], ['sqfs_dir_open', 'sqfs_dir_next', 'sqfs_export_inode', 'sqfs_id_get'])

p('C22', 'The library\'s hash table and stack behave as a map and as a LIFO',
  "After any sequence of additions, removals and lookups the hash table returns for each key the value added and not yet removed and reports absence otherwise, growing without losing entries. The stack returns elements in last-in-first-out order, runs its release routine exactly once per removed element, and both leave no memory behind when destroyed.",
  ['histories'], 'all operation sequences, keys colliding in any way, any sizes',
  'The tests do not use the hash table or the stack directly.',
  ['src/hash.c', 'src/stack.c'], [('bucket lists and doubling', 'src/hash.c'), ('growth', 'src/stack.c')], [], ['sqfs_hash_*', 'sqfs_stack_*'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
p('C23', 'Directories and files made below the mount point behave like real ones',
  "With the sample's system-call layer a program can make directories and files below the mount point: mkdir or open with O_CREAT succeeds exactly if nothing of that name is there, in the image or made earlier, and its parent is a directory (of the image or made); O_CREAT on something that is there opens it, or fails with EEXIST under O_EXCL and EISDIR on a directory; a failed call makes nothing. What was made is then found with its type, mode, size and content by every spelling of its path, can be entered, listed and written, reads back exactly what was written, and takes precedence over the image's entry it replaces; everything else in the image stays as it was, including the entries beside it in a listing. The working copy is removed when the program ends.",
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of mkdir, open with and without O_CREAT/O_EXCL/O_TRUNC/O_APPEND, write, read, seek, stat, access, chdir and listings below the mount point, and every failing allocation',
  'The self check of the sample makes two directories and looks at nothing else.',
  ['sample/enclose_io_unix.c', 'sample/enclose_io_common.h'], [('making', 'sample/enclose_io_unix.c enclose_io_mkdir_inner / enclose_io_mkdir_consult'), ('O_CREAT', 'sample/enclose_io_unix.c enclose_io_open'), ('what was made goes first', 'sample/enclose_io_common.h ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN')],
  [('working copy', 'temporary directory that holds what was made', 'sample/enclose_io_unix.c mkdir_workdir')], ['enclose_io_mkdir', 'enclose_io_open', 'enclose_io_stat', 'enclose_io_opendir', 'enclose_io_scandir', 'enclose_io_chdir', 'exit'])

with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
