import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})
I='include/z5/'
p('P01','Read-only access never modifies storage',
 'Whatever sequence of public C++ or Python operations is called on a file, group or dataset that was opened without permission to write (or, for creation, without permission to create), no file, directory or remote object is created, changed or removed. Such a call either raises or does nothing. This covers chunk writes and deletes, sharded writes, dataset and group removal, metadata and attribute writes, and the bulk utilities, on every backend.',
 ['programs','inputs','configurations'],'every public entry point, every backend, every path from it to an operation that mutates storage',
 'The tests open a handful of read-only files and call one or two operations; the guarantee is about every path from every entry point to every mutating primitive.',
 [I+'generic/dataset.hxx',I+'generic/sharded_dataset.hxx',I+'filesystem/handle.hxx',I+'s3/handle.hxx',I+'attributes.hxx',I+'factory.hxx',I+'util/functions.hxx',I+'handle.hxx'],
 [('mode test before every write, create and remove',I+'generic/dataset.hxx'),('open mode bit mask',I+'util/file_mode.hxx')],
 [('open mode','which of write, create, truncate the caller was granted',I+'util/file_mode.hxx')])
p('P02','Out-of-bounds or wrongly typed requests are refused before any data moves',
 'Every request to read or write part of a dataset that names the wrong number of dimensions, reaches past the end of the dataset in any dimension (for any offsets and lengths, including ones whose sum overflows), is empty, or uses an element type other than the dataset\'s, raises before any chunk is read or written or any output element is touched. The same holds for requests that address a single chunk by its grid position.',
 ['inputs'],'all offsets, shapes, ranks and element types; all entry points that take them, plain and sharded',
 'Tests try a few bad offsets on small arrays; wrap-around near 2^64 and the check missing on one entry point are outside what they sample.',
 [I+'multiarray/array_access.hxx',I+'multiarray/broadcast.hxx',I+'generic/dataset.hxx',I+'generic/sharded_dataset.hxx',I+'handle.hxx','src/python/lib/dataset.cxx'],
 [('request shape, type and chunk checks',I+'handle.hxx'),('calls to them at the head of every access routine',I+'multiarray/array_access.hxx')])
p('P03','A storage operation that fails is reported, never ignored',
 'When opening, reading, writing, flushing, renaming, listing or deleting a file, directory or remote object fails, the operation that asked for it raises. A failed write is never reported as done, and a failed or partial read is never returned as data or taken to mean that the chunk does not exist.',
 ['fault_sequences','configurations'],'every fault of every storage primitive, on every path through the public API',
 'No test makes the disk full, a directory unwritable or the remote store unavailable; every fault point needs its own injected failure.',
 [I+'filesystem/store.hxx',I+'filesystem/attributes.hxx',I+'filesystem/metadata.hxx',I+'s3/handle.hxx',I+'s3/store.hxx',I+'generic/dataset.hxx',I+'generic/sharded_dataset.hxx'],
 [('stream state tests after open, read, write and close',I+'filesystem/store.hxx'),('outcome tests of remote calls',I+'s3/handle.hxx')])
p('P04','A codec that fails is never taken for one that succeeded',
 'Whenever a compression or decompression library reports an error, or could not finish, the operation raises instead of returning data. Each codec is told exactly how many bytes it may read and never more room than the destination has, whatever the stored bytes are, and what it leaves in the output is exactly what it produced. Everything a codec acquires is released on every way out.',
 ['inputs','fault_sequences','configurations'],'all stored bytes (also truncated or corrupt ones), all element types, all codecs and build configurations',
 'Tests round-trip well-formed data; library failures and truncated input are never produced.',
 [I+'compression/blosc_compressor.hxx',I+'compression/bzip2_compressor.hxx',I+'compression/lz4_compressor.hxx',I+'compression/xz_compressor.hxx',I+'compression/zlib_compressor.hxx',I+'compression/zstd_compressor.hxx'],
 [('result test after each library call',I+'compression/')])
p('P05','Stored bytes are validated before they are trusted',
 'Sizes, offsets and counts read out of stored chunk headers and shard indexes are checked against the bytes actually present and against the buffer they are used on before anything is read, decoded or copied with them. Corrupt or truncated stored data makes the read raise; it never causes an access outside a buffer, and a shard index whose checksum does not match is never used.',
 ['inputs'],'all byte strings a stored chunk or shard can consist of',
 'Tests only read back what the library itself wrote, plus a few hand-made corruptions.',
 [I+'util/format_data.hxx',I+'util/sharding.hxx',I+'generic/dataset.hxx',I+'generic/sharded_dataset.hxx',I+'multiarray/array_access.hxx'],
 [('header length test, shard range and checksum tests',I+'util/')])
p('P06','Unusable array metadata is rejected when the dataset is opened or created',
 'Metadata that lacks a required field, names a data type, codec, format version, memory order, filter, chunk grid or codec pipeline that is not implemented, or whose shape, chunk shape and shard shape do not fit together (different rank, zero extent, chunk not dividing shard), makes opening or creating the dataset raise. No dataset object ever exists whose fields were left at defaults because the stored metadata was not understood.',
 ['inputs'],'all metadata documents of all three formats',
 'Tests open a few malformed files; the space is all JSON documents and all missing or unsupported fields.',
 [I+'metadata.hxx',I+'filesystem/metadata.hxx',I+'s3/metadata.hxx',I+'types/types.hxx',I+'util/sharding.hxx'],
 [('parsing routines of the array metadata',I+'metadata.hxx'),('codec option tables',I+'types/types.hxx')])
p('P07','What the metadata writer emits is what the metadata reader understands',
 'For each of the three formats, every field, data type name, codec name and codec option that is written into array metadata is read back under the same name and with the same meaning, and nothing the reader requires is missing from what the writer emits. The name tables of data types and codecs are one-to-one in both directions.',
 ['inputs','configurations'],'all formats, data types, codecs and options',
 'Round-trip tests cover a sample of format x type x codec x option; the property is agreement of the tables as a whole.',
 [I+'metadata.hxx',I+'types/types.hxx'],
 [('reader and writer of each metadata format',I+'metadata.hxx'),('name tables',I+'types/types.hxx')])
p('P08','Creation settings passed in Python take effect or are refused',
 'Every compression option that the Python interface accepts when a dataset is created is either the setting the native codec actually uses, under the meaning documented for it, or creation raises. None is silently dropped or replaced by a default, also not values such as 0 or False. The same holds for the fill value, shape, chunk and shard shape, format, chunk key encoding and separator, whichever function creates the dataset and however deep its path.',
 ['inputs','configurations'],'all codecs, formats and option names of the Python interface',
 'Tests create datasets with some options but never compare the effective codec settings for every option name.',
 ['src/python/module/z5py/dataset.py','src/python/lib/factory.cxx',I+'types/types.hxx',I+'compression/'],
 [('option translation in the Python layer','src/python/module/z5py/dataset.py'),('option lookup in the native layer',I+'types/types.hxx')])
p('P09','Every operation addresses a chunk under one and the same key',
 'For a given dataset and chunk grid position, reading, writing, testing for existence and removing a chunk, whole-dataset utilities and every backend all use the same storage key, and that key is the one the format prescribes (separator, prefix, axis order, shard instead of chunk where data is sharded). Distinct positions never share a key.',
 ['inputs','configurations'],'all grid positions, ranks, formats, separators and backends',
 'Tests compare a few keys on the file system only; agreement is needed for every consumer and backend.',
 [I+'handle.hxx',I+'filesystem/handle.hxx',I+'filesystem/store.hxx',I+'s3/handle.hxx',I+'s3/store.hxx',I+'generic/dataset.hxx',I+'generic/sharded_dataset.hxx'],
 [('single key derivation routine',I+'handle.hxx')])
p('P10','N5 axis order is reversed exactly once in each direction',
 'For N5 data every shape, chunk shape and chunk position that is stored (metadata, chunk header, chunk path) is the reverse of the in-memory order, and every one that is read back is reversed again, so that writing and reading are inverse to each other. Zarr data is never reversed.',
 ['inputs','configurations'],'all ranks and shapes; all places where a per-axis quantity is stored or loaded, in both formats',
 'Cubic or one-dimensional test arrays cannot tell a missing reversal; each place must be covered in each format and direction.',
 [I+'metadata.hxx',I+'handle.hxx',I+'util/format_data.hxx','src/python/module/z5py/'],
 [('reversal on load and store',I+'metadata.hxx'),('reversal in header and key',I+'util/format_data.hxx')])
p('P11','Stored byte order is honoured on read and on write',
 'Multi-byte values of N5 data and N5 chunk headers are converted between big-endian storage and native order exactly once on every path that writes and exactly once on every path that reads; Zarr data is never converted. Single-byte types are left alone, and stored byte orders that are not supported are rejected when the dataset is opened.',
 ['inputs','configurations'],'all element types, codecs, headers and read or write paths (whole chunk, partial chunk, raw chunk, sharded)',
 'Files that the library both writes and reads hide a conversion that is missing in both directions or doubled on one path.',
 [I+'util/format_data.hxx',I+'multiarray/array_access.hxx',I+'generic/dataset.hxx',I+'generic/sharded_dataset.hxx',I+'metadata.hxx'],
 [('conversion calls around encode and decode',I+'util/format_data.hxx')])
p('P12','Parallel work shares no unprotected mutable state',
 'In every operation that spreads its work over several threads, any two tasks that run at the same time touch disjoint memory or synchronise: per-thread buffers are selected by the worker\'s own index, shared results are written under a lock or are atomic, and one dataset object may be used for reading by several threads. No schedule produces a data race in the library or in its thread pool.',
 ['schedules'],'all interleavings of all tasks handed to the thread pool, all thread counts',
 'Tests run a few parallel operations once; a race needs a particular interleaving and may never show up.',
 [I+'util/threadpool.hxx',I+'multiarray/array_access.hxx',I+'multiarray/broadcast.hxx',I+'util/functions.hxx',I+'util/for_each.hxx',I+'generic/sharded_dataset.hxx'],
 [('per-thread buffers, mutexes',I+'multiarray/array_access.hxx')],
 [('task queue, worker stop flag','shared between producer and workers',I+'util/threadpool.hxx')])
p('P13','An error in a worker thread reaches the caller, after all work has ended',
 'If a task of a parallel operation raises, the operation raises in the calling thread, for every number of threads, and only after every task that was started has finished. No started task outlives the operation, is lost, or runs more than once, and every element of the index range is handled exactly once.',
 ['schedules','fault_sequences'],'all thread counts, range lengths, and sets of tasks that raise',
 'Tests throw from one task in one or two configurations; the number of threads, which tasks fail and when is unbounded.',
 [I+'util/threadpool.hxx',I+'util/functions.hxx',I+'util/for_each.hxx',I+'multiarray/array_access.hxx'],
 [('collection of all results before the first error is raised',I+'util/threadpool.hxx')])
p('P14','User attributes and array metadata never damage each other',
 'Writing or deleting user attributes leaves every other attribute and all array or group metadata stored in the same place unchanged, and array metadata writes keep existing attributes where the format stores both together. The reserved fields of N5 (the version of a file, the description of a dataset) and all fields of Zarr metadata documents cannot be set or removed through the attribute interface; those describing an N5 dataset or a Zarr v3 node are not listed as attributes.',
 ['histories','inputs'],'all attribute names and values, all histories of attribute and metadata writes, all formats and backends',
 'Tests set a few attributes on fresh files; the property concerns all names and all histories.',
 [I+'attributes.hxx',I+'generic/attributes.hxx',I+'generic/metadata.hxx',I+'filesystem/attributes.hxx',I+'s3/attributes.hxx','src/python/module/z5py/attribute_manager.py'],
 [('read-merge-write of the stored document',I+'generic/attributes.hxx'),('list of protected fields',I+'attributes.hxx')])
p('P15','Each data type and codec is served by its own implementation',
 'Each data type that metadata can name is handled with exactly the element type of that name, everywhere a choice by data type is made (opening, creating, reading, writing, bulk utilities, Python), and each codec name by its own codec. A value without an implementation raises; it never falls through to another type or returns nothing.',
 ['inputs','configurations'],'all data types and codecs times all places that choose by them',
 'Tests sample the types; one wrong entry in one of many dispatch tables stays unseen.',
 [I+'factory.hxx',I+'filesystem/factory.hxx',I+'s3/factory.hxx',I+'generic/dataset.hxx',I+'types/types.hxx',I+'util/functions.hxx','src/python/lib/'],
 [('switches over data type and codec',I+'filesystem/factory.hxx')])
p('P16','A partial write leaves everything outside the written region as it was',
 'When a write covers only part of a chunk or only some chunks of a shard, the elements and chunks it does not cover keep the value they had before: the stored one, or the fill value if nothing was stored. This holds for plain and sharded data, edge chunks, arrays and scalars.',
 ['inputs','histories'],'all regions relative to the chunk and shard grid, all previous contents',
 'Tests write a few overlapping regions; every path from a partial region to the store has to merge with what is there.',
 [I+'multiarray/array_access.hxx',I+'multiarray/broadcast.hxx',I+'generic/sharded_dataset.hxx'],
 [('read-modify-write of partially covered chunks and shards',I+'multiarray/array_access.hxx')])
p('P17','Python indexing selects what NumPy would select or raises',
 'For every index expression accepted by the Python dataset, the region handed to the native layer lies inside the dataset and is the one NumPy\'s rules select (negative positions, ellipsis, open and out-of-range slice ends, integer axes dropped from the result; a slice that starts before the first element selects nothing, as z5py\'s own tests require); everything not supported raises before any data is read or written.',
 ['inputs'],'all index expressions and shapes',
 'Tests try a list of index expressions; boundary positions such as the first element counted from the end are easily missed.',
 ['src/python/module/z5py/shape_utils.py','src/python/module/z5py/dataset.py'],
 [('index normalisation','src/python/module/z5py/shape_utils.py')])
p('P18','Sizes, offsets and chunk positions are never truncated',
 'Array shapes, offsets, element counts, byte counts and chunk or shard positions keep their full 64-bit value in every computation; none is ever squeezed into a narrower or signed type without a check that it fits. Datasets with more than 2^31 elements or positions per axis and buffers beyond 4 GiB behave like small ones or the operation raises.',
 ['inputs'],'all sizes and positions up to 2^64-1',
 'No test allocates arrays or uses positions beyond 2^31.',
 [I+'util/blocking.hxx',I+'handle.hxx',I+'multiarray/array_access.hxx',I+'compression/',I+'util/format_data.hxx',I+'util/sharding.hxx'],
 [('size type used throughout',I+'types/types.hxx')])
p('P19','Existing data is only discarded when the mode asks for it',
 'Opening or creating a file, group or dataset removes or overwrites what already exists there only in the mode documented to do so; in every other mode existing data and metadata survive, and the exclusive mode raises if anything exists. The read-only modes raise if nothing is there, rather than create it.',
 ['inputs','histories'],'all modes, existing states, backends and entry points',
 'Tests try some modes on some states; every mode times every creating entry point times every previous state is needed.',
 [I+'util/file_mode.hxx',I+'filesystem/handle.hxx',I+'s3/handle.hxx',I+'factory.hxx','src/python/module/z5py/group.py','src/python/module/z5py/file.py'],
 [('open mode bits',I+'util/file_mode.hxx'),('creation routines',I+'factory.hxx')])
p('P20','No Python object is touched while the interpreter lock is released',
 'Native code that runs with the interpreter lock released never creates, reads, converts, copies or destroys a Python object and never calls the Python API, on any path including errors. Every long-running native operation exposed to Python releases the lock.',
 ['schedules','programs'],'all bound functions and all thread interleavings',
 'A violation corrupts memory only if another Python thread happens to run at that moment.',
 ['src/python/lib/'],
 [('scoped release of the lock in bound functions','src/python/lib/dataset.cxx')])
p('P21','A missing chunk reads as fill value and never as leftover data',
 'Reading a region that touches chunks (or chunks of a shard) that were never written or were removed yields the dataset\'s fill value for exactly those elements, whatever was in the output before and whatever was read before on the same thread; asking for one missing chunk as such raises or yields nothing. A chunk written with only fill values that is not stored replaces what was stored before.',
 ['inputs','histories'],'all histories of writes, removals and reads; all fill values and thread assignments',
 'Tests read a few missing chunks into fresh arrays, where stale data cannot be seen.',
 [I+'multiarray/array_access.hxx',I+'generic/dataset.hxx',I+'generic/sharded_dataset.hxx'],
 [('existence test before reading',I+'multiarray/array_access.hxx'),('fill of output views',I+'multiarray/array_access.hxx')])
p('P22','Nothing is computed from a value that was never set',
 'No native operation ever reads a variable, object field, output argument or captured variable that was not given a value first. On every path, including old or unusual formats, absent optional metadata, chunks with and without header and error returns, the sizes, flags, types, fill values and codec settings used later were set before, so that the same call on the same storage always behaves the same.',
 ['inputs','histories'],'all paths of all functions of the C++ library and the Python extension',
 'An unset value often happens to be zero or what it was before; whether a test sees it depends on the stack and the optimiser.',
 [I+'metadata.hxx',I+'generic/dataset.hxx',I+'util/format_data.hxx',I+'filesystem/store.hxx',I+'multiarray/array_access.hxx','src/python/lib/dataset.cxx'],
 [('output arguments of header and metadata readers',I+'util/format_data.hxx'),('fields the metadata readers fill in',I+'metadata.hxx')])
p('P23','A path names the same object in every operation, inside its container',
 'In the Python interface, a path given to a group, with or without leading, doubled or trailing slashes, stands for one object below that group: no operation ever creates, opens, removes or looks up anything outside it. Whatever is created at a nested path has only groups of the container\'s format above it, so it can be reached and listed from the root; a path through a dataset is refused. The object returned is the one named, its format and chunk separator are those of its container, and requiring what was created with the same arguments returns it.',
 ['inputs','histories','configurations'],'all spellings of a path, formats, places of the group and states of the container',
 'Tests use plain relative names one or two levels deep; the spelling of the path times operation times state is never covered, and an escape writes outside the test directory.',
 ['src/python/module/z5py/group.py','src/python/module/z5py/dataset.py','src/python/module/z5py/file.py'],
 [('operations that take a path','src/python/module/z5py/group.py'),('creation and opening of datasets','src/python/module/z5py/dataset.py')])
p('P30','What is written is what is read back',
 'For every array, format, codec, chunking and sharding, reading a region returns exactly the values most recently written to it.',
 ['inputs','histories','configurations'],'all array contents and histories',
 'Tests sample it; it is the headline guarantee of the library.',
 [I+'multiarray/',I+'compression/'],[('the whole read and write path',I)])
p('P31','An interrupted write leaves the previous or the new chunk',
 'If the process stops during a chunk, shard or metadata write, the stored object afterwards is either the complete old or the complete new one.',
 ['crash_points'],'all points at which a process can stop','No test stops a process in the middle of a write.',
 [I+'filesystem/store.hxx',I+'filesystem/attributes.hxx'],[('direct overwrite of files; no atomic replacement is claimed or attempted',I+'filesystem/store.hxx')])
p('P32','Stored data is readable by other implementations',
 'Every chunk, shard and metadata file is bit-compatible with the N5, Zarr v2 and Zarr v3 reference implementations.',
 ['inputs','configurations'],'all data, codecs and formats','Only a sample is compared with other implementations.',
 [I+'util/format_data.hxx',I+'compression/',I+'metadata.hxx'],[('format writers',I+'metadata.hxx')])
p('P33','Concurrent writers to one chunk do not lose updates',
 'Two processes or threads that write disjoint parts of the same chunk or shard at the same time do not undo each other\'s writes.',
 ['schedules'],'all interleavings of writers','The interleaving is never provoked.',
 [I+'multiarray/array_access.hxx'],[('none for plain chunks: documented to be the caller\'s responsibility','README.md')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
for x in P:
    assert len(x['title'])<=80,x['title']
print(len(P))
