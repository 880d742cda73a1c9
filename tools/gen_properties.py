#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=None)))
B='src/eventio/base.py'; H='src/eventio/header.pyx'; V='src/eventio/var_int.pyx'; T='src/eventio/tools.py'
IO='src/eventio/iact/objects.py'; II='src/eventio/iact/__init__.py'
SO='src/eventio/simtel/objects.py'; SF='src/eventio/simtel/simtelfile.py'; SI='src/eventio/simtel/__init__.py'
FT='src/eventio/file_types.py'; SU='src/eventio/search_utils.py'; SC='src/eventio/scripts/'
PA='src/eventio/simtel/parsing.pyx'; HI='src/eventio/histograms.py'; VH='src/eventio/version_handling.py'

prop('C01','Object headers decode exactly, for every bit pattern',
 "Every object header, at top level or nested, is decoded to exactly the type, version, signed 32-bit id, user/extended/sub-object flags, payload size (up to 42 bits with the extension word) and payload address that its bytes encode. No bit of one field and no reserved bit influences another field, and the object that follows is found right after the payload. A known type is delivered as its own class, every other type as a generic object.",
 ['inputs'],'all 65536 type values, all 4096 versions, all single and paired bits of every header word and of the extension word, top level and nested',
 'tests decode the headers of a handful of files, which use few ids, no user bit, no extension word and no payload above 1 GiB',
 [H,B,'src/eventio/constants.py'],[('parse_header_bytes','src/eventio/header.pyx'),('read_header / parse_extension_field','src/eventio/base.py'),('KNOWN_OBJECTS dispatch','src/eventio/base.py')],
 observe=['EventIOFile iteration: obj.header.*, obj.address, obj.size'])
prop('C02','Top-level iteration delivers every object once, in order',
 "Iterating a file delivers every top-level object exactly once, in file order, with the header and payload stored in the file. What the user does with the file or with already delivered objects between two steps (reading, seeking, parsing, walking into sub-objects, asking for positions, peeking) never changes which object comes next or what it contains.",
 ['histories'],'all sequences of user operations between the steps of the iteration up to a depth, on files of leaf, container, empty, extended and unknown objects, for every way of opening the file',
 'tests iterate with one fixed access pattern; a cursor bug shows only after a particular sequence of operations',
 [B],[('EventIOFile._read_next_object absolute seek to the stored next-header position',B)],
 [('_next_header_pos','file offset of the next unread top-level header',B)],['EventIOFile.__next__'])
prop('C03','Nested objects are walked exactly, in any interleaving',
 "Iterating a container delivers exactly its direct sub-objects, once, in order, with right headers, addresses and payloads, at every nesting depth and never anything beyond the container's end. Any number of containers of a seekable file can be walked at the same time, in any interleaving of their steps and of reads on other objects, without influencing each other. Iterating an object that is not a container raises ValueError.",
 ['histories','inputs'],'all ordered trees of containers and leaves up to a size, and all interleavings of the steps of all open containers with reads of delivered objects',
 'tests walk real files depth-first only, one container at a time',
 [B],[('EventIOObject.__next__ seeks to its own next child',B)],[('_next_header_pos','offset of next child inside the container',B)],['EventIOObject.__next__'])
prop('C04','An object is an exact window onto its payload',
 "For every sequence of read, seek and tell calls on an object of a seekable file, the bytes returned are exactly the payload bytes at the object's own position, never bytes from outside the payload, and the position advances by what was returned. Reading past the end returns the bytes that remain (possibly none), an unknown seek mode is refused. Using other objects of the same file, or the file itself, in between changes neither the position nor the data.",
 ['histories'],'all sequences of read/seek/tell with boundary arguments up to a depth on one object and interleaved with operations on neighbouring and nested objects',
 'the two tests of this interface make three calls in total, and never leave the payload or interleave objects',
 [B],[('EventIOObject.read / seek / tell',B)],[('_pos','position inside the payload',B)],['EventIOObject.read','EventIOObject.tell'])
prop('C05','Peeking never changes what is delivered',
 "However often and whenever the user peeks, the sequence of objects (or the final end of iteration or error) that stepping delivers is the same as without peeking. A peek returns the very object that the next step delivers, repeated peeks return the same object, and at the end of the file or of a truncated file a peek returns None (with a warning if the file is truncated).",
 ['histories','crash_points'],'all sequences of peek and next up to past the end of the file, for complete files and for files cut at every byte, for every way of opening the file',
 'tests peek in two fixed patterns; the truncated test files are not even present',
 [B],[('EventIOFile.peek buffer and stored error',B)],[('next / peek_error','peeked object or error',B)],['EventIOFile.peek','EventIOFile.__next__'])
prop('C06','Compression is transparent',
 "A file gives the same objects, payloads, parsed contents and events whether it is stored uncompressed, gzip or zstd compressed, in one or several gzip members or zstd frames, and whether gzip data is read through the external program or the built-in module. This holds however the decompressor happens to split its output into pieces, for payloads of any size, and if the external program is missing. On streams that cannot go back, an access that would need earlier bytes raises an error instead of returning other data.",
 ['schedules','configurations','inputs'],'all storage variants x payload sizes around the buffer limits x all forward access patterns; every split point of the delivery of the decompressed data through the pipe',
 'tests open a few compressed files; they cannot control how data arrives through the pipe and use no multi-frame files',
 [B,FT],[('PipeWrapper','src/eventio/base.py'),('EventIOFile.__init__ choice of reader',B)],[('PipeWrapper.pos','bytes consumed from the pipe',B)],['EventIOFile','SimTelFile','IACTFile'])
prop('C07','A truncated file yields a correct prefix of its objects',
 "For a file cut at any byte, iteration (top level and nested) delivers a prefix of the uncut file's objects with unchanged headers, containing at least every object that lies completely in the remaining bytes, and then ends: with EOFError if the cut leaves only a part of the marker or header of the next object or if objects of a container are missing, normally otherwise (if compressed bytes were cut, possibly with the decompressor's error instead). Objects that lie completely in the remaining bytes parse to the same contents as before. Reading all of, or parsing, an object whose needed payload bytes were cut off raises EOFError and never returns shortened or invented data.",
 ['crash_points'],'every cut position of files that contain every kind of object, for every way of opening the file',
 'the truncated files the tests name are missing, and would be two cut positions out of all of them',
 [B,SO,IO],[('check_size_or_raise, EOFError on short reads',B),('read_remaining_with_check',SO)],None,['EventIOFile iteration','obj.parse()','obj.read()'])
prop('C08','Event readers lose and alter no complete event of a truncated file',
 "For a sim_telarray file cut at any byte after its telescope descriptions, the event reader delivers, in order and unchanged, every event whose data lie completely in the remaining bytes, at most followed by one incomplete event, and then stops normally (it warns if it met incomplete data). For a CORSIKA file cut anywhere after its telescope definition, every event up to the last complete event-end block is delivered unchanged, followed by EOFError. Opening a file cut before that point, but after its first four bytes, raises EOFError.",
 ['crash_points'],'every cut position of files with data events, calibration events of both kinds, reuses and split telescopes',
 'the tests count events of at most one truncated file, which is missing here',
 [SF,II],[('SimTelFile._read_next_event end handling',SF),('IACTFile.__iter__',II)],[('current_event','event under construction',SF)],['SimTelFile.__next__','IACTFile.__iter__'])
prop('C09','Only eventio files are opened, and big-endian data is never misread',
 "Opening succeeds exactly if the (decompressed) content starts with one of the two sync markers; everything else, including empty and shorter files, is refused with ValueError or an I/O error. Big-endian content raises NotImplementedError when the first object is requested. A damaged sync marker before any later object raises ValueError there, after all earlier objects were delivered.",
 ['inputs','fault_sequences'],'all prefixes and all single-byte changes of the marker, of the gzip and zstd signatures, at the file start and before each object, in every storage variant',
 'tests check two positive and two negative examples',
 [FT,B],[('is_eventio',FT),('check_sync_bytes',B)],None,['EventIOFile()','file_types.is_eventio'])
prop('C10','Closing releases every resource, in every history',
 "After close() (explicit, by leaving a with block, repeated, or by dropping the last reference, also when a constructor failed), no file descriptor and no decompressor process opened by the reader remains, at whatever point of the iteration this happens. Closing never raises.",
 ['histories','configurations'],'all sequences of open, step, peek, parse, close, drop up to a depth, for all readers and storage variants and failing constructors',
 'tests never look at descriptors or child processes',
 [B,SF],[('weakref.finalize with _cleanup',B)],None,['/proc/self/fd, child processes'])
prop('C11','Variable-length integers decode exactly',
 "Every encoding of the 1 to 9 byte variable-length integer format, also non-minimal ones, decodes to the value and length the format defines, signed and unsigned, over the full 64-bit range. Single-value, array and stream decoders agree with each other and consume exactly the encoded bytes from the given offset. Data that ends inside a number raises an error instead of giving a value.",
 ['inputs'],'all one and two byte encodings, all three byte encodings, all single/paired bit patterns of longer ones; all sequences of encodings up to a length, at every offset',
 'one test with seven values, unsigned stream decoder only',
 [V,T],[('parse_varint, varint_array, unsigned_varint_array',V),('read_varint, read_unsigned_varint',T)],None,['eventio.var_int','eventio.tools'])
prop('C12','Differentially coded arrays decode exactly',
 "A block of arrays stored as variable-length signed differences decodes to exactly the unsigned 32-bit arrays that were encoded, each array starting from zero, in order, from the given offset, with the number of consumed bytes reported. Data that ends early raises an error.",
 ['inputs'],'all sequences of differences over every encoding length and sign up to a length, all small shapes, all wrap-around boundary values',
 'no test targets the decoder; real files exercise one and two byte differences',
 [V],[('unsigned_varint_arrays_differential',V)],None,['eventio.var_int.unsigned_varint_arrays_differential'])
prop('C13','Primitive readers decode exactly and consume exactly their bytes',
 "Each primitive reader (integers, floats, arrays, strings, times, format strings) returns the little-endian value stored at the current position of any file-like source and advances the source by exactly the stored size. Any sequence of such reads therefore recovers any sequence of stored values.",
 ['inputs','histories'],'all sequences of primitives up to a depth with boundary values for each',
 'one test reads five fixed values',
 [T],[('read_* functions',T)],None,['eventio.tools'])
prop('C14','Parsing is repeatable and independent of history',
 "Parsing an object of a seekable file gives the same result every time, whatever was read, sought, parsed or iterated in the file before, in whatever order objects are parsed, and also after the iteration has ended. Results that were already returned never change afterwards.",
 ['histories'],'every object kind, all sequences of parse/read/seek/iterate operations over several objects up to a depth; all objects of the resource files in several orders',
 'tests parse each object once, right after it was delivered',
 [B,SO,IO,HI],[('seek(0) at the start of parse',SO)],None,['obj.parse()'])
prop('C15','Unsupported versions and kinds are refused, never misread',
 "Parsing a version-checked block whose version the reader does not support raises NotImplementedError, and no supported version is refused. Parsing an object kind without an implementation raises NotImplementedError, and parsing a container raises ValueError.",
 ['inputs'],'all 4096 version numbers for every version-checked object type; all known types without parser; containers of every type',
 'tests check the helper functions on a few numbers, never the parsers',
 [VH,SO,IO,HI,PA],[('assert_exact_version, assert_max_version, assert_version_in',VH)],None,['obj.parse()'])
prop('C16','CORSIKA run, event and array blocks parse to what was stored',
 "Run header, event header, event end, run end, telescope definition, array offsets, longitudinal, input card and atmospheric profile blocks parse to exactly the stored values, for every supported version, count and optional part. A sub-block with a wrong length word is refused.",
 ['inputs'],'all versions, optional parts and counts within bounds, with up to k fields at boundary values',
 'tests look at a few values of one or two files',
 [IO],[('parse methods',IO)],None,['obj.parse()'])
prop('C17','Photon bunches parse to what was stored, whole or in chunks',
 "Photon bunch blocks parse to exactly the stored bunches, in order: long format unchanged, compact format with its documented scaling and clipping, emitter records separated from photons, observation-level particles as particles. For every chunk size the chunks joined together give the same as parsing at once, no chunk exceeds the size, and this also holds if other objects, or the block itself, are read between chunks.",
 ['inputs','histories'],'all numbers of bunches x chunk sizes up to a bound, all patterns of emitter/photon records, both formats and boundary values; reads interleaved between chunks',
 'tests use one file and two chunk sizes',
 [IO],[('Photons.parse, parse_chunked, parse_compact, parse_emitter',IO)],None,['Photons.parse'])
prop('C18','Photo-electron lists parse to what was stored',
 "Photo-electron blocks parse to exactly the stored per-pixel counts, pixel ids, times, optional amplitudes and optional photon counts, for every supported version and flag combination and every distribution of photo-electrons over pixels.",
 ['inputs'],'all versions and flags, all distributions over a few pixels up to a bound, boundary pixel ids',
 'tests look at sums of one version',
 [V,IO],[('parse_1208',V)],None,['PhotoElectrons.parse'])
prop('C19','Telescope and run configuration blocks parse to what was stored',
 "Run header, Monte-Carlo run header, camera settings, camera organization, pixel settings, disabled pixels, software settings, pointing correction and drive settings parse to exactly the stored values under the documented field names, for every supported version, every optional part and all counts.",
 ['inputs'],'all versions and optional parts, counts within bounds, up to k fields at boundary values; plus every such block of the resource files',
 'most of these tests cannot run here and look at one version each',
 [SO,PA,'src/eventio/simtel/pixelset.py','src/eventio/simtel/runheader_dtypes.py'],[('parse methods',SO),('cached dtype builders','src/eventio/simtel/pixelset.py')],None,['obj.parse()'])
prop('C20','Trigger, telescope-event and image blocks parse to what was stored',
 "Trigger information, telescope event headers, tracking positions, image parameters, stereo reconstruction, pixel lists, pixel trigger times and auxiliary traces parse to exactly the stored values, for every supported version, every flag combination and all counts. Shifted trigger-type bits of old files are moved to their right place.",
 ['inputs'],'all versions and all flag combinations, counts within bounds, up to k fields at boundary values; plus every such block of the resource files',
 'tests see few flag combinations of few versions',
 [SO],[('parse methods',SO)],None,['obj.parse()'])
prop('C21','ADC sums and samples parse to what was stored',
 "ADC sums and samples parse to exactly the stored values for every gain, pixel and sample, in plain and in every supported zero-suppressed form; pixels that were not stored are zero. Unsupported data-reduction modes are refused.",
 ['inputs'],'all supported modes, all suppression patterns over a few pixels, sizes around the group and encoding limits, boundary values',
 'the zero-suppression tests need files that are not public; others cannot run here',
 [SO,V],[('ADCSums.parse, ADCSamples.parse',SO)],None,['obj.parse()'])
prop('C22','Pixel timing blocks parse to what was stored',
 "Pixel timing blocks parse to exactly the stored times and pulse sums for each listed pixel, for both list kinds, both versions, with or without sums and with global sums for all or selected pixels; times of unlisted pixels are NaN and their sums zero.",
 ['inputs'],'both list kinds and versions, all lists over a few pixels up to a length, all flag combinations, boundary values',
 'one test on one version runs here',
 [SO,V],[('PixelTiming.parse',SO),('simtel_pixel_timing_parse_list_type_1/2',V)],None,['PixelTiming.parse'])
prop('C23','Monitoring and calibration blocks parse to what was stored',
 "Camera monitoring, laser calibration and pixel monitoring blocks parse to exactly the stored values for every combination of present parts, every supported version and all dimensions; parts that are not present give no fields.",
 ['inputs'],'all combinations of present parts, versions and dimensions within bounds, up to k fields at boundary values; plus every such block of the resource files',
 'real files contain two or three of the part combinations',
 [SO],[('CameraMonitoring, LaserCalibration, PixelMonitoring parse',SO)],None,['obj.parse()'])
prop('C24','Simulated-shower blocks parse to what was stored',
 "Shower, shower extra-parameter, event and photo-electron-sum blocks of the simulation parse to exactly the stored values for every supported version and all counts of profiles, steps, parameters and telescopes.",
 ['inputs'],'all versions, counts within bounds, up to k fields at boundary values; plus every such block of the resource files',
 'the files the tests need are missing, and no file has the newest version',
 [SO,PA],[('MCShower, MCExtraParams, MCEvent, MCPhotoelectronSum parse',SO)],None,['obj.parse()'])
prop('C25','History, metadata and histogram blocks parse to what was stored',
 "History entries, metadata maps and histograms (all storage kinds, one and two dimensional, filled or empty) parse to exactly the stored texts, keys and numbers, in order.",
 ['inputs'],'all histogram kinds, dimensions and fill states within bounds, all small sets of entries and keys, boundary lengths of texts',
 'the histogram file is missing; no test has integer histograms',
 [HI,SO],[('Histograms.parse',HI),('HistoryMeta.parse',SO)],None,['obj.parse()'])
prop('C26','CORSIKA events are assembled exactly',
 "Iterating a CORSIKA file gives one event per shower and reuse, in order, each with its own header, event end, offsets, weight, longitudinal data, particles and, per telescope, exactly its photon bunches, for ordinary and split telescope storage. Iterating again from the start gives the same events on seekable files, whatever was read before. A block in a wrong place raises an error.",
 ['inputs','histories'],'all small file structures: events x reuses x telescopes x optional blocks x both storage forms; all restart/peek histories up to a depth',
 'tests look at four files and mostly count events',
 [II],[('IACTFile.__iter__',II)],None,['IACTFile'])
prop('C27','sim_telarray events are assembled exactly',
 "For every documented order of blocks, also with calibration blocks between the events of showers, the event reader gives exactly the events of the file, in order, each with its own shower, event, trigger, telescope, tracking, photo-electron and particle data and none of another event's or shower's; a shower's data belong to all its reuses. Calibration events are marked as such, carry their kind and photo-electrons and have negative ids when stored as calibration blocks. The last event is delivered with or without a final histogram block. An event that lacks the tracking position of one of its telescopes is refused, never delivered.",
 ['inputs','histories'],'all sequences of top-level blocks allowed by the documented structure up to a depth, two telescopes with all participation patterns',
 'tests see the block orders of about ten files',
 [SF],[('SimTelFile._parse_next_object state machine',SF)],[('current_event, current_mc_shower, current_obslev_particles, _current_calib_pe','assembly state',SF)],['SimTelFile iteration'])
prop('C28','Event and telescope selection is exact filtering',
 "Restricting the telescopes, skipping non-triggered events and skipping calibration events give exactly the events of the unrestricted reader with non-allowed telescopes' data removed and the skipped kinds of events left out, nothing else changed. Events without any allowed telescope count as non-triggered and need not carry tracking or reconstruction data.",
 ['configurations','inputs'],'all option combinations x all subsets of telescopes x all small event sequences',
 'one test with one subset, whose file is missing',
 [SF],[('parse_array_event, _check_skip',SF)],None,['SimTelFile(allowed_telescopes, skip_non_triggered, skip_calibration)'])
prop('C29','Run information and monitoring reach the right event unchanged',
 "Each event carries, for exactly its telescopes, the camera monitoring, laser calibration and pixel monitoring data that was last stored before it in the file, and an event that was delivered never changes when the iteration goes on. Run headers, history, metadata, input cards, profiles and telescope descriptions are available right after opening, complete and under the right telescope.",
 ['histories','inputs'],'all sequences of monitoring updates and events over two telescopes up to a depth, all orders of description blocks within bounds',
 'tests look at the first event of a file',
 [SF],[('_add_monitoring copies',SF)],[('camera_monitorings, laser_calibrations, pixel_monitorings','last known state per telescope',SF)],['SimTelFile attributes and events'])
prop('C30','Telescope ids are recovered exactly',
 "For every telescope id that the format can express, the id encoded in an object's type number or id field is recovered exactly by every object kind that carries one, object type numbers of telescope events and tracking data map one to one to the ids 0 to 999, and tracking data whose two id encodings disagree is refused. Run, event and array numbers and kinds that objects take from their id are exact as well.",
 ['inputs'],'all ids 0..999 for type-coded objects, all 14-bit/16-bit/24-bit id fields on their bit boundaries for id-coded ones',
 'tests check ten ids of one class',
 [SO,SI,IO],[('telid_to_type, type_to_telid, id_to_telid',SO),('KNOWN_OBJECTS registration',SI)],None,['obj.telescope_id'])
prop('C31','Cutting a file keeps exactly the leading complete objects',
 "The cut tool writes exactly the bytes of the longest run of leading complete top-level objects whose total uncompressed size does not exceed the limit, from any storage variant, compressed if the output name asks for it, and reports their size and the type of the last object. Size suffixes k, M and G mean 1024, 1024^2 and 1024^3, and other size texts are refused.",
 ['inputs','configurations'],'every limit from the first object to past the end of several files, all storage variants, all suffixes',
 'the one test of the tool cannot run here and checks only an upper bound',
 [SC+'cut_eventio_file.py'],[('main, parse_size',SC+'cut_eventio_file.py')],None,['output file'])
prop('C32','Structure listing and object table account for every object',
 "The structure listing names every object of the file exactly once, in order and at its nesting level, or includes it in the count of omitted objects of the same kind at that place, for every repeat limit. The object table counts every object under its type, version, level and class, in both output forms.",
 ['inputs','configurations'],'all small object trees over a few types, all repeat limits within bounds',
 'tests only check that the commands exit without error',
 [SC+'print_structure.py',SC+'print_object_information.py'],[('print_structure',SC+'print_structure.py'),('count_versions',SC+'print_object_information.py')],None,['stdout'])
prop('C33','History and metadata listings show exactly what is stored',
 "The metadata tool prints, in text, JSON and telescope-difference form, exactly the stored global and per-telescope parameters; the history tool prints every entry of the leading history blocks once, in order, with its time. Both handle files that end right after those blocks.",
 ['inputs','configurations'],'all small arrangements of history and metadata blocks and what follows them, all output forms',
 'one file is tested, the history tool test cannot run here',
 [SC+'print_simtel_metaparams.py',SC+'print_simtel_history.py'],[('read_meta',SC+'print_simtel_metaparams.py'),('print_history',SC+'print_simtel_history.py')],None,['stdout'])
prop('C34','Search helpers find exactly the matching objects',
 "Each search helper delivers exactly the objects of the file or container that match its documented criterion (type, path of types, depth-first order, first n including none), each once and in file order, with usable payloads, for every file structure. Helpers that promise to tolerate truncation deliver the matching complete objects of a cut file and warn.",
 ['inputs','crash_points'],'all small object trees over a few types, all criteria, every cut position',
 'the only test file of these helpers is missing',
 [SU],[('search helpers',SU)],None,['eventio.search_utils'])
prop('C35','Readers do not influence each other',
 "Several readers used at the same time, in one thread in any interleaving of their steps or in different threads under any schedule, on the same or on different files, each give exactly what they give when used alone.",
 ['schedules','histories'],'all interleavings of the steps of two readers; all thread schedules of two readers with a bounded number of preemptions at every executed line',
 'tests use one reader at a time in one thread',
 [B,SO,IO,V,SF,II,'src/eventio/simtel/pixelset.py','src/eventio/simtel/runheader_dtypes.py'],[('all state kept per reader object; caches keyed by all parameters',B)],None,['results of all readers'])
prop('C36','The plot tool plots every stored histogram',
 "For every file, the plot tool makes exactly one plot per stored histogram, in file order and also for histograms without entries, saves it under the output base with the running number and the chosen format, and each plot carries the title, bins and contents of its histogram, with all filled bins in view.",
 ['inputs','configurations'],'every set of filled bins of small 1D and 2D histograms, all small files of histogram blocks and other objects, all formats',
 'the tool has no test that runs here',
 [SC+'plot_hists.py'],[('main',SC+'plot_hists.py'),('Histograms.parse','src/eventio/histograms.py')],None,['saved figures'])
prop('C37','Damaged data stays local and never crashes a reader',
 "Whatever bytes a file contains, reading and parsing it ends, with data or with a Python exception. A change inside the payload of an object changes nothing else that is delivered, and what parsing a damaged block gives depends only on the block itself: never on bytes behind it, on the contents of memory or on what was read before. Events that are complete before the damage are delivered unchanged.",
 ['inputs','histories'],'every block kind with every single byte damaged in several ways, cut and extended at every byte; every byte of small files and of event files',
 'tests read undamaged files only',
 [B,SO,IO,V,SF,II,'src/eventio/simtel/parsing.pyx'],[('all parse methods',SO),('reads from a payload',V),('read, __next__',B)],None,['results and errors of iterating and parsing'])
prop('C38','Files are recognised by content under every name, and are only read',
 "Which kind of file a path leads to and how it is compressed is decided by the content alone. Every name (spaces, leading dashes, non-ASCII and other special characters, misleading suffixes) given as text or Path, relative or absolute, direct or through a link, opens and gives the same objects and events as under any other name, whatever other files lie beside it. Readers, helpers and tools leave the file and everything around it as it was; the only file made is the output named for the cut tool.",
 ['inputs','configurations'],'all names x path forms x storage variants x readers and tools, with and without other files of similar names',
 'tests open a few files under their own names',
 [B,'src/eventio/file_types.py',SC+'cut_eventio_file.py'],[('EventIOFile.__init__',B),('is_gzip, is_zstd, is_eventio','src/eventio/file_types.py')],None,['results of readers and tools','directory contents'])
prop('C39','Read errors surface and never change the data',
 "If the operating system refuses to open the file or reports an error for a read of it, the call that needs the data raises that error (a peek may leave it to the next step). It is never taken for the end of the file: no reader, helper or tool drops, shortens or invents an object, event or line because of it, everything delivered before is right, and closing still releases everything. On uncompressed files the failed step or read can be repeated and then gives what it would have given. However few bytes the system returns per read, nothing changes.",
 ['crash_points','histories'],'every read and open call of every use of small files (objects, events, helpers, tools) fails or returns fewer bytes, up to three of them',
 'tests never meet a read error',
 [B,SU,SF,II,SC+'cut_eventio_file.py'],[('__next__, peek, read',B),('_read_next_event',SF)],None,['results and errors of all calls','open descriptors'])
pathlib.Path(__file__).resolve().parent.parent.joinpath('properties.jsonl').write_text(''.join(json.dumps(p)+'\n' for p in P))
print(len(P), max(len(p['title']) for p in P))
